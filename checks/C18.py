"""Access restrictions: one use of one member of one class of a hierarchy; refused or run as its visibility demands."""

import sites
from sites import START, END
from vlib import Result

PROPERTY = "C18"
LEVEL = "exploration"
CASES = {"quick": 15000, "thorough": 50000}
RULE = "one case = one hierarchy with one member and one use of it; non-trivial if the member is not public"

KINDS = ["field", "write", "increment", "object", "method", "modifying method", "overloaded method", "static field", "static method"]


def gen(t):
    levels = t.int(1, 4)                      # L0 .. L3
    owner = t.below(levels)
    kind = t.choice(KINDS)
    vis = t.weighted([(3, "private"), (3, "protected"), (2, "public"), (1, "")])
    space = t.bool(1, 4)
    names = ["L%d" % i for i in range(levels)]
    where = t.weighted([(6, "class"), (2, "other"), (1, "function"), (1, "main"), (1, "friend")])
    site = t.below(levels) if where == "class" else None

    static = kind.startswith("static")
    forms = ["object", "call", "member"]
    if where == "class" and site >= owner:
        forms += ["short", "this", "short", "this"]
        if site > owner:
            forms += ["base", "base"]
    if static:
        forms += ["class"]
    if kind == "static method":
        forms = ["class"]
    form = t.choice(forms)
    # the first class may be a generic one; its members may be of its parameter's type
    generic = not static and t.bool(1, 3)
    # type of the object (or the class) the member is used of
    target = t.int(owner, levels - 1)
    if form == "object" and where == "class" and site >= owner and t.bool(1, 2):
        target = site
    hidden = vis != "public"
    inherited_ok = vis == "protected" or not hidden

    if not hidden:
        allowed = True
    elif where != "class":
        allowed = False
    elif form in ("short", "this"):
        allowed = site == owner or inherited_ok
    elif form == "base":
        allowed = inherited_ok
    elif form == "object" or form == "call" or form == "member":
        allowed = target == site and (site == owner or inherited_ok)
    else:
        allowed = False
    if form in ("call", "member") and hidden and where == "class" and target == site:
        # own objects that are reached by an expression: not decided here
        allowed = None if allowed else False
    if form == "class" and hidden and where == "class":
        allowed = None
    decl = {
        "field": "int x;", "write": "int x;", "increment": "int x;", "object": "Thing x;",
        "method": "int x() const { return 1; }", "modifying method": "int x() modify { return 1; }",
        "overloaded method": "int x(int a, int b = 2) const { return a; }",
        "static field": "static int x;", "static method": "static int x() { return 1; }",
    }[kind]
    if generic:
        names[0] += "<int>"
        if owner == 0 and t.bool():
            decl = decl.replace("int x", "T x")
            if kind.endswith("method"):
                decl = decl.replace("return 1", "T r; return r").replace("return a", "T r; return r")
    decl = (vis + " " + decl).strip()
    path = "Space." if space and where in ("other", "function", "main") else ""
    path_t = "Space." if space else ""
    left = {"short": "x", "this": "this.x", "base": "base.x", "object": "o.x", "call": "make().x", "member": "holder.held.x",
            "class": "%s%s.x" % (path_t, names[target])}[form]
    use = {
        "field": "int z = {};", "write": "{} = 4;", "increment": "{}++;", "object": "Thing z = {};", "method": "int z = {}();", "modifying method": "int z = {}();",
        "overloaded method": t.choice(["int z = {}(1);", "int z = {}(1, 3);", "q0 = {}(2);"]), "static field": "int z = {};", "static method": "int z = {}();",
    }[kind].replace("{}", left)
    if kind in ("write", "increment") and form in ("call", "member"):
        use = "int z = %s;" % left
    if kind in ("field", "method", "static field") and t.bool(1, 3):
        expr = left + ("()" if kind == "method" else "")
        use = t.choice(["if ({} == 1) { q0 = 2; }", "q0 = 1 + {} * 2;", "print(cast<string>({}));", "q0 = ident({});", "while ({} == 7777) { q0 = 1; }", "assert({} == 0 || true);"]).replace("{}", expr)

    def body(indent):
        pre, ind, post, labels = sites.nest(t, indent, " 0")
        tt = names[target]
        setup = []
        if form == "object":
            setup = ["%s%s o;" % (path_t, tt)]
            if kind != "static field":
                setup = ["%s%s o = new %s%s();" % (path_t, tt, path_t, tt)]
        if form == "member":
            setup = ["Holder holder = new Holder();"]
        if form == "call":
            setup = []
        lines = ["\t" * indent + x for x in setup]
        return [lines + pre + [ind + y] + post for y in (use, "q0 = 3;")], labels

    (with_use, without), labels = body(2 if where not in ("function", "main") else 1)
    texts = []
    for code in (with_use, without):
        out = ["public object Thing { }", "public int ident(int a) { return a; }"]
        if space:
            out.append("public namespace Space {")
        for i, n in enumerate(names):
            out.append("public object %s%s {" % (n.replace("<int>", "<T>"), " extends " + path_t + names[i - 1] if i else ""))
            if i == owner:
                out.append("\t" + decl)
                if kind == "object":
                    out.append("\tpublic void Constructor() { x = new Thing(); }")
            if site == i:
                out += ["\tpublic int site() modify throws {"] + code + ["\t\treturn 0;", "\t}"]
            out.append("}")
        if where == "friend":
            # a class beside the others, inside of the same namespace
            out += ["public object Friend {", "\tpublic int site() modify throws {"] + code + ["\t\treturn 0;", "\t}", "}"]
        if space:
            out.append("}")
        out += ["public %s%s make() { return new %s%s(); }" % (path_t, names[target], path_t, names[target])]
        out += ["public object Holder { public %s%s held; public void Constructor() { held = new %s%s(); } }" % ((path_t, names[target]) * 2)]
        if where == "other":
            out += ["public object Other {", "\tpublic int site() modify throws {"] + code + ["\t\treturn 0;", "\t}", "}"]
        if where == "function":
            out += ["public int site() modify throws {"] + code + ["\treturn 0;", "}"]
        out += ["public int Main(int argc, string args) modify throws {", "\tprint(\"%s\");" % START]
        cls = {"class": names[site] if site is not None else "", "other": "Other", "friend": "Friend"}.get(where)
        if where == "main":
            out += code
        elif where == "function":
            out.append("\tsite();")
        else:
            p = path_t if where != "other" else ""
            out.append("\t%s%s w = new %s%s(); w.site();" % (p, cls, p, cls))
        out += ["\tprint(\"%s\");" % END, "\treturn 0;", "}"]
        texts.append("\n".join(out) + "\n")
    labels.update({"kind": kind, "visibility": vis or "default", "where": where, "form": form, "allowed": allowed, "generic": generic})
    return {"what": "%s %s, %s, %s" % (vis or "default", kind, where, form), "labels": labels, "allowed": allowed, "place": [use, (site, owner, target)],
            "use": texts[0], "without": texts[1], "hidden": hidden}


def run(case, env):
    labels = {"%s=%s" % x: 1 for x in case["labels"].items()}
    if case["allowed"] is None:
        # nothing is claimed about this use; it must not be accepted and fail later
        failure = sites.judge(None, case["without"], env, case["what"])
        return Result(failure, False, case["use"], labels)
    if case["allowed"]:
        failure = sites.judge(None, case["use"], env, case["what"])
    else:
        failure = sites.judge(case["use"], case["without"], env, case["what"])
    return Result(failure, case["hidden"], case["use"], labels)


def render(case):
    return "// %s: %s\n%s" % (case["what"], {True: "has to run", False: "has to be refused", None: "nothing claimed"}[case["allowed"]], case["use"])
