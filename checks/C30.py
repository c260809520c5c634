"""JSON documents: generated documents parsed from text or built by calls, written, read back, navigated; and structurally malformed texts."""
import json

from nat import text as numtext
from strs import lit
from vlib import Result, compare_output

PROPERTY = "C30"
LEVEL = "exploration"
CASES = {"quick": 2700, "thorough": 12000}
RULE = ("case = one generated document (nesting up to 4, empty and nested arrays and objects, numbers, strings with quotes, backslashes, line breaks and words like false) given as text in a generated layout "
        "with escapes, or built by calls; it is written by all three writers, each result is compared with the document and read back by the library, and members are looked up; or a text with one or two structural "
        "characters removed, added or exchanged that must be rejected; non-trivial if the document has nested elements; distinct counts programs")

WORDS = ["", "a", "b", "key", "false", "true", "null", "two words", 'say "hi"', "back\\slash", "\\", '"', "line\nbreak", "tab\there", "[", "},{", "0", "1.5", "ä", "quick", "x:y,z", "\\n"]


def gen_doc(t, depth):
    k = t.weighted([(2, "int"), (2, "string"), (1, "bool"), (1, "null"), (1, "double"), (3 * depth, "array"), (3 * depth, "object")])
    if k == "int":
        return t.int(-20, 20) if t.bool(2, 3) else t.int(-2**31 + 1, 2**31 - 1)
    if k == "double":
        return t.int(-640, 640) / 64 + 0.0
    if k == "string":
        return t.choice(WORDS)
    if k == "bool":
        return t.bool()
    if k == "null":
        return None
    n = t.int(0, 3)
    if k == "array":
        return [gen_doc(t, depth - 1) for _ in range(n)]
    return {w: gen_doc(t, depth - 1) for w in t.sample(WORDS, n)}


def write_string(t, s):
    out = '"'
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif c == "\n" and t.bool():
            out += "\\n"
        elif c == "\t" and t.bool():
            out += "\\t"
        else:
            out += c
    return out + '"'


def number(t, v):
    if isinstance(v, int):
        return "%d" % v
    return t.choice(["%r", "%.8f", "%e", "%E"]) % v


def tokens(t, d):
    if d is None:
        return ["null"]
    if isinstance(d, bool):
        return ["true" if d else "false"]
    if isinstance(d, (int, float)):
        return [number(t, d)]
    if isinstance(d, str):
        return [write_string(t, d)]
    out = []
    if isinstance(d, list):
        for x in d:
            out += [","] * bool(out) + tokens(t, x)
        return ["["] + out + ["]"]
    for k, x in d.items():
        out += [","] * bool(out) + [write_string(t, k), ":"] + tokens(t, x)
    return ["{"] + out + ["}"]


def layout(t, toks):
    style = t.below(3)
    out = ""
    for i, k in enumerate(toks):
        if i:
            out += "" if style == 0 else " " if style == 1 else t.choice(["", " ", "\n", "\t", "  \n"])
            if out[-1:] not in "[]{},: \n\t" and k not in "[]{},:":
                out += " "
        out += k
    return out


def accepts(toks):
    """Is the token sequence a document, not minding a comma before a closing bracket?"""
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else ""

    def value():
        nonlocal pos
        k = peek()
        if k in ("[", "{"):
            pos += 1
            close = "]" if k == "[" else "}"
            while peek() != close:
                if k == "{":
                    if peek()[:1] != '"':
                        return False
                    pos += 1
                    if peek() != ":":
                        return False
                    pos += 1
                if not value():
                    return False
                if peek() != ",":
                    break
                pos += 1
            if peek() != close:
                return False
            pos += 1
            return True
        if k in ("", ",", ":", "]", "}"):
            return False
        pos += 1
        return True
    return value() and pos == len(toks)


def damage(t, toks):
    for _ in range(20):
        r = list(toks)
        for _ in range(t.int(1, 2)):
            k = t.below(4)
            marks = [i for i, x in enumerate(r) if x in "[]{},:"]
            if k == 0 and marks:
                del r[t.choice(marks)]
            elif k == 1:
                r.insert(t.int(0, len(r)), t.choice("[]{},:"))
            elif k == 2 and marks:
                r[t.choice(marks)] = t.choice("[]{},:")
            elif k == 3 and r:
                r.insert(t.int(0, len(r)), t.choice(["1", '"s"', "true"]))
        if r and not accepts(r):
            return r
    return None


def build(t, d, lines, names):
    """Statements that construct d; returns the variable or expression of type JsonValue or a subtype."""
    if d is None:
        return "new JsonValue()"
    if isinstance(d, bool):
        return "new JsonValue(%s)" % ("true" if d else "false")
    if isinstance(d, int):
        return "new JsonValue(%d)" % d
    if isinstance(d, float):
        return "new JsonValue(%rd)" % d
    if isinstance(d, str):
        return "new JsonValue(%s)" % lit(d.encode().decode("latin-1"))
    n = "v%d" % len(names)
    names.append(n)
    if isinstance(d, list):
        lines.append("JsonArray %s = new JsonArray();" % n)
        for x in d:
            lines.append("%s.addMember(%s);" % (n, build(t, x, lines, names)))
    else:
        lines.append("JsonObject %s = new JsonObject();" % n)
        for k, x in d.items():
            kl = lit(k.encode().decode("latin-1"))
            if isinstance(x, (bool, int, float, str)) and t.bool():
                v = ("true" if x else "false") if isinstance(x, bool) else "%d" % x if isinstance(x, int) else "%rd" % x if isinstance(x, float) else lit(x.encode().decode("latin-1"))
                lines.append("%s.addMember(%s, %s);" % (n, kl, v))
            elif t.bool(1, 4):
                lines.append('%s.%s(%s, new JsonValue("old"));' % (n, t.choice(["set", "addMember"]), kl))
                e = build(t, x, lines, names)
                lines.append("%s.set(%s, %s);" % (n, kl, e if not isinstance(x, (list, dict)) else "JsonValue " + e))
            else:
                lines.append("%s.addMember(%s, %s);" % (n, kl, build(t, x, lines, names)))
    return n


def lookups(t, doc, var, lines, out):
    """Follows random paths through the document."""
    for q in range(t.int(1, 5)):
        d, cur = doc, var
        n = 0
        while isinstance(d, (list, dict)) and d and t.bool(4, 5):
            nm = "q%d_%d" % (q, n)
            n += 1
            if isinstance(d, list):
                i = t.below(len(d))
                lines.append("JsonArray %s = %s.asArray(); JsonValue %sv = %s[%d];" % (nm, cur, nm, nm, i))
                d = d[i]
            else:
                k = t.choice(list(d))
                i = lit(k.encode().decode("latin-1"))
                lines.append("JsonObject %s = %s.asObject(); JsonValue %sv = %s[%s];" % (nm, cur, nm, nm, i))
                d = d[k]
            cur = nm + "v"
        kinds = [isinstance(d, list), isinstance(d, bool), d is None, isinstance(d, (int, float)) and not isinstance(d, bool), isinstance(d, dict), isinstance(d, str)]
        lines.append('print("" + %s);' % " + ".join("%s.is%s()" % (cur, k) for k in ("Array", "Bool", "Null", "Number", "Object", "String")))
        out.append("".join(str(int(k)) for k in kinds))
        if isinstance(d, (list, dict)):
            nm = "c%d" % q
            lines.append("%s %s = %s.as%s(); print(%s.size());" % ("JsonArray" if isinstance(d, list) else "JsonObject", nm, cur, "Array" if isinstance(d, list) else "Object", nm))
            out.append(str(len(d)))
            if isinstance(d, list):
                lines.append('try { JsonValue x = %s[%d]; print("found"); } catch { print("none"); }' % (nm, len(d)))
                out.append("none")
            else:
                for w in t.sample(WORDS, 3):
                    wl = lit(w.encode().decode("latin-1"))
                    lines.append('print(%s.isMember(%s)); try { JsonValue x = %s[%s]; print("found"); } catch { print("none"); }' % (nm, wl, nm, wl))
                    out += ["1", "found"] if w in d else ["0", "none"]
            lines.append('try { %s x = %s.as%s(); print("same"); } catch { print("other"); }' % (("JsonObject", cur, "Object") if isinstance(d, list) else ("JsonArray", cur, "Array")))
            out.append("other")
            if isinstance(d, list):
                # objects are arrays' superset here: looking at an array as an object is left open
                lines.pop()
                out.pop()
        elif isinstance(d, bool):
            lines.append('print(%s.asBool()); print(%s.asString());' % (cur, cur))
            out += [str(int(d)), "true" if d else "false"]
        elif isinstance(d, int):
            lines.append("print(%s.asInt());" % cur)
            out.append(str(d))
        elif isinstance(d, float):
            lines.append("print(%s.asDouble());" % cur)
            out.append(numtext(d, "double"))
        elif isinstance(d, str):
            lines.append('print("<" + %s.asString() + ">"); try { JsonArray x = %s.asArray(); print("array"); } catch { print("other"); }' % (cur, cur))
            out += ["<" + d + ">", "other"]


def gen(t):
    mode = t.weighted([(3, "parse"), (2, "build"), (2, "malformed")])
    doc = gen_doc(t, t.int(1, 4))
    if not isinstance(doc, (list, dict)) and t.bool(3, 4):
        doc = [doc, gen_doc(t, 3)] if t.bool() else {"k": doc}
    lines, out = [], []
    if mode == "malformed":
        toks = tokens(t, doc)
        k = t.below(4)
        strs = [i for i, x in enumerate(toks) if x[0] == '"']
        if k == 0 and strs:
            i = t.choice(strs)
            toks[i] = toks[i][:-1] if t.bool() else toks[i][1:]
        else:
            toks = damage(t, toks)
        if toks:
            txt = layout(t, toks)
            lines.append('try { JsonValue v = r.parse(%s); print("accepted"); print(v.toString()); } catch { print("rejected"); }' % lit(txt.encode().decode("latin-1")))
            out.append("rejected")
            return finish(mode, doc, lines, out)
        mode = "parse"
    if mode == "parse":
        txt = layout(t, tokens(t, doc))
        lines.append("JsonValue v = r.parse(%s);" % lit(txt.encode().decode("latin-1")))
        var = "v"
    else:
        var = build(t, doc, lines, [])
        if var.startswith("new"):
            lines.append("JsonValue v = %s;" % var)
        else:
            lines.append("JsonValue v = JsonValue %s;" % var)
        var = "v"
    lookups(t, doc, var, lines, out)
    order = t.shuffle(["v.toString()", "w.toString(v)", "s.toString(v)"])
    for i, e in enumerate(order):
        lines.append("string t%d = %s; JsonValue p%d = r.parse(t%d); print(p%d.toString() == v.toString()); print(w.toString(p%d) == w.toString(v));" % (i, e, i, i, i, i))
        out += ["1", "1"]
    for i in range(len(order)):
        lines.append('print("#"); print(t%d);' % i)
    return finish(mode, doc, lines, out)


def finish(mode, doc, lines, out):
    src = ("import libJson.All;\n\npublic int Main(int argc, string args) modify throws {\n\tvar r = new JsonReader(); var w = new JsonWriter(); var s = new JsonStyledWriter();\n\t%s\n\treturn 0;\n}\n"
           % "\n\t".join(lines))
    return {"source": src, "expected": out, "doc": json.dumps(doc), "mode": mode}


def render(case):
    return case["source"] + "\n// document: %s\n// expected\n%s\n" % (case["doc"], "\n".join(case["expected"]))


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    return not isinstance(b, (list, dict)) and abs(a - b) < 1e-6


def run(case, env):
    got = env.slang(case["source"])
    doc = json.loads(case["doc"])
    head, *written = got.out.split(b"\n#\n") if case["mode"] != "malformed" else [got.out[:-1]]
    got.out = head + b"\n"
    failure = compare_output("\n".join(case["expected"]) + "\n", 0, got)
    if not failure:
        for w in written:
            try:
                d = json.loads(w.decode(), strict=False)
            except ValueError as e:
                failure = {"what": "the written text is no JSON document: %s" % e, "text": w.decode("utf-8", "replace")}
                break
            if not same(doc, d):
                failure = {"what": "the written text differs from the document", "document": case["doc"], "text": w.decode()}
                break
    nt = isinstance(doc, (list, dict)) and any(isinstance(x, (list, dict)) and x for x in (doc.values() if isinstance(doc, dict) else doc))
    return Result(failure, nt, case["source"], {case["mode"]: 1})
