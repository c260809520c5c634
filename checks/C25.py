"""Stack and Queue against a Python list, under generated histories of operations."""
from coll import Program, Raised
from vlib import Result, compare_output

PROPERTY = "C25"
LEVEL = "exploration"
CASES = {"quick": 9000, "thorough": 24000}
CHUNK = 25
RULE = ("case = history of 20 to 70 operations on up to three stack or queue variables of one element type, with a dump of every element "
        "after each changing operation; non-trivial if at least 4 elements are taken out, 6 are put in and one look at an empty container or a copy "
        "happens; distinct counts program texts")


def dump(p, kind):
    t = "%s<%s>" % (kind, p.elem)
    p.funcs.append("public object Warm { private %s mMember; }" % t)     # makes the instantiation known to all functions
    p.funcs.append("public void dump(%s c) throws {" % t)
    p.funcs.append("\tstring s = \"\" + c.size() + \":\";")
    p.funcs.append("\tfor ( int i = 0; i < c.size(); i++ ) { s += \",\" + %s; }" % p.text("c.at(i)"))
    p.funcs.append("\ts += \"/\";")
    p.funcs.append("\tforeach ( %s e : c ) { s += \",\" + %s; }" % (p.elem, p.text("e")))
    p.funcs.append("\tprint(s + \"/\" + c.empty());")
    p.funcs.append("}")


def gen(t):
    kind = t.choice(["Stack", "Queue"])
    elem = t.weighted([(3, "int"), (2, "string"), (2, "Item")])
    p = Program(["System.Collections.%s" % kind], elem)
    dump(p, kind)
    tn = "%s<%s>" % (kind, elem)
    put, take = ("push", "pop") if kind == "Stack" else ("enqueue", "dequeue")
    names = ["a", "b", "c"][:t.weighted([(3, 1), (2, 2), (1, 3)])]
    vs = {}
    for n in names:
        vs[n] = []
        p.stmt("%s %s = new %s();" % (tn, n, tn))

    def show(n):
        body = "".join("," + p.txt(v) for v in vs[n])
        p.stmt("dump(%s);" % n, ["%d:%s/%s/%d" % (len(vs[n]), body, body, not vs[n])])

    fresh = 0
    for _ in range(t.many(20, 70, 24)):
        n = t.choice(names)
        l = vs[n]
        big = len(l) > 9
        op = t.weighted([(2 if big else 7, "put"), (6, "take"), (3, "peek"), (2, "at"), (1, "index"), (1 if t.bool(1, 2) else 0, "clear"), (2, "copy"),
                         (1 if len(names) > 1 else 0, "alias"), (2, "drain" if t.bool(1, 4) else "take"),
                         (2 if kind == "Stack" else 0, "erase"), (1 if kind == "Stack" else 0, "indexOf")])
        changed = True
        if op == "put":
            fresh += 1
            v = fresh if t.bool(3, 4) else t.int(0, 4)
            l.append(v)
            p.stmt("%s.%s(%s);" % (n, put, p.src(v)))
            p.note("puts")
        elif op == "take":
            def f(out):
                if not l:
                    p.note("empty")
                    raise Raised()
                out.append("@ " + p.txt(l.pop(-1 if kind == "Stack" else 0)))
            changed = p.attempt(['print("@ " + %s);' % p.text("%s.%s()" % (n, take))], f)
            if changed:
                p.note("takes")
        elif op == "drain":
            p.stmt('while ( !%s.empty() ) { print("d " + %s); }' % (n, p.text("%s.%s()" % (n, take))),
                   ["d " + p.txt(v) for v in (reversed(l) if kind == "Stack" else l)])
            p.note("takes")
            del l[:]
        elif op == "peek":
            def f(out):
                if not l:
                    p.note("empty")
                    raise Raised()
                out.append("@ " + p.txt(l[-1]))     # the element put in last, for both kinds
            p.attempt(['print("@ " + %s);' % p.text("%s.peek()" % n)], f)
            changed = t.bool(1, 4)
        elif op in ("at", "index"):
            i = t.int(-1, len(l))

            def f(out):
                if not 0 <= i < len(l):
                    raise Raised()
                out.append("@ " + p.txt(l[i]))
            e = "%s.at(%d)" % (n, i) if op == "at" else "%s[%d]" % (n, i)
            p.attempt(['print("@ " + %s);' % p.text(e)], f)
            changed = False
        elif op == "erase":
            i = t.int(-1, len(l) + 1)

            def f(out):
                if not 0 <= i < len(l):
                    raise Raised()
                del l[i]
            changed = p.attempt(["%s.erase(%d);" % (n, i)], f)
        elif op == "indexOf":
            v = t.int(0, 4)
            p.stmt('print("i " + %s.indexOf(%s) + %s.contains(%s));' % (n, p.src(v), n, p.src(v)),
                   ["i %d%d" % (l.index(v) if v in l else -1, v in l)])
            changed = False
        elif op == "clear":
            p.stmt("%s.clear();" % n)
            del l[:]
        elif op == "copy":
            m = t.choice(names)
            vs[m] = list(l)
            p.stmt("%s = %s;" % (m, t.choice(["%s.Copy()", "copy %s"]) % n))
            p.note("copies")
            show(n)
            n = m
        else:
            m = t.choice(names)
            vs[m] = l
            p.stmt("%s = %s;" % (m, n))
            n = m
            changed = False
        if changed:
            show(n)
            if len(names) > 1 and t.bool(1, 3):
                show(t.choice(names))
    case = p.case()
    case["kind"] = kind
    return case


def run(case, env):
    got = env.slang(case["src"])
    ev = case["ev"]
    nt = ev.get("takes", 0) >= 4 and ev.get("puts", 0) >= 6 and (ev.get("copies", 0) or ev.get("empty", 0))
    return Result(compare_output("\n".join(case["out"]) + "\n", 0, got), bool(nt), case["src"], labels={"%s: %s" % (case["kind"], k): n for k, n in ev.items()})


def render(case):
    return case["src"]
