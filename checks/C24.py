"""List, Vector and DoubleLinkedList against a Python list, under generated histories of operations."""
from coll import Program, Raised
from vlib import Result, compare_output

PROPERTY = "C24"
LEVEL = "exploration"
CASES = {"quick": 9000, "thorough": 24000}
CHUNK = 25
RULE = ("case = history of 20 to 70 operations on up to three list, vector or doubly linked list variables of one element type, with a "
        "dump of every element after each changing operation; non-trivial if at least 6 operations change a collection of two or more "
        "elements and at least one removal happens; distinct counts program texts")


def dump(p, kind):
    """The elements by index and by iteration, both ends and the size."""
    t = "%s<%s>" % (kind, p.elem)
    p.funcs.append("public object Warm { private %s mMember; }" % t)     # makes the instantiation known to all functions
    p.funcs.append("public void dump(%s c) throws {" % t)
    p.funcs.append("\tstring s = \"\" + c.size() + \":\";")
    p.funcs.append("\tfor ( int i = 0; i < c.size(); i++ ) { s += \",\" + %s; }" % p.text("c.at(i)"))
    p.funcs.append("\ts += \"/\";")
    p.funcs.append("\tforeach ( %s e : c ) { s += \",\" + %s; }" % (p.elem, p.text("e")))
    p.funcs.append("\tif ( !c.empty() ) { s += \"/\" + %s + \"/\" + %s; }" % (p.text("c.first()"), p.text("c.last()")))
    p.funcs.append("\tprint(s);")
    p.funcs.append("}")


def gen(t):
    kind = t.choice(["List", "Vector", "DoubleLinkedList"])
    elem = t.weighted([(3, "int"), (2, "string"), (2, "Item")])
    p = Program(["System.Collections.%s" % kind], elem)
    dump(p, kind)
    tn = "%s<%s>" % (kind, elem)
    # variables denote references: vars maps a name to a Python list object
    names = ["a", "b", "c"][:t.weighted([(3, 1), (2, 2), (1, 3)])]
    vs = {}
    for n in names:
        vs[n] = []
        p.stmt("%s %s = new %s();" % (tn, n, tn))
    changes = 0

    def show(n):
        l = vs[n]
        body = "".join("," + p.txt(v) for v in l)
        ends = "/%s/%s" % (p.txt(l[0]), p.txt(l[-1])) if l else ""
        p.stmt("dump(%s);" % n, ["%d:%s/%s%s" % (len(l), body, body, ends)])

    for _ in range(t.many(20, 70, 24)):
        n = t.choice(names)
        l = vs[n]
        big = len(l) > 9
        op = t.weighted([(1 if big else 5, "push_back"), (1 if big else 4, "push_front"), (3, "pop_back"), (3, "pop_front"), (4, "erase"),
                         ((1 if big else 4) if kind == "Vector" else 0, "insert"), (2, "at"), (1, "index"), (1, "first"), (1, "last"),
                         (2, "indexOf"), (1, "contains"), (1 if t.bool(1, 2) else 0, "clear"), (1, "empty"), (2, "copy"),
                         (1 if len(names) > 1 else 0, "alias")])
        v = t.int(0, 5)
        before = len(l)
        changed = False
        if op in ("push_back", "push_front"):
            l.insert(len(l) if op == "push_back" else 0, v)
            p.stmt("%s.%s(%s);" % (n, op, p.src(v)))
            changed = True
        elif op in ("pop_back", "pop_front"):
            def f(out):
                if not l:
                    raise Raised()
                l.pop(-1 if op == "pop_back" else 0)
            changed = p.attempt(["%s.%s();" % (n, op)], f)
            if changed:
                p.note("removals")
        elif op == "erase":
            i = t.int(-1, len(l) + 1)

            def f(out):
                if not 0 <= i < len(l):
                    raise Raised()
                del l[i]
            changed = p.attempt(["%s.erase(%d);" % (n, i)], f)
            if changed:
                p.note("removals")
        elif op == "insert":
            i = t.int(-1, len(l) + 1)

            def f(out):
                if not 0 <= i <= len(l):
                    raise Raised()
                l.insert(i, v)
            changed = p.attempt(["%s.insert(%d, %s);" % (n, i, p.src(v))], f)
        elif op in ("at", "index"):
            i = t.int(-1, len(l))

            def f(out):
                if not 0 <= i < len(l):
                    raise Raised()
                out.append("@ " + p.txt(l[i]))
            e = "%s.at(%d)" % (n, i) if op == "at" else "%s[%d]" % (n, i)
            p.attempt(['print("@ " + %s);' % p.text(e)], f)
        elif op in ("first", "last"):
            def f(out):
                if not l:
                    raise Raised()
                out.append("@ " + p.txt(l[0 if op == "first" else -1]))
            p.attempt(['print("@ " + %s);' % p.text("%s.%s()" % (n, op))], f)
        elif op == "indexOf":
            p.stmt('print("i " + %s.indexOf(%s));' % (n, p.src(v)), ["i %d" % (l.index(v) if v in l else -1)])
        elif op == "contains":
            p.stmt('print("c " + %s.contains(%s));' % (n, p.src(v)), ["c %d" % (v in l)])
        elif op == "clear":
            p.stmt("%s.clear();" % n)
            del l[:]
            changed = True
        elif op == "empty":
            p.stmt('print("e " + %s.empty() + %s.size());' % (n, n), ["e %d%d" % (not l, len(l))])
        elif op == "copy":
            m = t.choice(names)
            vs[m] = list(l)
            p.stmt("%s = %s;" % (m, t.choice(["%s.Copy()", "copy %s"]) % n))
            p.note("copies")
            show(n)
            n = m
            changed = True
        else:
            m = t.choice(names)
            vs[m] = l
            p.stmt("%s = %s;" % (m, n))
            n = m
        if changed:
            if before > 1:
                changes += 1
            show(n)
            if len(names) > 1 and t.bool(1, 3):
                show(t.choice(names))
    case = p.case()
    case["changes"] = changes
    case["kind"] = kind
    return case


def run(case, env):
    got = env.slang(case["src"])
    ev = case["ev"]
    nt = case["changes"] >= 6 and ev.get("removals", 0) > 0
    return Result(compare_output("\n".join(case["out"]) + "\n", 0, got), nt, case["src"], labels={"%s: %s" % (case["kind"], k): n for k, n in ev.items()})


def render(case):
    return case["src"]
