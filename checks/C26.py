"""Set and Map against a sorted list and a dict, under generated histories of operations."""
import bisect

from coll import ELEMENTS, Program, Raised
from vlib import Result, compare_output

PROPERTY = "C26"
LEVEL = "exploration"
CASES = {"quick": 9000, "thorough": 24000}
CHUNK = 25
RULE = ("case = history of 20 to 70 operations on up to three set or map variables, with a dump of all contents after each changing operation; "
        "non-trivial if at least 4 insertions meet an element or key that is already present or removed before and at least 2 removals succeed; distinct "
        "counts program texts")


def gen_set(t):
    elem = t.weighted([(3, "int"), (2, "string"), (2, "Item")])
    p = Program(["System.Collections.Set"], elem)
    tn = "Set<%s>" % elem
    p.funcs.append("public object Warm { private %s mMember; }" % tn)
    p.funcs.append("public void dump(%s c) throws {" % tn)
    p.funcs.append("\tstring s = \"\" + c.size() + \":\";")
    p.funcs.append("\tfor ( int i = 0; i < c.size(); i++ ) { s += \",\" + %s; }" % p.text("c.at(i)"))
    p.funcs.append("\ts += \"/\";")
    p.funcs.append("\tforeach ( %s e : c ) { s += \",\" + %s; }" % (elem, p.text("e")))
    p.funcs.append("\tif ( !c.empty() ) { s += \"/\" + %s + \"/\" + %s; }" % (p.text("c.first()"), p.text("c.last()")))
    p.funcs.append("\tprint(s);")
    p.funcs.append("}")
    names = ["a", "b", "c"][:t.weighted([(3, 1), (2, 2), (1, 3)])]
    vs = {}
    multi = {}
    for n in names:
        vs[n] = []
        multi[n] = t.bool(1, 4)
        arg = "true" if multi[n] else t.choice(["", "false"])
        p.stmt("%s %s = new %s(%s);" % (tn, n, tn, arg))

    def show(n):
        l = vs[n]
        body = "".join("," + p.txt(v) for v in l)
        ends = "/%s/%s" % (p.txt(l[0]), p.txt(l[-1])) if l else ""
        p.stmt("dump(%s);" % n, ["%d:%s/%s%s" % (len(l), body, body, ends)])

    gone = set()
    for _ in range(t.many(20, 70, 24)):
        n = t.choice(names)
        l = vs[n]
        op = t.weighted([(9, "insert"), (4, "erase"), (2, "at"), (1, "ends"), (2, "query"), (1 if t.bool(1, 2) else 0, "clear"), (1, "copy"),
                         (1 if len(names) > 1 else 0, "alias")])
        v = t.int(0, 9)
        changed = False
        if op == "insert":
            def f(out):
                if v in l and not multi[n]:
                    raise Raised()
                bisect.insort(l, v)
            if v in l or v in gone:
                p.note("repeats")
            changed = p.attempt(["%s.insert(%s);" % (n, p.src(v))], f) or t.bool(1, 2)
        elif op == "erase":
            i = t.int(-1, len(l) + 1)

            def f(out):
                if not 0 <= i < len(l):
                    raise Raised()
                gone.add(l[i])
                del l[i]
            changed = p.attempt(["%s.erase(%d);" % (n, i)], f)
            if changed:
                p.note("removals")
        elif op == "at":
            i = t.int(-1, len(l))

            def f(out):
                if not 0 <= i < len(l):
                    raise Raised()
                out.append("@ " + p.txt(l[i]))
            e = "%s.at(%d)" % (n, i) if t.bool() else "%s[%d]" % (n, i)
            p.attempt(['print("@ " + %s);' % p.text(e)], f)
        elif op == "ends":
            w = t.choice(["first", "last"])

            def f(out):
                if not l:
                    raise Raised()
                out.append("@ " + p.txt(l[0 if w == "first" else -1]))
            p.attempt(['print("@ " + %s);' % p.text("%s.%s()" % (n, w))], f)
        elif op == "query":
            p.stmt('print("q " + %s.indexOf(%s) + %s.contains(%s) + %s.empty() + %s.size());' % (n, p.src(v), n, p.src(v), n, n),
                   ["q %d%d%d%d" % (l.index(v) if v in l else -1, v in l, not l, len(l))])
        elif op == "clear":
            p.stmt("%s.clear();" % n)
            gone.update(l)
            del l[:]
            changed = True
        elif op == "copy":
            m = t.choice(names)
            vs[m] = list(l)
            multi[m] = multi[n]
            p.stmt("%s = %s;" % (m, t.choice(["%s.Copy()", "copy %s"]) % n))
            p.note("copies")
            show(n)
            n = m
            changed = True
        else:
            m = t.choice(names)
            vs[m] = l
            multi[m] = multi[n]
            p.stmt("%s = %s;" % (m, n))
            n = m
        if changed:
            show(n)
            if len(names) > 1 and t.bool(1, 3):
                show(t.choice(names))
    return p


def gen_map(t):
    key = t.weighted([(3, "int"), (3, "string"), (1, "Item")])
    elem = t.weighted([(2, "int"), (3, "string"), (1, "Item" if key != "int" else "string")])
    p = Program(["System.Collections.Map"], elem)
    ksrc, ktxt = ELEMENTS[key]
    items = "Item" in (key, elem)
    ktext = lambda e: e if key == "string" else "cast<string>(%s)" % e
    tn = "Map<%s, %s>" % (key, elem)
    if items and elem != "Item":
        from coll import ITEM
        p.funcs.append(ITEM)
    p.funcs.append("public object Warm { private %s mMember; }" % tn)
    p.funcs.append("public void dump(%s c) throws {" % tn)
    p.funcs.append("\tstring s = \"\" + c.size() + c.empty() + \":\";")
    p.funcs.append("\tforeach ( Pair<%s, %s> e : c ) { s += \",\" + %s + \"=\" + %s; }" % (key, elem, ktext("e.first"), p.text("e.second")))
    p.funcs.append("\tif ( !c.empty() ) { s += \"/\" + %s + \"/\" + %s; }" % (p.text("c.first()"), p.text("c.last()")))
    p.funcs.append("\tprint(s);")
    p.funcs.append("}")
    names = ["a", "b", "c"][:t.weighted([(3, 1), (2, 2), (1, 3)])]
    vs = {}
    for n in names:
        vs[n] = {}
        p.stmt("%s %s = new %s();" % (tn, n, tn))

    def show(n):
        d = list(vs[n].items())
        ends = "/%s/%s" % (p.txt(d[0][1]), p.txt(d[-1][1])) if d else ""
        p.stmt("dump(%s);" % n, ["%d%d:%s%s" % (len(d), not d, "".join(",%s=%s" % (ktxt(k), p.txt(v)) for k, v in d), ends)])

    gone = set()
    fresh = 0
    for _ in range(t.many(20, 70, 24)):
        n = t.choice(names)
        d = vs[n]
        op = t.weighted([(7, "insert"), (3, "put"), (4, "remove"), (4, "get"), (2, "query"), (1, "ends"), (1 if t.bool(1, 2) else 0, "clear"), (1, "copy"),
                         (1 if len(names) > 1 else 0, "alias")])
        k = t.int(0, 7)
        fresh += 1
        changed = False
        if op == "insert":
            if k in d or k in gone:
                p.note("repeats")
            d[k] = fresh
            p.stmt("%s.insert(%s, %s);" % (n, ksrc(k), p.src(fresh)))
            changed = True
        elif op == "put":
            def f(out):
                if k not in d:
                    raise Raised()
                d[k] = fresh
                p.note("repeats")
            changed = p.attempt(["%s.put(%s, %s);" % (n, ksrc(k), p.src(fresh))], f) or t.bool(1, 3)
        elif op == "remove":
            p.stmt("%s.remove(%s);" % (n, ksrc(k)))
            if k in d:
                del d[k]
                gone.add(k)
                p.note("removals")
            changed = True
        elif op == "get":
            def f(out):
                if k not in d:
                    raise Raised()
                out.append("@ " + p.txt(d[k]))
            e = ("%s.get(%s)" if t.bool() else "%s[%s]") % (n, ksrc(k))
            p.attempt(['print("@ " + %s);' % p.text(e)], f)
        elif op == "query":
            p.stmt('print("q " + %s.indexOf(%s) + %s.contains(%s) + %s.empty() + %s.size());' % (n, ksrc(k), n, ksrc(k), n, n),
                   ["q %d%d%d%d" % (list(d).index(k) if k in d else -1, k in d, not d, len(d))])
        elif op == "ends":
            w = t.choice(["first", "last"])

            def f(out):
                if not d:
                    raise Raised()
                out.append("@ " + p.txt(list(d.values())[0 if w == "first" else -1]))
            p.attempt(['print("@ " + %s);' % p.text("%s.%s()" % (n, w))], f)
        elif op == "clear":
            p.stmt("%s.clear();" % n)
            gone.update(d)
            d.clear()
            changed = True
        elif op == "copy":
            m = t.choice(names)
            vs[m] = dict(d)
            p.stmt("%s = %s;" % (m, t.choice(["%s.Copy()", "copy %s"]) % n))
            p.note("copies")
            show(n)
            n = m
            changed = True
        else:
            m = t.choice(names)
            vs[m] = d
            p.stmt("%s = %s;" % (m, n))
            n = m
        if changed:
            show(n)
            if len(names) > 1 and t.bool(1, 3):
                show(t.choice(names))
    return p


def gen(t):
    kind = t.choice(["Set", "Map"])
    case = (gen_set if kind == "Set" else gen_map)(t).case()
    case["kind"] = kind
    return case


def run(case, env):
    got = env.slang(case["src"])
    ev = case["ev"]
    nt = ev.get("repeats", 0) >= 4 and ev.get("removals", 0) >= 2
    return Result(compare_output("\n".join(case["out"]) + "\n", 0, got), nt, case["src"], labels={"%s: %s" % (case["kind"], k): n for k, n in ev.items()})


def render(case):
    return case["src"]
