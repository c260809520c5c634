"""Iterators, foreach and ranges against index arithmetic over a Python list."""
import bisect

from coll import Program, Raised
from vlib import Result, compare_output

PROPERTY = "C27"
LEVEL = "exploration"
CASES = {"quick": 9000, "thorough": 24000}
CHUNK = 25
RULE = ("case = one collection or range of 0 to 9 elements and 3 to 14 iterations over it: foreach loops, nested foreach loops, loops that are "
        "left early, changes and refilling of the collection in between, and interleaved operation histories of up to three forward and reverse iterators; non-trivial if the collection has at "
        "least two elements and at least two iterators or loops are active at the same time; distinct counts program texts")

ADD = {"List": "push_back", "Vector": "push_back", "DoubleLinkedList": "push_back", "Stack": "push", "Queue": "enqueue", "Set": "insert"}


def build(t, p, kind):
    """Declares the variable c; returns its elements."""
    if kind == "Range":
        step = t.choice([1, 1, 1, 2, 3, -1, -2, -3, 7])
        a, b = t.int(-6, 6), t.int(-6, 6)
        l = list(range(a, b + 1, step)) if step > 0 else list(range(a, b - 1, step))
        if step == 1 and t.bool(1, 2):
            p.stmt("Range c = %s;" % t.choice(["new Range(%d, %d)", "Range.Create(%d, %d)"]) % (a, b))
        elif t.bool(1, 4):
            p.stmt("Range r = new Range(%d, %d);" % (a, b))
            p.stmt("Range c = r.step(%d);" % step)
        else:
            p.stmt("Range c = new Range(%d, %d, %d);" % (a, b, step))
        return l
    tn = "%s<%s>" % (kind, p.elem)
    multi = kind == "Set" and t.bool(1, 2)
    if kind in ("List", "Vector", "DoubleLinkedList") and t.bool(1, 4):
        # a class that inherits everything
        p.funcs.append("public object Mine extends %s {\n\tpublic void Constructor() { base.Constructor(); }\n}" % tn)
        tn = "Mine"
    p.stmt("%s c = new %s(%s);" % (tn, tn, "true" if multi else ""))
    l = []
    p.multi = multi
    for _ in range(t.weighted([(3, 1), (1, 2)])):
        change(t, p, kind, l, t.int(0, 9))
    return l


def change(t, p, kind, l, n):
    """Adds up to n elements and removes some; earlier contents leave traces in the links iterators follow."""
    if l and t.bool(1, 2):
        p.stmt("c.clear();")
        l.clear()
        p.note("refilled")
    for _ in range(n):
        v = t.int(0, 30)
        if kind == "Set":
            if v in l and not p.multi:
                continue
            bisect.insort(l, v)
        elif kind in ("List", "Vector", "DoubleLinkedList") and t.bool(1, 3):
            l.insert(0, v)
            p.stmt("c.push_front(%s);" % p.src(v))
            continue
        else:
            l.append(v)
        p.stmt("c.%s(%s);" % (ADD[kind], p.src(v)))
    for _ in range(t.weighted([(3, 0), (2, 1), (1, 2)])):
        if not l:
            break
        if kind == "Queue":
            p.stmt("c.dequeue();")
            l.pop(0)
        elif kind == "Stack" and t.bool(1, 2):
            p.stmt("c.pop();")
            l.pop()
        elif kind in ("Stack", "Set") or t.bool(1, 2):
            i = t.below(len(l))
            p.stmt("c.erase(%d);" % i)
            del l[i]
        elif t.bool():
            p.stmt("c.pop_back();")
            l.pop()
        else:
            p.stmt("c.pop_front();")
            l.pop(0)


def iterators(t, p, kind, l, tag):
    """An interleaved history of several iterators over c."""
    its = []
    for k in range(t.weighted([(2, 1), (3, 2), (1, 3)])):
        rev = t.bool()
        name = "%s%d" % (tag, k)
        p.stmt("var %s = c.%s();" % (name, "getReverseIterator" if rev else "getIterator"))
        its.append([name, list(reversed(l)) if rev else l, -1])
    n = len(l)
    if len(its) > 1 and n > 1:
        p.note("interleaved")
    back = kind != "Range"
    for _ in range(t.many(4, 24, 9)):
        it = t.choice(its)
        name, seq, pos = it
        op = t.weighted([(7, "next"), (3, "hasNext"), (2, "current"), (2, "peek"), (2, "peekn"), (3 if back else 0, "previous"), (2 if back else 0, "hasPrevious"),
                         (1, "reset"), (1, "rest")])
        if op in ("next", "previous"):
            d = 1 if op == "next" else -1

            def f(out):
                if not 0 <= pos + d < n:
                    raise Raised()
                it[2] = pos + d
                out.append("@ " + p.txt(seq[it[2]]))
            if p.attempt(['print("@ " + %s);' % p.text("%s.%s()" % (name, op))], f):
                p.note(op)
        elif op == "hasNext":
            p.stmt('print("h " + %s.hasNext());' % name, ["h %d" % (pos + 1 < n)])
        elif op == "hasPrevious":
            p.stmt('print("p " + %s.hasPrevious());' % name, ["p %d" % (pos > 0)])
        elif op == "current":
            def f(out):
                if pos < 0:
                    raise Raised()
                out.append("@ " + p.txt(seq[pos]))
            p.attempt(['print("@ " + %s);' % p.text("%s.current()" % name)], f)
        elif op in ("peek", "peekn"):
            k = 1 if op == "peek" else t.int(-2, 3)

            def f(out):
                if not 0 <= pos + k < n or (pos < 0 and k <= 0):
                    raise Raised()
                out.append("@ " + p.txt(seq[pos + k]))
            p.attempt(['print("@ " + %s);' % p.text("%s.peek(%s)" % (name, "" if op == "peek" else k))], f)
        elif op == "reset":
            p.stmt("%s.reset();" % name)
            it[2] = -1
        else:
            p.stmt('while ( %s.hasNext() ) { print("r " + %s); }' % (name, p.text("%s.next()" % name)), ["r " + p.txt(v) for v in seq[pos + 1:]])
            if pos + 1 < n:
                it[2] = n - 1
                p.note("next")


def gen(t):
    kind = t.choice(["List", "Vector", "DoubleLinkedList", "Stack", "Queue", "Set", "Range", "Range"])
    elem = "int" if kind == "Range" else t.weighted([(3, "int"), (2, "string"), (1, "Item")])
    p = Program(["System.Collections.%s" % kind], elem)
    l = build(t, p, kind)
    size = len(l)
    for k in range(t.many(3, 14, 5)):
        what = t.weighted([(2, "foreach"), (2, "nested"), (2, "leave"), (4, "iterators"), (1, "size"), (1 if kind == "Range" else 0, "dots"),
                           (1 if kind == "Range" else 0, "at"), (1, "inside"), (0 if kind == "Range" else 1, "change")])
        if what == "foreach":
            p.stmt('foreach ( %s e : c ) { print("f " + %s); }' % (elem, p.text("e")), ["f " + p.txt(v) for v in l])
        elif what == "nested":
            p.stmt('foreach ( %s e : c ) { foreach ( %s g : c ) { print("n " + %s + "-" + %s); } }' % (elem, elem, p.text("e"), p.text("g")),
                   ["n %s-%s" % (p.txt(v), p.txt(w)) for v in l for w in l])
            if size > 1:
                p.note("nested loops")
        elif what == "leave":
            i = t.int(1, 6)
            p.stmt('int k%d; foreach ( %s e : c ) { k%d++; if ( k%d == %d ) { %s; } print("l " + %s); }' % (
                k, elem, k, k, i, "break" if t.bool() else "continue", p.text("e")))
            brk = "break" in p.body[-1]
            p.out += ["l " + p.txt(v) for j, v in enumerate(l) if (j + 1 < i if brk else j + 1 != i)]
        elif what == "inside":
            # an iterator advanced by hand inside a loop over the same collection
            p.stmt(
                'var j%d = c.getIterator(); foreach ( %s e : c ) { if ( j%d.hasNext() ) { print("j " + %s + "-" + %s); } }' % (
                k, elem, k, p.text("e"), p.text("j%d.next()" % k)), ["j %s-%s" % (p.txt(v), p.txt(v)) for v in l])
            if size > 1:
                p.note("nested loops")
        elif what == "change":
            change(t, p, kind, l, t.int(0, 4))
            size = len(l)
        elif what == "iterators":
            iterators(t, p, kind, l, "i%d_" % k)
        elif what == "size":
            p.stmt('print("s " + c.size());', ["s %d" % size])
        elif what == "dots":
            a, b = t.int(0, 9), t.int(0, 9)
            p.stmt('foreach ( int e : %d..%d ) { print("d " + e); }' % (a, b), ["d %d" % v for v in range(a, b + 1)])
        else:
            i = t.int(-2, size + 1)

            def f(out):
                if not 0 <= i < size:
                    raise Raised()
                out.append("@ %d" % l[i])
            p.attempt(['print("@ " + c.at(%d));' % i], f)
    p.stmt('print("s " + c.size());', ["s %d" % size])
    p.stmt('foreach ( %s e : c ) { print("f " + %s); }' % (elem, p.text("e")), ["f " + p.txt(v) for v in l])
    case = p.case()
    case["kind"] = kind
    case["size"] = size
    return case


def run(case, env):
    got = env.slang(case["src"])
    ev = case["ev"]
    nt = case["size"] > 1 and ev.get("interleaved", 0) + ev.get("nested loops", 0) > 0
    return Result(compare_output("\n".join(case["out"]) + "\n", 0, got), nt, case["src"], labels={"%s: %s" % (case["kind"], k): n for k, n in ev.items()})


def render(case):
    return case["src"]
