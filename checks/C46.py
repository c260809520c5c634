"""Behaviour trees: generated trees over scripted leaves, ticked several times, against a model of the nodes."""
from vlib import Result

PROPERTY = "C46"
LEVEL = "exploration"
CASES = {"quick": 9000, "thorough": 60000}
RULE = ("case = tree of sequences, fallbacks, their reactive forms, resetting sequences and decorators up to 4 levels deep, with leaves whose results are "
        "scripted, ticked up to 8 times; non-trivial if at least two nodes with children are nested, some node is resumed after running and "
        "some leaf is skipped; distinct counts programs")

DECORATORS = ["InverterDecorator", "ForceFailureDecorator", "ForceSuccessDecorator"]
STATUS = {"s": 0, "r": 1, "w": 2, "f": 3}

HEAD = '''import libBehaviourTree.All;
public NodeStatus outcome(string c) {
	switch ( c ) {
		case "s": { return NodeStatus.Success; }
		case "r": { return NodeStatus.Running; }
		case "w": { return NodeStatus.Waiting; }
	}
	return NodeStatus.Failure;
}
public object Act extends Action {
	public void Constructor(string name, string script) { base.Constructor(name); mScript = script; }
	public override NodeStatus tick() modify {
		string c = substr(mScript, mPos % strlen(mScript), 1);
		mPos++;
		print("tick " + Name + " " + c);
		return outcome(c);
	}
	private int mPos;
	private string mScript;
}
public object Cond extends Condition {
	public void Constructor(string name, string script) { base.Constructor(name); mScript = script; }
	public override NodeStatus tick() modify {
		string c = substr(mScript, mPos % strlen(mScript), 1);
		mPos++;
		print("tick " + Name + " " + c);
		return outcome(c);
	}
	private int mPos;
	private string mScript;
}
'''


class Node:
    def __init__(self, kind, name, childs, script=""):
        self.kind, self.name, self.childs, self.script = kind, name, childs, script
        self.pos = self.index = 0

    def tick(self, w):
        k = self.kind
        if k in ("Act", "Cond"):
            c = self.script[self.pos % len(self.script)]
            self.pos += 1
            w["out"].append("tick %s %s" % (self.name, c))
            w["ticked"].add(self.name)
            return c
        if k in DECORATORS:
            c = self.childs[0].tick(w)
            if c in "rw":
                return c
            if k == "InverterDecorator":
                return "s" if c == "f" else "f"
            return "f" if k == "ForceFailureDecorator" else "s"
        go, stop = ("f", "s") if "Fallback" in k else ("s", "f")
        i = 0 if k.startswith("Reactive") else self.index
        if i:
            w["resumed"] += 1
        while i < len(self.childs):
            c = self.childs[i].tick(w)
            if c == go:
                i += 1
                continue
            if c in "rw":
                if k == "SequenceStar":
                    self.index = 0
                    return "f"
                self.index = i
                return c
            self.index = 0
            return stop
        self.index = 0
        return go


def tree(t, st, depth, root=False):
    st["n"] += 1
    name = "n%d" % st["n"]
    if depth == 0 or st["n"] > 18 or (not root and t.bool(1, 3)):
        script = "".join(t.weighted([(4, "s"), (2, "r"), (1, "w"), (3, "f")]) for _ in range(t.int(1, 8)))
        return Node(t.choice(["Act", "Cond"]), name, [], script)
    if t.bool(1, 5):
        return Node(t.choice(DECORATORS), name, [tree(t, st, depth - 1)])
    return Node(t.weighted([(3, "Sequence"), (3, "Fallback"), (2, "ReactiveSequence"), (2, "ReactiveFallback"), (1, "SequenceStar")]), name, [tree(t, st, depth - 1) for _ in range(t.weighted([(1, 0), (1, 1), (4, 2), (5, 3), (2, 4)]))])


def build(n, lines, t, under):
    """Declares n and its subtree; parents before or after their children. under: variable to add it to"""
    top = t.bool()
    make = "%s %s = new %s(\"%s\"%s);" % (t.choice(["var", n.kind]), n.name, n.kind, n.name, ', "%s"' % n.script if n.script else "")
    add = "%s.pushChild(Node %s);" % (under, n.name) if under else None
    lines.append(make)
    if add and top:
        lines.append(add)
    for c in n.childs:
        build(c, lines, t, n.name)
    if add and not top:
        lines.append(add)


def leaves(n):
    return [n.name] if n.kind in ("Act", "Cond") else [x for c in n.childs for x in leaves(c)]


def shown(n):
    if n.kind in ("Act", "Cond"):
        return [n.name]
    r = ["%s has %d child(s)" % (n.name, 1) if n.kind in DECORATORS else "%s has %d childs" % (n.name, len(n.childs))]
    for c in n.childs:
        r += shown(c)
    return r


def gen(t):
    st = {"n": 0}
    root = tree(t, st, t.int(2, 4), True)
    lines = []
    build(root, lines, t, None)
    if t.bool(1, 3):
        lines.append("Node top = Node %s;" % root.name)
        name = "top"
    else:
        name = root.name
    ticks = t.int(2, 9)
    w = {"out": [], "ticked": set(), "resumed": 0}
    skipped = False
    lines += ["for ( int i = 0; i < %d; i++ ) {" % ticks, "\tvar s = %s.tick();" % name, '\tprint("result " + cast<string>(s));', "}",
              'print("shown");', "%s.print();" % name]
    for _ in range(ticks):
        w["ticked"] = set()
        c = root.tick(w)
        w["out"].append("result %d" % STATUS[c])
        skipped = skipped or len(w["ticked"]) < len(leaves(root))
    inner = lambda n: [n] * bool(n.childs) + [x for c in n.childs for x in inner(c)]
    return {"src": HEAD + "public int Main(int argc, string args) modify throws {\n\t" + "\n\t".join(lines) + "\n\treturn 0;\n}\n",
            "out": w["out"], "shown": shown(root), "resumed": w["resumed"], "nested": len(inner(root)) >= 2, "skipped": skipped}


def run(case, env):
    got = env.slang(case["src"])
    nt = case["resumed"] and case["nested"] and case["skipped"]
    res = lambda f: Result(f, bool(nt), case["src"], labels={"ticks of leaves": len(case["out"]), "resumed": case["resumed"]})
    if got.timeout:
        return res("the program does not end: %s" % got.describe())
    lines = got.out.decode("latin-1").split("\n")
    if got.rc != 0 or "shown" not in lines:
        return res("the program did not finish: %s" % got.describe())
    i = lines.index("shown")
    # the nodes themselves also report what they do, which is left open
    have = [x for x in lines[:i] if x.startswith(("tick ", "result "))]
    if have != case["out"]:
        k = next((k for k in range(min(len(have), len(case["out"]))) if have[k] != case["out"][k]), min(len(have), len(case["out"])))
        return res("event %d: expected %r, found %r" % (k, case["out"][k:k + 3], have[k:k + 3]))
    if lines[i + 1:-1] != case["shown"]:
        return res("shown tree: expected %r, found %r" % (case["shown"], lines[i + 1:-1]))
    return res(None)


def render(case):
    return case["src"]
