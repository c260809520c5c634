"""Histories of operations on library collections, with Python lists as the model."""


class Raised(Exception):
    pass


ITEM = '''public object Item {
	public void Constructor(int v) { mValue = v; }
	public int Value() const { return mValue; }
	public bool operator==(Item other) const { return mValue == other.Value(); }
	public bool operator<(Item other) const { return mValue < other.Value(); }
	public string =operator(string) const { return "i" + mValue; }
	private int mValue;
}
'''

#: element types: name -> (source of a value, text of a value)
ELEMENTS = {
    "int": (lambda v: str(v), lambda v: str(v)),
    "string": (lambda v: '"s%02d"' % v, lambda v: "s%02d" % v),
    "Item": (lambda v: "new Item(%d)" % v, lambda v: "i%d" % v),
}


class Program:
    """Builds the source and the expected output side by side."""

    def __init__(self, imports, elem):
        self.elem = elem
        self.src, self.txt = ELEMENTS[elem]
        self.imports = imports
        self.funcs = []
        self.body = []
        self.out = []
        self.n = 0
        self.ev = {}

    def note(self, k):
        self.ev[k] = self.ev.get(k, 0) + 1

    def text(self, expr):
        """Source that turns an element expression into a string."""
        return expr if self.elem == "string" else "cast<string>(%s)" % expr

    def attempt(self, lines, result):
        """lines: statements, the placeholder @ is replaced by the number of the step. result: function giving the list of expected
        lines, or raising Raised if the statement has to raise an exception."""
        self.n += 1
        k = str(self.n)
        self.body.append("\ttry { %s print(\"%s ok\"); } catch { print(\"%s ex\"); }" % (" ".join(lines).replace("@", k), k, k))
        done = []
        try:
            result(done)
        except Raised:
            self.note("exceptions")
            self.out += [x.replace("@", k) for x in done] + ["%s ex" % k]
            return False
        self.out += [x.replace("@", k) for x in done] + ["%s ok" % k]
        return True

    def stmt(self, s, expected=()):
        self.body.append("\t" + s)
        self.out += list(expected)

    def source(self):
        r = ["import %s;" % i for i in self.imports] + [""]
        if self.elem == "Item":
            r.append(ITEM)
        r += self.funcs
        r.append("public int Main(int argc, string args) modify throws {")
        r += self.body
        r += ["\treturn 0;", "}", ""]
        return "\n".join(r)

    def case(self):
        return {"src": self.source(), "out": self.out, "ev": self.ev, "steps": self.n}
