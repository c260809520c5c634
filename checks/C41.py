"""Standard streams: generated inputs read and outputs written by arbitrary mixtures of the input and output functions."""
from vlib import Result

PROPERTY = "C41"
LEVEL = "exploration"
CASES = {"quick": 18000, "thorough": 100000}
RULE = ("case = standard input of 0 to 9 lines (empty and blank lines, leading and trailing blanks, long lines, last line terminated or not, bytes above 127) and a program of 6 to 40 calls of the "
        "input functions (lines, characters, blocks, pushed back characters, end of input) and output functions (all functions for both output streams, with and without line breaks), ended by a return, an exit, an error or an uncaught exception, in functions, "
        "loops and handlers; both output streams and all results are compared with a model; non-trivial if at least two different input functions consume something; distinct counts programs and inputs")

WORDS = ["", "x", "word", "two words", "  lead", "trail  ", "\tt", "0", "-1", "true", "null", "\"q\"", "a" * 70, "b" * 1100, "\xe4\xff", "{x}", "\\n", " ", "  \t "]
TEXTS = ["", "x", "word", "two words ", " ", "%d%s", "line\nbreak", "c" * 90, "\xc3\xa4", "//", "tab\there", "0"]
SPACE = " \t\n\v\f\r"


class Model:
    def __init__(self, t):
        self.t = t
        self.data = "".join(t.choice(WORDS) + "\n" for _ in range(t.int(0, 9)))
        if t.bool(1, 2):
            self.data += t.choice(WORDS)
        self.pos = 0
        self.eof = False
        self.out, self.err, self.lines = [], [], []
        self.mode = None
        self.used = set()

    def take(self, n, name):
        """The next n bytes; marks the end of input if there are fewer."""
        s = self.data[self.pos:self.pos + n]
        self.pos += len(s)
        if len(s) < n:
            self.eof = True
        if s:
            self.used.add(name)
        return s

    def line(self):
        while self.pos < len(self.data) and self.data[self.pos] in SPACE:
            self.pos += 1
        if self.pos == len(self.data):
            self.eof = True
            return ""
        self.used.add("cin")
        e = self.data.find("\n", self.pos)
        if e < 0:
            self.eof = True
            e = len(self.data)
        s = self.data[self.pos:e]
        self.pos = min(e + 1, len(self.data))
        return s

    def show(self, expr, value, text):
        self.lines.append('print("[" + %s + "]");' % expr if text else "print(%s);" % expr)
        self.out.append("[%s]\n" % value if text else "%s\n" % value)

    def step(self):
        t = self.t
        k = t.weighted([(4, "cin"), (4, "getchar"), (2, "fgetc"), (3, "fgets"), (2, "freads"), (1, "ungetc"), (2, "feof"), (2, "print"), (3, "write"), (3, "writeln"), (3, "cout"), (3, "cerr"), (4, "endl"),
                        (2, "putchar"), (2, "fputs"), (1, "fputc"), (1, "fwrites"), (1, "loop")])
        if k == "cin":
            self.show("cin()", self.line(), True)
        elif k in ("getchar", "fgetc"):
            s = self.take(1, k)
            self.show("getchar()" if k == "getchar" else "fgetc(STDIN)", ord(s) if s else -1, False)
        elif k == "fgets":
            n = t.choice([1, 2, 3, 5, 9, 80, 1023, 1024, 1025, 2000])
            e = self.data.find("\n", self.pos, self.pos + n - 1)
            self.show("fgets(STDIN, %d)" % n, self.take((e + 1 - self.pos) if e >= 0 else n - 1, k), True)
        elif k == "freads":
            n = t.choice([1, 1, 2, 4, 7, 40])
            self.show("freads(STDIN, %d)" % n, self.take(n, k), True)
        elif k == "ungetc":
            s = self.take(1, k)
            if s:
                c = t.choice([ord(s), 65, 32, 10])
                self.lines.append("print(fgetc(STDIN)); print(ungetc(%d, STDIN));" % c)
                self.out.append("%d\n%d\n" % (ord(s), c))
                self.pos -= 1
                self.data = self.data[:self.pos] + chr(c) + self.data[self.pos + 1:]
                self.eof = False
            else:
                self.show("fgetc(STDIN)", -1, False)
        elif k == "feof":
            self.show("feof(STDIN) != 0", int(self.eof), False)
        elif k == "loop":
            n, s = t.int(0, 4), t.choice(TEXTS)
            self.lines.append('for ( int i = 0; i < %d; i++ ) { write("%s"); }' % (n, s))
            self.out.append(s * n)
        else:
            s = t.choice(TEXTS)
            c = t.choice([65, 10, 32, 255, 48])
            o = t.choice(["OUT", "ERR"])
            target = self.out
            if k == "print":
                self.lines.append('print("%s");' % s)
                s += "\n"
            elif k == "write":
                self.lines.append('write("%s");' % s)
            elif k == "writeln":
                if t.bool(1, 4):
                    s = ""
                    self.lines.append("writeln();")
                else:
                    self.lines.append('writeln("%s");' % s)
                s += "\n"
            elif k in ("cout", "cerr"):
                self.lines.append('%s("%s");' % (k, s))
                self.mode = k
                target = self.out if k == "cout" else self.err
            elif k == "endl":
                if not self.mode:
                    return
                self.lines.append("endl();")
                target, s = (self.out if self.mode == "cout" else self.err), "\n"
            elif k == "putchar":
                self.lines.append("putchar(%d);" % c)
                s = chr(c)
            elif k == "fputc":
                self.lines.append("fputc(%d, STD%s);" % (c, o))
                target, s = (self.out if o == "OUT" else self.err), chr(c)
            else:
                self.lines.append('%s;' % ('fputs("%s", STD%s)' % (s, o) if k == "fputs" else 'fwrites(STD%s, "%s")' % (o, s)))
                target = self.out if o == "OUT" else self.err
            target.append(s)


def gen(t):
    m = Model(t)
    data = m.data
    for _ in range(t.int(6, 40)):
        m.step()
    body, helpers = [], []
    i = 0
    while i < len(m.lines):
        n = t.int(1, 6)
        part = m.lines[i:i + n]
        k = t.below(5)
        if k == 0:
            f = "part%d" % len(helpers)
            helpers.append("private void %s() modify throws {\n\t%s\n}\n" % (f, "\n\t".join(part)))
            body.append("%s();" % f)
        elif k == 1:
            body.append("try {\n\t\t%s\n\t\tthrow 1;\n\t}\n\tcatch ( int e ) { }" % "\n\t\t".join(part))
        else:
            body += part
        i += n
    rc = t.choice([0, 0, 1, 7, 200])
    end = t.weighted([(3, "return"), (1, "exit"), (1, "error"), (1, "throw")])
    text = {"return": "return %d;" % rc, "exit": "if ( argc >= 0 ) { exit(%d); }\n\treturn 0;" % rc, "error": "int zero = 0;\n\treturn 1 / zero;", "throw": "throw \"end\";"}[end]
    if end in ("error", "throw"):
        rc = 255  # the report about the failure follows on both streams
    src = "\n".join(helpers) + "\npublic int Main(int argc, string args) modify throws {\n\t%s\n\t%s\n}\n" % ("\n\t".join(body), text)
    return {"rc": rc, "source": src, "input": data, "out": "".join(m.out), "err": "".join(m.err), "used": len(m.used)}


def render(case):
    return case["source"] + "\n// input\n" + repr(case["input"]) + "\n// expected\n" + case["out"] + "\n// expected on the error stream\n" + case["err"] + "\n"


def run(case, env):
    got = env.slang(case["source"].encode("latin-1"), stdin=case["input"].encode("latin-1"))
    failure = None
    for what, want, have in (("output", case["out"], got.out), ("error stream", case["err"], got.err)):
        want = want.encode("latin-1")
        if case["rc"] == 255:
            have = have[:len(want)]
        if not failure and (got.rc != case["rc"] or have != want):
            i = next((i for i in range(min(len(want), len(have))) if want[i] != have[i]), min(len(want), len(have)))
            failure = {"what": "exit status %d or %s differs" % (got.rc, what), "at": i, "expected": repr(want[max(0, i - 20):i + 40]), "got": repr(have[max(0, i - 20):i + 40]), "stderr": got.err.decode("utf-8", "replace")[:500]}
    return Result(failure, case["used"] >= 2, case["source"] + case["input"])
