"""Processes: generated trees of forked processes that change variables, write output and end with a status."""
from vlib import Result, compare_output

PROPERTY = "C43"
LEVEL = "exploration"
CASES = {"quick": 12000, "thorough": 100000}
RULE = ("case = a program of up to 40 statements that forks up to 8 processes in up to 3 generations, from Main and from functions; processes change global variables, local variables and objects, "
        "write with all output functions (also incomplete lines directly before a fork), run shell commands and end by return or exit with any status; parents wait for one or for several children in any order; "
        "non-trivial if at least one child is started after output was written or a variable was changed; distinct counts programs")

WORDS = ["a", "word", "two words", "", "x=1", "%s", "0"]


class G:
    def __init__(self, t):
        self.t = t
        self.count = 0
        self.forks = 0
        self.out = []
        self.helpers = []
        self.dirty = False
        self.rich = False

    def name(self, p):
        self.count += 1
        return "%s%d" % (p, self.count)

    def block(self, env, depth, size, main):
        """Statements run by one process; env is changed."""
        t = self.t
        lines = []
        for _ in range(size):
            k = t.weighted([(4, "write"), (4, "change"), (3, "show"), (3, "fork"), (1, "several"), (1, "system")])
            if k in ("fork", "several") and (self.forks >= 8 or depth >= 3):
                k = "show"
            getattr(self, k)(env, depth, lines, main)
        return lines

    def write(self, env, depth, lines, main):
        t = self.t
        w = t.choice(WORDS)
        f = t.choice(["print", "write", "writeln", "cout", "fputs", "fwrites"])
        lines.append({"print": "print(\"%s\");", "write": "write(\"%s\");", "writeln": "writeln(\"%s\");", "cout": "cout(\"%s\");", "fputs": "fputs(\"%s\", STDOUT);", "fwrites": "fwrites(STDOUT, \"%s\");"}[f] % w)
        self.out.append(w + ("\n" if f in ("print", "writeln") else ""))
        self.dirty = True

    def change(self, env, depth, lines, main):
        t = self.t
        n = t.int(0, 99)
        k = t.below(4)
        if k == 0:
            lines.append("g = g * 3 + %d;" % n)
            env["g"] = wrap(env["g"] * 3 + n)
        elif k == 1:
            lines.append("s = s + \"%d,\";" % n)
            env["s"] += "%d," % n
        elif k == 2:
            lines.append("box.add(%d);" % n)
            env["box"] = wrap(env["box"] + n)
        elif main:
            lines.append("local = local - %d;" % n)
            env["local"] = wrap(env["local"] - n)
        self.dirty = True

    def show(self, env, depth, lines, main):
        if main:
            lines.append("print(\"\" + g + \"|\" + s + \"|\" + box.get() + \"|\" + local);")
            self.out.append("%d|%s|%d|%d\n" % (env["g"], env["s"], env["box"], env["local"]))
        else:
            lines.append("print(\"\" + g + \"|\" + s + \"|\" + box.get());")
            self.out.append("%d|%s|%d\n" % (env["g"], env["s"], env["box"]))

    def end(self, main):
        t = self.t
        c = t.choice([0, 1, 7, 42, 200, 255, 256, 300, -1])
        if main and t.bool():
            return "return %d;" % c, c & 255
        return "exit(%d);" % c, c & 255

    def fork(self, env, depth, lines, main):
        t = self.t
        self.forks += 1
        self.rich = self.rich or self.dirty
        if main and t.bool(1, 4):
            # the whole life of the child inside a function
            f = self.name("spawn")
            child = dict(env)
            body = self.block(child, depth + 1, t.int(0, 4), False)
            stop, code = self.end(False)
            self.helpers.append("private int %s() modify throws {\n\tint p = fork();\n\tif ( p == 0 ) {\n\t\t%s\n\t}\n\treturn waitpid(p, 0);\n}\n" % (f, "\n\t\t".join(body + [stop])))
            lines.append("print(\"status \" + %s());" % f)
        else:
            p = self.name("p")
            child = dict(env)
            lines.append("int %s = fork();" % p)
            body = self.block(child, depth + 1, t.int(0, 5), main)
            stop, code = self.end(main)
            lines.append("if ( %s == 0 ) {\n\t%s\n}" % (p, "\n\t".join(body + [stop])))
            lines.append("print(\"status \" + waitpid(%s, 0));" % p if t.bool(2, 3) else "print((wait() == %s) ? \"its child\" : \"another\");" % p)
            if "waitpid" not in lines[-1]:
                self.out.append("its child\n")
                return
        self.out.append("status %d\n" % (code << 8))

    def several(self, env, depth, lines, main):
        """Silent children that run at the same time."""
        t = self.t
        ps = []
        for _ in range(t.int(2, 3)):
            self.forks += 1
            p = self.name("p")
            n = t.int(0, 60)
            lines.append("int %s = fork();" % p)
            lines.append("if ( %s == 0 ) { g = g + %d; box.add(%d); exit(g + box.get()); }" % (p, n, n))
            ps.append((p, wrap(env["g"] + n + env["box"] + n) & 255))
        self.rich = self.rich or self.dirty
        for p, code in t.shuffle(ps):
            lines.append("print(\"status \" + waitpid(%s, 0));" % p)
            self.out.append("status %d\n" % (code << 8))

    def system(self, env, depth, lines, main):
        t = self.t
        w = [t.choice(["a", "b c", "long" * 40, "", "1"]) for _ in range(t.int(0, 4))]
        lines.append("print(\"[\" + system(\"%s\") + \"]\");" % "; ".join(["echo '%s'" % x for x in w] + ([t.choice(["exit 3", "true", "printf end"])] if t.bool() or not w else [])))
        self.out.append("[%s%s]\n" % ("".join(x + "\n" for x in w), "end" if "printf end" in lines[-1] else ""))


def wrap(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


def gen(t):
    g = G(t)
    env = {"g": t.int(0, 9), "s": "", "box": 0, "local": t.int(0, 99)}
    start = dict(env)
    lines = g.block(env, 0, t.int(3, 14), True)
    g.show(env, 0, lines, True)
    code = t.choice([0, 3, 255])
    src = ("public int g = %d;\npublic string s;\npublic object Box {\n\tprivate int mValue;\n\tpublic void add(int v) modify { mValue = mValue + v; }\n\tpublic int get() const { return mValue; }\n}\n"
           "public Box box;\n\n%s\npublic int Main(int argc, string args) modify throws {\n\tint local = %d;\n\tbox = new Box();\n\t%s\n\treturn %d;\n}\n"
           % (start["g"], "\n".join(g.helpers), start["local"], "\n".join(lines).replace("\n", "\n\t"), code))
    return {"source": src, "out": "".join(g.out), "rc": code, "rich": g.rich, "forks": g.forks}


def run(case, env):
    got = env.slang(case["source"])
    failure = compare_output(case["out"], case["rc"], got)
    return Result(failure, case["rich"], case["source"], labels={"processes %d" % min(case["forks"], 5): 1})


def render(case):
    return case["source"] + "\n// expected\n" + case["out"]
