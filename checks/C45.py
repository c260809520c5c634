"""libLog: every message of every logger reaches its destination once, in order, with level and key."""
import os

from prog import strip_trace
from vlib import Result, compare_output

PROPERTY = "C45"
LEVEL = "exploration"
CASES = {"quick": 9000, "thorough": 60000}
RULE = ("case = program with root loggers for the standard output and for files (starting and appending), loggers derived from them over several "
        "levels, messages of all levels, changes of the separator and reopened files; non-trivial if at least 6 messages are written, one of them "
        "by a derived logger and one to a file that is not empty when it is opened or is opened again; distinct counts program texts")

LEVELS = {"debug": "DEBUG", "error": "ERROR", "fatal": "FATAL", "info": "INFO ", "warning": "WARN "}
FILES = ["a.log", "b.log", "c.log"]
KEY = "abcXYZ019._-"


class Log:
    def __init__(self, dest, key, length):
        self.dest, self.length = dest, length
        if length:
            key = key[-length:].ljust(length)
        self.key = key


class Gen:
    def __init__(self, t):
        self.t = t
        self.sep = "::"
        self.lines = []
        self.out = []
        self.files = {}
        self.before = {}
        self.busy = set()
        self.n = 0
        self.stats = {"messages": 0, "derived messages": 0, "file messages": 0, "fatal": 0, "kept": 0, "opened again": 0, "shortened keys": 0}
        self.kept = None
        for f in FILES:
            if t.bool(1, 2):
                self.before[f] = self.files[f] = "".join(t.choice("old text 12;") for _ in range(t.int(0, 12)))

    def word(self, lo, hi):
        return "".join(self.t.choice(KEY) for _ in range(self.t.int(lo, hi)))

    def emit(self, depth, s):
        self.lines.append("\t" * depth + s)

    def name(self, p="l"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def write(self, log, text):
        if log.dest is None:
            self.out.append(text)
        else:
            self.files[log.dest] += text
            self.stats["file messages"] += 1
        self.stats["messages"] += 1

    def root(self, depth, logs):
        t = self.t
        free = [f for f in FILES if f not in self.busy]
        kind = t.weighted([(2, "StdOutLogger"), (3 if free else 0, "FileLogger"), (4 if free else 0, "AppendingFileLogger")])
        key = self.word(0, 9)
        length = t.choice([0, 0, 1, 4, 6, 8, 12, 20])
        args = ['"%s"' % key] + ([str(length)] if length or t.bool(1, 3) else [])
        dest = None
        if kind != "StdOutLogger":
            dest = t.choice(free)
            args.insert(0, '"%s"' % dest)
            self.busy.add(dest)
            if self.files.get(dest):
                self.stats["opened again"] += 1
            if kind == "FileLogger" or dest not in self.files:
                self.files[dest] = ""
        n = self.name()
        log = Log(dest, key, length)
        if length and len(key) > length:
            self.stats["shortened keys"] += 1
        typed = t.bool(1, 3)
        self.emit(depth, "%s %s = %snew %s(%s);" % ("ILogger" if typed else t.choice(["var", kind]), n, "ILogger " if typed else "", kind, ", ".join(args)))
        logs.append((n, log, typed, 0))
        return dest

    def child(self, depth, logs):
        t = self.t
        pn, parent, ptyped, level = t.choice(logs)
        kind = t.choice(["Logger", "StdOutLogger", "FileLogger"])
        key = self.word(0, 7)
        full = parent.key.rstrip(" ") + self.sep + key
        log = Log(parent.dest, full, parent.length)
        if parent.length and len(full) > parent.length:
            self.stats["shortened keys"] += 1
        n = self.name()
        typed = t.bool(1, 3)
        self.emit(depth, "%s %s = %snew %s(%s%s, \"%s\");" % ("ILogger" if typed else t.choice(["var", kind]), n, "ILogger " if typed else "",
                                                              kind, "" if ptyped else "ILogger ", pn, key))
        logs.append((n, log, typed, level + 1))

    def message(self, depth, logs, uncaught=False):
        t = self.t
        n, log, typed, level = t.choice(logs)
        lv = "fatal" if uncaught else t.weighted([(2, "debug"), (2, "error"), (1, "fatal"), (3, "info"), (2, "warning")])
        text = "".join(t.choice("message text[]%:0 7") for _ in range(t.int(0, 14)))
        self.write(log, "[%s] [%s]   %s" % (LEVELS[lv], log.key, text))
        if level:
            self.stats["derived messages"] += 1
        how = t.below(4)
        call = "%s.%s(\"%s\");" % (n, lv, text)
        if how == 0:
            call = "log(%s%s, \"%s\", \"%s\");" % ("" if typed else "ILogger ", n, lv, text)
        if lv == "fatal":
            self.stats["fatal"] += 1
        if lv == "fatal" and not uncaught:
            e = self.name("e")
            self.emit(depth, 'try { %s print("not reached"); } catch ( FatalError %s ) { print("fatal " + %s.what()); }' % (call, e, e))
            self.out.append("fatal fatal error: " + text)
        else:
            self.emit(depth, call)

    def block(self, depth, logs, budget):
        t = self.t
        logs = list(logs)
        opened = []
        for _ in range(t.many(2, 9, 5)):
            if self.n > budget:
                break
            k = t.weighted([(2 if len(logs) < 6 else 0, "root"), (3 if logs and len(logs) < 9 else 0, "child"), (8 if logs else 0, "message"), (1, "sep"),
                            (2 if logs else 0, "key"), (1, "missing"), (3 if depth < 4 else 0, "block"),
                            (1 if logs and depth < 4 else 0, "function"), (1 if logs else 0, "keep")])
            if k == "root":
                d = self.root(depth, logs)
                if d:
                    opened.append(d)
            elif k == "child":
                self.child(depth, logs)
            elif k == "message":
                self.message(depth, logs)
            elif k == "sep":
                self.sep = t.choice(["::", "/", "", ".", " "])
                self.emit(depth, 'LibLog.KeySeparator = "%s";' % self.sep)
            elif k == "key":
                n, log, _, _ = t.choice(logs)
                self.emit(depth, 'print("<" + %s.getKey() + "> " + %s.getKeyLength());' % (n, n))
                self.out.append("<%s> %d" % (log.key, log.length))
            elif k == "missing":
                e = self.name("e")
                self.emit(depth, 'try { var %s = new Logger(Nothing, "k"); print("not reached"); } catch ( Exception %s ) { print("no parent"); }'
                          % (self.name(), e))
                self.out.append("no parent")
            elif k == "keep":
                # a logger that lives on in a variable outside of the block
                n, log, typed, level = t.choice(logs)
                if log.dest is None or log.dest not in opened:
                    if self.kept is None or self.kept.dest is None:
                        self.emit(depth, "Kept = %s%s;" % ("" if typed else "ILogger ", n))
                        self.kept = log
                elif self.kept is None or self.kept.dest is None:
                    self.emit(depth, "Kept = %s%s;" % ("" if typed else "ILogger ", n))
                    self.kept = log
                    self.stats["kept"] += 1
            else:
                head = "{" if k == "block" else "if ( argc > 0 ) {"
                self.emit(depth, head)
                self.block(depth + 1, logs, budget)
                self.emit(depth, "}")
        # the files of loggers declared here are closed, except for the one still reachable through Kept
        for d in opened:
            if self.kept is None or self.kept.dest != d:
                self.busy.discard(d)
        return logs

    def program(self):
        t = self.t
        logs = self.block(1, [], 40)
        for _ in range(t.int(0, 4)):
            if logs:
                self.message(1, logs)
        rc = 0
        if self.kept is not None:
            text = self.word(0, 8)
            self.emit(1, 'Kept.info("%s");' % text)
            self.write(self.kept, "[INFO ] [%s]   %s" % (self.kept.key, text))
        if logs and t.bool(1, 6):
            self.message(1, logs, True)
            rc = 255
        return rc


HEAD = '''import libLog.LibLog;
import System.Exception;
public ILogger Nothing;
public ILogger Kept;
public void log(ILogger l, string level, string text) throws {
	switch ( level ) {
		case "debug": { l.debug(text); return; }
		case "error": { l.error(text); return; }
		case "fatal": { l.fatal(text); return; }
		case "info": { l.info(text); return; }
		case "warning": { l.warning(text); return; }
	}
}
public int Main(int argc, string args) modify throws {
'''


def gen(t):
    g = Gen(t)
    rc = g.program()
    return {"src": HEAD + "\n".join(g.lines) + "\n\treturn 0;\n}\n", "out": g.out, "rc": rc, "files": g.files, "before": g.before, "stats": g.stats}


def run(case, env):
    d = env.dir()
    for f in FILES:
        if os.path.exists(os.path.join(d, f)):
            os.remove(os.path.join(d, f))
    for f, s in case["before"].items():
        with open(os.path.join(d, f), "w") as h:
            h.write(s)
    got = env.slang(case["src"])
    s = case["stats"]
    nt = s["messages"] >= 6 and s["derived messages"] and s["file messages"] and s["opened again"]
    res = lambda f: Result(f, bool(nt), case["src"], labels=s)
    got.out = "\n".join(strip_trace(got.out.decode("latin-1"))).encode("latin-1")
    f = compare_output("\n".join(case["out"]), case["rc"], got)
    if f:
        return res(f)
    for name in FILES:
        p = os.path.join(d, name)
        want = case["files"].get(name)
        if want is None:
            if os.path.exists(p):
                return res("%s exists although no logger was opened for it" % name)
            continue
        have = open(p, errors="replace").read() if os.path.exists(p) else None
        # whether entries of a file are separated by line ends is left open
        if have is None or have.replace("\n", "") != want:
            return res("%s: expected %r, found %r" % (name, want, have))
    return res(None)


def render(case):
    return case["src"] + "\n// files before: %r\n// expected files: %r" % (case["before"], case["files"])
