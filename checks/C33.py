"""File operations: generated histories over several files and handles against a byte-sequence model, for the stdio functions and the library's file class."""
import math
import os
import shutil
import struct

from nat import f32, text
from vlib import Result

PROPERTY = "C33"
LEVEL = "exploration"
CASES = {"quick": 12000, "thorough": 60000}
RULE = ("case = history of 6 to 40 operations (open in six modes, close, typed and text writes and reads, characters, lines, seek, tell, rewind, end-of-file, flush, remove, rename, "
        "operations on missing files and closed handles) over up to four files and five handles, half of them objects of the library's file class; all results and the final "
        "contents of the files are compared; non-trivial if something is read that the history wrote; distinct counts program texts")

WORDS = ["", "a", "abc", "hello world", "x,y", "{}", "0", "line\nnext", "\n", "tail\n", "false", "ß"]


class Handle:
    def __init__(self, f, mode):
        self.file, self.mode = f, mode
        self.pos = 0
        self.eof = self.err = False
        self.last = None                        # "r" or "w": switching needs a seek
        self.told = "a" not in mode             # the initial position of an appending handle is not specified

    def can_read(self):
        return self.mode == "r" or "+" in self.mode

    def can_write(self):
        return self.mode != "r"


class G:
    def __init__(self, t):
        self.t = t
        self.disk = {}                          # name -> bytearray
        self.names = ["data/%s" % n for n in ("a", "b.txt", "c d", "e")]
        self.lines = []
        self.out = []
        self.handles = {"h%d" % i: None for i in range(1, 4)}
        self.handles.update({"f%d" % i: None for i in range(1, 3)})
        self.written = False
        self.seen = False
        self.labels = {}
        self.stale = set()
        self.marks = {}                         # name -> positions of writes
        for n in self.names:
            if t.bool(1, 4):
                self.disk[n] = bytearray(t.choice([b"", b"start", b"one\ntwo\nthree", bytes(range(32, 80)), b"x" * 1500 + b"\n" + b"y" * 700]))
        self.initial = {k: bytes(v) for k, v in self.disk.items()}
        for _ in range(t.int(6, 40)):
            self.step()

    def emit(self, stmt, *outs):
        self.lines.append(stmt)
        for o in outs:
            self.out.append(o if isinstance(o, bytes) else str(o).encode())

    def label(self, k):
        self.labels[k] = self.labels.get(k, 0) + 1

    def busy(self, name):
        return any(h and h.file == name for h in self.handles.values())

    def step(self):
        t = self.t
        free = [k for k, h in self.handles.items() if not h]
        live = [k for k, h in self.handles.items() if h]
        if free and (not live or t.bool(1, 6)):
            return self.open(t.choice(free))
        if t.bool(1, 15):
            return self.files()
        if self.stale - set(live) and t.bool(1, 15):
            return self.closed(t.choice(sorted(self.stale - set(live))))
        if not live:
            return
        k = t.choice(live)
        h = self.handles[k]
        op = t.weighted([(6, "write"), (7, "read"), (4, "seek"), (2, "tell"), (2, "eof"), (2, "close"), (1, "flush"), (1, "error"), (1, "wrong")])
        getattr(self, op)(k, h)

    # --- opening, closing, directory operations

    def open(self, k):
        t = self.t
        c = [n for n in self.names if not self.busy(n)]
        if not c:
            return
        name = t.choice(c)
        mode = t.choice(["r", "w", "a", "r+", "w+", "a+"])
        if mode[0] == "r" and name not in self.disk:
            self.label("missing")
            if k[0] == "h":
                self.emit('%s = fopen("%s", "%s"); print(%s == 0);' % (k, name, mode, k), 1)
            else:
                self.emit('print(%s.open("%s", "%s")); print(%s.isOpen());' % (k, name, mode, k), 0, 0)
            self.stale.add(k)
            return
        if mode[0] == "w":
            self.disk[name] = bytearray()
        self.disk.setdefault(name, bytearray())
        self.handles[k] = Handle(name, mode)
        self.label("open " + mode)
        if k[0] == "h":
            self.emit('%s = fopen("%s", "%s"); print(%s > 3);' % (k, name, mode, k), 1)
        else:
            m = '"%s"' % mode
            if t.bool(1, 3):
                m = "System.IO.File.AccessMode." + {"r": "ReadOnly", "w": "WriteOnly", "a": "Append", "r+": "ReadUpdate", "w+": "WriteUpdate", "a+": "AppendUpdate"}[mode]
            self.emit('print(%s.open("%s", %s)); print(%s.getSize());' % (k, name, m, k), 1, len(self.disk[name]))

    def close(self, k, h):
        self.handles[k] = None
        self.stale.add(k)
        self.label("close")
        self.emit("print(fclose(%s));" % k if k[0] == "h" else "print(%s.close()); print(%s.isOpen());" % (k, k), *([0] if k[0] == "h" else [1, 0]))

    def closed(self, k):
        """An operation on a handle that is not open fails and changes nothing."""
        t = self.t
        self.label("closed")
        if k[0] == "h":
            s = t.choice(['freads(%s, 3)', 'fputs("lost", %s)', "fclose(%s)", "fseek(%s, 0)", "ftell(%s)", "feof(%s)", "fgetc(%s)", "fgets(%s, 9)", "fwritei(%s, 5)", "freadi(%s)", "ferror(%s)"]) % k
        else:
            s = t.choice(["%s.readChar()", "%s.readInt()", '%s.write("lost")', "%s.write(7)", "%s.seek(0)", "%s.isEOF()", "%s.rewind()"]) % k
        self.emit('try { %s; print("done"); } catch { print("failed"); }' % s, "failed")

    def files(self):
        t = self.t
        name = t.choice(self.names)
        op = t.choice(["exists", "remove", "rename"])
        self.label(op)
        if op == "exists":
            self.emit('print(System.IO.File.Exists("%s"));' % name, int(name in self.disk))
        elif self.busy(name):
            return
        elif op == "remove":
            self.emit('print(remove("%s"));' % name, 0 if name in self.disk else -1)
            self.disk.pop(name, None)
        else:
            to = t.choice(self.names)
            if self.busy(to) or to == name:
                return
            self.emit('print(rename("%s", "%s"));' % (name, to), 0 if name in self.disk else -1)
            if name in self.disk:
                self.disk[to] = self.disk.pop(name)

    # --- position

    def seek(self, k, h):
        t = self.t
        data = self.disk[h.file]
        self.label("seek")
        h.last = None
        if t.bool(1, 4):
            h.pos, h.eof, h.told = 0, False, True
            if k[0] == "h":
                h.err = False
                self.emit("rewind(%s);" % k)
            else:
                self.emit("print(%s.rewind());" % k, 1)
            return
        origin = t.choice(["SEEK_SET", "SEEK_CUR", "SEEK_END"]) if k[0] == "h" and h.told else "SEEK_SET"
        base = {"SEEK_SET": 0, "SEEK_CUR": h.pos, "SEEK_END": len(data)}[origin]
        target = t.int(-1, len(data) + 3) if t.bool(1, 8) else t.int(0, len(data))
        marks = [m for m in self.marks.get(h.file, []) if m <= len(data)]
        if marks and t.bool():
            target = t.choice(marks)
        if k[0] == "f":
            target = max(target, 0)
        if target < 0:
            self.emit('try { fseek(%s, %d, %s); print("moved"); } catch { print("failed"); }' % (k, target - base, origin), "failed")
            return
        h.pos, h.eof, h.told = target, False, True
        if k[0] == "h":
            self.emit("print(fseek(%s, %d%s));" % (k, target - base, "" if origin == "SEEK_SET" and t.bool() else ", " + origin), 0)
        else:
            self.emit("print(%s.seek(%d));" % (k, target), 1)

    def tell(self, k, h):
        if k[0] == "h" and h.told:
            self.label("tell")
            self.emit("print(ftell(%s));" % k, h.pos)

    def eof(self, k, h):
        self.label("eof")
        self.emit("print(feof(%s) != 0);" % k if k[0] == "h" else "print(%s.isEOF());" % k, int(h.eof))

    def error(self, k, h):
        if k[0] == "h":
            self.label("error")
            if self.t.bool(1, 3):
                h.err = h.eof = False
                self.emit("clearerr(%s);" % k)
            self.emit("print(ferror(%s) != 0);" % k, int(h.err))

    def flush(self, k, h):
        if k[0] == "h" and h.last != "r":
            self.emit("print(fflush(%s));" % k, 0)

    def switch(self, k, h, kind):
        if h.last and h.last != kind:
            self.seek(k, h)
        h.last = kind

    # --- writing

    def put(self, h, data):
        if not data:
            return
        d = self.disk[h.file]
        if "a" in h.mode:
            h.pos = len(d)
        if h.pos > len(d):
            d.extend(bytes(h.pos - len(d)))
        d[h.pos:h.pos + len(data)] = data
        self.marks.setdefault(h.file, []).append(h.pos)
        h.pos += len(data)
        h.told = True
        self.written = True

    def write(self, k, h):
        t = self.t
        if not h.can_write():
            return self.wrong(k, h)
        self.switch(k, h, "w")
        ty = t.weighted([(5, "string"), (2, "int"), (1, "double"), (1, "float"), (1, "bool"), (1 if k[0] == "h" else 0, "char"), (2 if k[0] == "h" else 0, "puts")])
        self.label("write " + ty)
        if ty in ("string", "puts"):
            v = t.choice(WORDS)
            if t.bool(1, 10):
                v = t.choice("abc") * t.choice([1022, 1023, 1024, 1025, 2100]) + t.choice(["", "\n"])
            data, lit = v.encode(), '"%s"' % v
        elif ty == "int":
            v = t.choice([0, 1, -1, 10, t.int(-2**31, 2**31 - 1), 0x41424344])
            data, lit = struct.pack("<i", v), str(v)
            if v == -2**31:
                return
        elif ty == "bool":
            v = t.bool()
            data, lit = bytes([v]), "true" if v else "false"
        elif ty == "char":
            v = t.choice([65, 10, 97, 48, 255, 0])
            data, lit = bytes([v]), str(v)
        else:
            v = t.choice([0.0, 1.5, -2.25, 1000.125, 0.1])
            data = struct.pack("<d", v) if ty == "double" else struct.pack("<f", v)
            lit = repr(v) + ty[0]
        self.put(h, data)
        if k[0] == "f":
            self.emit("print(%s.write(%s));" % (k, lit), 1)
        elif ty == "char":
            self.emit("print(fputc(%s, %s));" % (lit, k), v)
        elif ty == "puts":
            self.emit("print(fputs(%s, %s) >= 0);" % (lit, k), 1)
        else:
            self.emit("print(fwrite%s(%s, %s));" % (ty[0], k, lit), 1)

    # --- reading

    def take(self, h, n):
        d = self.disk[h.file]
        if h.eof:
            return b""
        data = bytes(d[h.pos:h.pos + n])
        h.pos += len(data)
        if len(data) < n:
            h.eof = True
        if data and self.written:
            self.seen = True
        return data

    def read(self, k, h):
        t = self.t
        if not h.can_read():
            return self.wrong(k, h)
        self.switch(k, h, "r")
        if not h.told:
            self.seek(k, h)
            h.last = "r"
        d = self.disk[h.file]
        ahead = bytes(d[h.pos:]) if not h.eof else b""
        c = [(5, "string"), (2, "char"), (2, "int")]
        if k[0] == "h":
            c += [(3, "gets"), (2, "getc"), (1, "ungetc"), (1, "all")]
        if ahead[:1] in (b"\x00", b"\x01", b""):
            c.append((4, "bool"))
        for ty, n, f in (("double", 8, "<d"), ("float", 4, "<f")):
            if len(ahead) >= n:
                v = struct.unpack(f, ahead[:n])[0]
                if math.isfinite(v) and abs(v) < 1e9:
                    c.append((4, ty))
        ty = t.weighted(c)
        self.label("read " + ty)
        if ty == "string" or ty == "char" or ty == "all":
            n = 1 if ty == "char" else 10**9 if ty == "all" else t.choice([0, 1, 2, 3, 5, 9, 40, 3000])
            data = self.take(h, n)
            if ty == "char":
                s = "freads(%s)" % k if k[0] == "h" else "%s.readChar()" % k
            elif k[0] == "h":
                s = "freads(%s, %d)" % (k, -1 if ty == "all" else n)
            else:
                s = "%s.readString(%d)" % (k, n)
            self.emit("print(%s);" % s, data)
        elif ty == "int":
            data = self.take(h, 4)
            self.emit("print(freadi(%s));" % k if k[0] == "h" else "print(%s.readInt());" % k, struct.unpack("<i", data.ljust(4, b"\x00"))[0])
        elif ty == "bool":
            data = self.take(h, 1)
            self.emit("print(freadb(%s));" % k if k[0] == "h" else "print(%s.readBool());" % k, int(data == b"\x01"))
        elif ty in ("double", "float"):
            data = self.take(h, 8 if ty == "double" else 4)
            v = struct.unpack("<d" if ty == "double" else "<f", data)[0]
            self.emit("print(fread%s(%s));" % (ty[0], k) if k[0] == "h" else "print(%s.read%s());" % (k, ty.capitalize()), text(v, ty))
        elif ty == "getc":
            data = self.take(h, 1)
            self.emit("print(fgetc(%s));" % k, data[0] if data else -1)
        elif ty == "ungetc":
            ch = t.int(1, 255)
            data = self.take(h, 1)
            if data:
                self.emit("print(fgetc(%s)); print(ungetc(%d, %s)); print(fgetc(%s));" % (k, ch, k, k), data[0], ch, ch)
            else:
                self.emit("print(fgetc(%s));" % k, -1)
        else:
            n = t.choice([1, 2, 3, 6, 20, 1024, 1025, 5000])
            end = ahead.find(b"\n")
            line = ahead[:end + 1] if end >= 0 else ahead
            if b"\x00" in line:
                data = self.take(h, 2)
                self.emit("print(freads(%s, 2));" % k, data)
                return
            m = min(len(line), n - 1)
            data = self.take(h, m) if m else b""
            if m == len(line) and not line.endswith(b"\n") and n > 1 and len(line) < n - 1:
                h.eof = True
            self.emit("print(fgets(%s, %d));" % (k, n), data)

    def wrong(self, k, h):
        """Reading from a handle opened for writing only or the other way round."""
        if k[0] != "h" or ("+" in h.mode):
            return
        self.label("wrong direction")
        h.err = True
        if h.can_read():
            if h.last:
                self.seek(k, h)
                if h.err is False:
                    h.err = True
            self.emit("print(fputc(65, %s));" % k, -1)
        else:
            self.emit("print(fgetc(%s));" % k, -1)

    def source(self):
        decl = ["int h%d = 0;" % i for i in range(1, 4)] + ["System.IO.File f%d = new System.IO.File();" % i for i in range(1, 3)]
        return "import System.IO.File;\n\npublic int Main(int argc, string args) modify throws {\n\t%s\n\treturn 0;\n}\n" % "\n\t".join(decl + self.lines)


def gen(t):
    g = G(t)
    return {"source": g.source(), "expected": b"".join(o + b"\n" for o in g.out).decode("latin-1"), "initial": {k: v.decode("latin-1") for k, v in g.initial.items()},
            "final": {k: bytes(v).decode("latin-1") for k, v in g.disk.items()}, "seen": g.seen, "labels": g.labels}


def render(case):
    return case["source"] + "\n// initial files %r\n// expected\n%s\n// final files %r\n" % (case["initial"], case["expected"], case["final"])


def run(case, env):
    d = os.path.join(env.dir(), "data")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    try:
        for k, v in case["initial"].items():
            with open(os.path.join(env.dir(), k), "wb") as f:
                f.write(v.encode("latin-1"))
        got = env.slang(case["source"])
        final = {}
        for n in os.listdir(d):
            with open(os.path.join(d, n), "rb") as f:
                final["data/" + n] = f.read().decode("latin-1")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    failure = None
    if got.rc != 0:
        failure = {"what": "exit status %d" % got.rc, "got": got.describe()}
    elif got.out != case["expected"].encode("latin-1"):
        a, b = case["expected"].encode("latin-1").split(b"\n"), got.out.split(b"\n")
        i = next(i for i in range(len(a) + 1) if a[i:i + 1] != b[i:i + 1])
        failure = {"what": "output differs", "line": i + 1, "expected": repr(a[i:i + 1]), "got": repr(b[i:i + 1])}
    elif final != case["final"]:
        failure = {"what": "files differ", "expected": repr(case["final"])[:2000], "got": repr(final)[:2000]}
    return Result(failure, case["seen"], case["source"], case["labels"])
