"""Connections: values of all types exchanged over sockets, by one program or with a peer outside, in arbitrary pieces."""
import errno
import fcntl
import os
import socket
import struct
import threading
import time

import nat
import strs
from vlib import Result, compare_output

PROPERTY = "C42"
LEVEL = "exploration"
CASES = {"quick": 12000, "thorough": 100000}
RULE = ("case = either a program that reads a mixture of values of all types from a stream that an outside sender delivers in generated pieces (each sent after the previous one was received), or a program with "
        "up to 3 listening sockets (library objects and plain handles, IPv4 and IPv6) and up to 6 connections to them that writes, reads, closes and accepts in a generated order, or a client of an outside server; "
        "compared with byte queues; non-trivial if a value is delivered in at least two pieces, or at least two values of different types pass one connection; distinct counts programs with their pieces")

TYPES = ["bool", "int", "float", "double", "string"]
LETTER = {"bool": "b", "int": "i", "float": "f", "double": "d", "string": "s"}
METHOD = {"bool": "Bool", "int": "Int", "float": "Float", "double": "Double", "string": "String"}
FORMAT = {"bool": "?", "int": "<i", "float": "<f", "double": "<d"}


def value(t, types=TYPES):
    ty = t.choice(types)
    if ty == "string":
        s = strs.gen_text(t)
        if t.bool(1, 20):
            s = (s + "x") * t.int(10, 200)
        return ty, s
    return ty, nat.gen_value(t, ty)


def literal(v, ty):
    if ty == "int" and v == -2147483648:
        return "-2147483647 - 1"
    return strs.lit(v) if ty == "string" else nat.literal(v, ty)


def pack(v, ty):
    return v.encode("latin-1") if ty == "string" else struct.pack(FORMAT[ty], v)


class Queue:
    """One direction of a connection."""
    def __init__(self):
        self.data = b""
        self.items = []
        self.closed = False
        self.types = set()

    def put(self, v, ty):
        b = pack(v, ty)
        self.data += b
        self.items.append((ty, len(b)))
        self.types.add(ty)

    def get(self, t):
        """(type, argument, text) of a possible read; None if there is none."""
        if not self.data:
            if self.closed:
                return "string", t.choice([-1, 1, 5]), ""
            return None
        ty, n = self.items[0] if self.items else ("string", len(self.data))
        if n == 0 or t.bool(1, 5):
            ty, n = t.choice(TYPES), None
        if ty == "string":
            n = n or t.int(1, min(len(self.data), 20))
            if self.closed and t.bool(1, 3):
                n = len(self.data)
                arg = t.choice([-1, n, n + 7])
            else:
                arg = n
            text = self.data[:n].decode("latin-1")
            if "\0" in text or (n > 30 and arg > n):
                return None
        else:
            n = struct.calcsize(FORMAT[ty])
            if len(self.data) < n or (ty == "bool" and self.data[0] > 1):
                return None
            v = struct.unpack(FORMAT[ty], self.data[:n])[0]
            if ty in ("float", "double") and not abs(v) < 1e15:
                return None
            text, arg = nat.text(v, ty), None
        self.drop(n)
        return ty, arg, text

    def drop(self, n):
        self.data = self.data[n:]
        while self.items and n >= self.items[0][1]:
            n -= self.items[0][1]
            self.items.pop(0)
        if n and self.items:
            self.items = [("string", 0)] + self.items  # torn: no longer read as what it was
            self.items[0] = ("string", 0)
            ty, m = self.items.pop(1)
            self.items[0] = ("string", min(m - n, len(self.data)))


def read(r, handle, t):
    """The statement for a read through a plain handle."""
    ty, arg, text = r
    if ty == "string":
        return "reads(%s%s)" % (handle, "" if arg == 1 and t.bool() else ", %d" % arg)
    return "read%s(%s)" % (LETTER[ty], handle)


def pieces(t):
    q = Queue()
    for _ in range(t.int(1, 12)):
        q.put(*reversed(value(t)))
    q.closed = True
    data = q.data
    lines, out = [], []
    while q.data or t.bool(1, 4):
        r = q.get(t)
        if r is None:
            n = 1
            while n < len(q.data) and q.data[n - 1] and n < 20:
                n += 1
            text = q.data[:n].decode("latin-1")
            if "\0" in text:
                # passed over
                lines.append("reads(0, %d);" % n)
                q.drop(n)
                continue
            q.drop(n)
            r = ("string", n, text)
        v = "v%d" % len(lines)
        lines.append("%s %s = %s; print(\"[\" + %s + \"]\");" % (r[0], v, read(r, "0", t), v) if t.bool() else "print(\"[\" + %s + \"]\");" % read(r, "0", t))
        out.append("[%s]" % r[2])
    cuts = sorted(set(t.int(1, len(data) - 1) for _ in range(t.int(0, 10)))) if len(data) > 1 else []
    cuts = [0] + cuts + [len(data)]
    chunks = [data[a:b].decode("latin-1") for a, b in zip(cuts, cuts[1:])]
    src = "public int Main(int argc, string args) modify throws {\n\t%s\n\treturn 0;\n}\n" % "\n\t".join(lines)
    return {"kind": "pieces", "source": src, "out": out, "chunks": chunks, "rich": len(cuts) > 2, "servers": 0}


class Conn:
    def __init__(self, server, name, lib):
        self.server, self.name, self.lib = server, name, lib
        self.up, self.down = Queue(), Queue()  # towards the server and back
        self.open = True
        self.handle = None
        self.accepted = False


class Server:
    def __init__(self, n, lib, v6):
        self.n, self.lib, self.v6 = n, lib, v6
        self.pending = []
        self.current = None


class Program:
    def __init__(self, t):
        self.t = t
        self.lines, self.out = [], []
        self.servers, self.conns = [], []
        self.count = 0

    def show(self, e, text):
        self.lines.append("print(\"%s \" + (%s));" % (LABEL[len(self.lines) % 7], e))
        self.out.append("%s %s" % (LABEL[(len(self.lines) - 1) % 7], text))

    def name(self, p):
        self.count += 1
        return "%s%d" % (p, self.count)

    def address(self, s):
        return "new IPv%dAddress(\"@A%d@\", @P%d@)" % (6 if s.v6 else 4, s.n, s.n)

    def serve(self):
        t = self.t
        s = Server(len(self.servers), t.bool(1, 2), False)
        if not s.lib and t.bool(1, 3):
            s.v6 = True
        self.servers.append(s)
        s.name = self.name("s")
        if s.lib:
            if t.bool():
                a = self.name("a")
                self.lines.append("var %s = %s;" % (a, self.address(s)))
                self.lines.append("var %s = new ServerSocket(%s, %d);" % (s.name, a, t.int(5, 50)))
                self.show("%s.Bind()" % s.name, "1")
            else:
                self.lines.append("var %s = new ServerSocket();" % s.name)
                self.show("%s.Bind(%s)" % (s.name, self.address(s)), "1")
            self.show("%s.Listen()" % s.name, "0")
            if t.bool(1, 4):
                self.show("%s.getAddress() + \":\" + %s.getPort()" % (s.name, s.name), "@A%d@:@P%d@" % (s.n, s.n))
            return
        self.lines.append("int %s = socket(AF_INET%s, SOCK_STREAM, 0);" % (s.name, "6" if s.v6 else ""))
        s.addr = self.name("a")
        self.lines.append("var %s = %s;" % (s.addr, self.address(s)))
        self.show("bind(%s, ISocketAddress %s)" % (s.name, s.addr), "0")
        self.show("listen(%s, %d)" % (s.name, t.int(5, 20)), "0")

    def connect(self):
        t = self.t
        s = t.choice(self.servers)
        c = Conn(s, self.name("c"), not s.v6 and t.bool(1, 2))
        if c.lib:
            k = t.below(4)
            if k == 0:
                self.lines.append("var %s = new ClientSocket(\"@A%d@\", @P%d@);" % (c.name, s.n, s.n))
                e = "%s.Connect()" % c.name
            elif k == 1:
                self.lines.append("var %s = new ClientSocket();" % c.name)
                e = "%s.Connect(\"@A%d@\", @P%d@)" % (c.name, s.n, s.n)
            else:
                a = self.name("a")
                self.lines.append("var %s = %s;" % (a, self.address(s)))
                self.lines.append("var %s = new ClientSocket(%s);" % (c.name, a if k == 2 else ""))
                e = "%s.Connect(%s)" % (c.name, a if k == 3 else "")
            if t.bool(1, 4):
                self.show("%s.IsConnected()" % c.name, "0")
            self.show(e, "1")
        else:
            self.lines.append("int %s = socket(AF_INET%s, SOCK_STREAM, 0);" % (c.name, "6" if s.v6 else ""))
            a = self.name("a")
            self.lines.append("var %s = %s;" % (a, self.address(s)))
            self.show("connect(%s, ISocketAddress %s)" % (c.name, a), "0")
        s.pending.append(c)
        self.conns.append(c)

    def accept(self):
        cs = [s for s in self.servers if s.pending]
        if not cs:
            return
        s = self.t.choice(cs)
        c = s.pending.pop(0)
        c.accepted = True
        if s.lib:
            s.current = c
            self.show("%s.Accept()" % s.name, "1")
        else:
            c.handle = self.name("h")
            self.lines.append("int %s = accept(%s);" % (c.handle, s.name))

    def write(self):
        t = self.t
        c = t.choice(self.conns)
        ty, v = value(t)
        if t.bool(2, 3) or not c.handle or not c.open:
            if not c.open or len(c.up.data) > 8000:
                return
            if c.lib:
                self.lines.append("%s.Write(%s);" % (c.name, literal(v, ty)))
            else:
                self.lines.append("write%s(%s, %s);" % (LETTER[ty], c.name, literal(v, ty)))
            c.up.put(v, ty)
        elif not c.lib:  # the library's clients do not read
            if not c.down.closed and len(c.down.data) < 8000:
                self.lines.append("write%s(%s, %s);" % (LETTER[ty], c.handle, literal(v, ty)))
                c.down.put(v, ty)

    def read(self):
        t = self.t
        c = t.choice(self.conns)
        if c.server.lib:
            c = c.server.current
        if c and c.accepted:
            if c.server.lib:
                r = c.up.get(t)
                if r:
                    a = "" if r[1] is None or (r[1] == 1 and t.bool()) else "%d" % r[1]
                    self.show("%s.Read%s(%s)" % (c.server.name, METHOD[r[0]], a), r[2])
                return
            if not c.lib and c.open and t.bool(1, 3):
                r = c.down.get(t)
                if r:
                    self.show(read(r, c.name, t), r[2])
                return
            r = c.up.get(t)
            if r:
                self.show(read(r, c.handle, t), r[2])

    def close(self):
        t = self.t
        c = t.choice(self.conns)
        if not c.open:
            return
        if c.lib:
            self.lines.append("%s.Close();" % c.name)
            if t.bool(1, 3):
                self.show("%s.IsConnected()" % c.name, "0")
                self.lines.append("try { %s.Write(1); print(\"written\"); } catch ( Exception e ) { print(\"refused\"); }" % c.name)
                self.out.append("refused")
        elif c.down.data or (c.handle and t.bool()):
            return
        else:
            self.show("close(%s)" % c.name, "0")
        c.open = False
        c.up.closed = True
        c.down.closed = True

    def missing(self):
        """Nobody listens there."""
        c = self.name("c")
        self.lines.append("var %s = new ClientSocket(\"@A9@\", @P9@);" % c)
        self.show("%s.Connect()" % c, "0")
        self.show("%s.IsConnected()" % c, "0")
        self.lines.append("try { %s.Write(\"x\"); print(\"written\"); } catch ( Exception e ) { print(\"refused\"); }" % c)
        self.out.append("refused")


LABEL = ["A", "B", "C", "D", "E", "F", "G"]
HEAD = "import System.Network.Socket;\nimport System.Network.ClientSocket;\nimport System.Network.ServerSocket;\n\n"


def loop(t):
    p = Program(t)
    p.serve()
    p.connect()
    for _ in range(t.int(5, 40)):
        k = t.weighted([(8, "write"), (8, "read"), (3, "accept"), (1, "connect"), (1, "serve"), (1, "close"), (1, "missing")])
        if k == "serve" and len(p.servers) >= 3 or k == "connect" and len(p.conns) >= 6 or k == "missing" and t.bool(4, 5):
            k = "read"
        if k == "read" and t.bool(1, 2) and any(s.pending for s in p.servers):
            k = "accept"
        getattr(p, k)()
    src = HEAD + "public int Main(int argc, string args) modify throws {\n\t%s\n\treturn 0;\n}\n" % "\n\t".join(p.lines)
    return {"kind": "loop", "source": src, "out": p.out, "rich": any(len(q.types) > 1 for c in p.conns for q in (c.up, c.down)), "chunks": [], "servers": [s.v6 for s in p.servers]}


def peer(t):
    data, lines, types = b"", [], set()
    lib = t.bool()
    if lib:
        lines += ["var c = new ClientSocket(\"127.0.0.1\", @PORT@);", "print(c.Connect());"]
    else:
        lines += ["int c = socket(AF_INET, SOCK_STREAM, 0);", "var a = new IPv4Address(\"127.0.0.1\", @PORT@);", "print(connect(c, ISocketAddress a) == 0);"]
    for _ in range(t.int(1, 10)):
        ty, v = value(t)
        types.add(ty)
        data += pack(v, ty)
        lines.append("%s%s);" % ("c.Write(" if lib else "write%s(c, " % LETTER[ty], literal(v, ty)))
    lines.append("c.Close();" if lib else "close(c);")
    src = HEAD + "public int Main(int argc, string args) modify throws {\n\t%s\n\treturn 0;\n}\n" % "\n\t".join(lines)
    return {"kind": "peer", "source": src, "out": ["1"], "data": data.decode("latin-1"), "rich": len(types) > 1, "chunks": [], "servers": 0}


def gen(t):
    return t.weighted([(3, pieces), (5, loop), (1, peer)])(t)


COUNTER = [0]
SIOCOUTQ = 0x5411


def reserve(held, v6):
    """An address and port that no other case uses at the same time; None if there is no such network."""
    for _ in range(20000):
        COUNTER[0] += 1
        n, pid = COUNTER[0], os.getpid()
        addr = "::1" if v6 else "127.%d.%d.%d" % (1 + pid % 250, 1 + n // 250 % 250, 1 + n % 250)
        port = 10000 + (pid * 7919 + n * 31) % 20000
        h = socket.socket(socket.AF_UNIX)
        try:
            h.bind("\0slangcheck-%s-%d" % (addr, port))
        except OSError:
            h.close()
            continue
        try:
            with socket.socket(socket.AF_INET6 if v6 else socket.AF_INET) as s:
                s.bind((addr, port))
        except OSError as e:
            h.close()
            if e.errno != errno.EADDRINUSE:
                return None
            continue
        held.append(h)
        return addr, port
    return None


def feed(sock, chunks, stop):
    try:
        for c in chunks:
            sock.sendall(c)
            while not stop.is_set() and struct.unpack("i", fcntl.ioctl(sock, SIOCOUTQ, b"\0" * 4))[0]:
                time.sleep(0.0002)
        sock.close()
    except OSError:
        pass


def run(case, env):
    src = case["source"].encode("utf-8", "surrogateescape")
    out = "".join(x + "\n" for x in case["out"])
    if case["kind"] == "pieces":
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_STREAM)
        stop = threading.Event()
        th = threading.Thread(target=feed, args=(a, [c.encode("latin-1") for c in case["chunks"]], stop), daemon=True)
        th.start()
        try:
            got = env.slang(src, preexec=lambda: os.dup2(b.fileno(), 0))
        finally:
            stop.set()
            b.close()
            th.join()
            a.close()
    elif case["kind"] == "peer":
        with socket.socket() as s:
            s.bind(("127.0.0.1", 0))
            s.listen(4)
            s.settimeout(0.2)
            got = env.slang(src.replace(b"@PORT@", b"%d" % s.getsockname()[1]))
            data = b""
            try:
                c = s.accept()[0]
                c.settimeout(5)
                while True:
                    x = c.recv(65536)
                    if not x:
                        break
                    data += x
                c.close()
            except OSError:
                pass
        failure = compare_output(out.encode("latin-1"), 0, got)
        if not failure and data != case["data"].encode("latin-1"):
            failure = {"what": "the peer received something else", "expected": repr(case["data"]), "got": repr(data.decode("latin-1"))}
        return Result(failure, case["rich"], case["source"], labels={"peer": 1})
    else:
        text, held = out, []
        for i in list(range(len(case["servers"]))) + [9]:
            place = reserve(held, i < 9 and case["servers"][i])
            if place is None:
                for h in held:
                    h.close()
                return Result(None, False, case["source"], labels={"network not available": 1})
            addr, port = place
            src = src.replace(b"@A%d@" % i, addr.encode()).replace(b"@P%d@" % i, b"%d" % port)
            text = text.replace("@A%d@" % i, addr).replace("@P%d@" % i, str(port))
        got = env.slang(src)
        for h in held:
            h.close()
        out = text
    failure = compare_output(out.encode("latin-1"), 0, got)
    return Result(failure, case["rich"], case["source"] + "|".join(case["chunks"]), labels={case["kind"]: 1})


def render(case):
    return case["source"] + ("// pieces %r\n" % case["chunks"] if case["chunks"] else "") + "// expected\n" + "\n".join(case["out"]) + "\n"
