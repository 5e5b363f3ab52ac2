import os, select, struct, subprocess, sys, time
EXE, T = sys.argv[1], sys.argv[2]

def path(n, data):
    p = os.path.join(T, n)
    with open(p, "wb") as f:
        f.write(data)
    return p

def dump(regs=None, psr=3, flags=0, fpr=None, regions=()):
    """A version 3 CrashCatcher dump."""
    regs = list(regs or range(0x100, 0x113))
    d = b"cC\x03\x00" + struct.pack("<I", flags) + struct.pack("<19I", *regs) + struct.pack("<I", psr)
    if flags & 1:
        d += struct.pack("<33I", *fpr)
    for a, data in regions:
        d += struct.pack("<II", a, a + len(data)) + data
    return d

def check(cond, what):
    if not cond:
        print("FAILED: " + what)
        sys.exit(1)

class Gdb:
    """The GDB end of a session."""
    def __init__(self, *args):
        self.p = subprocess.Popen([EXE] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        self.text = ""
        self.buf = b""
        self.p.stdin.write(b"+")

    def byte(self):
        if not self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], 20)
            check(r, "an answer within 20 s")
            self.buf = os.read(self.p.stdout.fileno(), 65536)
            check(self.buf, "the program goes on")
        c, self.buf = self.buf[:1], self.buf[1:]
        return c

    def packet(self):
        while True:
            while self.byte() != b"$":
                pass
            d = b""
            while True:
                c = self.byte()
                if c == b"#":
                    break
                d += c
            cs = self.byte() + self.byte()
            check(int(cs, 16) == sum(d) & 255, "checksum")
            self.p.stdin.write(b"+")
            if d[:1] == b"O" and d != b"OK":
                self.text += bytes.fromhex(d[1:].decode()).decode("latin1")
                continue
            return d.decode("latin1")

    def send(self, s):
        b = s if isinstance(s, bytes) else s.encode("latin1")
        self.p.stdin.write(b"$" + b + b"#%02x" % (sum(b) & 255))

    def ask(self, s):
        self.send(s)
        return self.packet()

    def xfer(self, what):
        out, n = "", 0
        while True:
            r = self.ask("qXfer:%s:read:%s:%x,%x" % (what, "target.xml" if what == "features" else "", n, 0x200))
            out += r[1:]
            n += len(r) - 1
            if r[0] == "l":
                return out

    def close(self):
        self.p.stdin.close()
        self.p.stdout.close()
        t = time.time()
        while self.p.poll() is None and time.time() - t < 20:
            time.sleep(0.02)
        ended = self.p.poll() is not None
        if not ended:
            self.p.kill()
        self.p.wait()
        return ended
