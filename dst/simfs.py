"""A simulated raw file layer under Python's open(): short reads, EINTR, EIO, early end of file,
open errors, locale-dependent default encoding.  Files live in a scratch directory."""
import builtins, errno, io, os

E = {n: getattr(errno, n) for n in ("EIO", "EACCES", "EMFILE", "ENFILE", "ENOENT", "EINTR", "ESTALE", "ENOMEM", "EISDIR", "EPERM", "ETIMEDOUT")}

real_open = io.open


class SimRaw(io.RawIOBase):
    def __init__(self, fs, path, data, sched):
        self.fs = fs; self.path = path; self.data = data; self.s = sched or {}
        self.pos = 0; self.n = 0; self.out = bytearray()
        eof = self.s.get("eof")
        if eof is not None:
            self.data = data[:eof]
        fs.opened.append(self)

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.data) + off
        return self.pos

    def tell(self):
        return self.pos

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return False

    def readinto(self, b):
        self.n += 1; fs = self.fs
        if self.n in self.s.get("eintr", ()):
            fs.count("eintr")
            raise InterruptedError(errno.EINTR, "interrupted system call")
        err = self.s.get("err")
        if err and self.n >= err["at"]:
            fs.count("read_" + err["errno"])
            raise OSError(E[err["errno"]], os.strerror(E[err["errno"]]), str(self.path))
        c = self.s.get("chunks")
        n = len(b)
        if c:
            n = min(n, max(1, c[(self.n - 1) % len(c)]))
            if n < len(b):
                fs.count("short_reads")
        d = self.data[self.pos:self.pos + n]
        b[:len(d)] = d
        self.pos += len(d); self.out += d
        if not d and self.s.get("eof") is not None:
            fs.count("early_eof")
        fs.clock += 1e-4
        return len(d)


class SimFS:
    def __init__(self, roots, locale="utf-8"):
        self.roots = [os.path.realpath(r) + os.sep for r in roots]
        self.locale = locale; self.opened = []; self.next = None; self.stats = {}; self.clock = 0.0
        self.opens = 0

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def install(self):
        builtins.open = self.open
        io.open = self.open

    def remove(self):
        builtins.open = real_open
        io.open = real_open

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        try:
            p = os.path.realpath(os.fspath(file)) if not isinstance(file, int) else ""
            if isinstance(p, bytes):
                p = os.fsdecode(p)
        except TypeError:
            p = ""
        if not any(p.startswith(r) for r in self.roots) or set(mode) & set("wax+"):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.opens += 1
        s = dict(self.next or {})
        if s.get("open"):
            self.count("open_" + s["open"])
            raise OSError(E[s["open"]], os.strerror(E[s["open"]]), str(file))
        with real_open(p, "rb") as f:
            data = f.read()
        raw = SimRaw(self, p, data, s)
        if "b" in mode:
            return raw if buffering == 0 else io.BufferedReader(raw, buffering if buffering > 0 else 8192)
        buf = io.BufferedReader(raw, buffering if buffering > 1 else s.get("bufsize", 8192))
        if encoding is None or encoding == "locale":
            encoding = self.locale
        t = io.TextIOWrapper(buf, encoding, errors, newline)
        t.mode = mode
        return t
