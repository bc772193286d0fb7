"""Simulated disk: an in-memory file system mounted under ROOT by replacing the file calls of the Python runtime (open, os.*) while it is
active.  The code under test runs unmodified: real text and buffered I/O layers sit on top of a simulated raw file.

Every operation that reaches the disk is numbered; the plan says what happens at which operation: an error return, a short or torn write,
a full disk, an interrupt, a crash of the process, a power loss.  After a crash the dead process's operations have no effect.  Volatile and
durable state are kept apart: data is durable only after fsync, directory entries only after fsync of the directory or when the plan's power-loss
decisions say so (prefix of the pending directory operations, arbitrary subset of unsynced data)."""
import builtins
import errno
import io
import os
import random
import stat as statmod
import sys

from sim import repo
from sim.core import SimCrash

ROOT = "/simdisk"
FD0 = 1 << 20


class Inode:
    _n = 0

    def __init__(self):
        Inode._n += 1
        self.ino = Inode._n
        self.data = bytearray()      # what running processes see
        self.durable = bytearray()   # what the platter holds for sure
        self.pending = []            # unsynced (offset, bytes) or ("trunc", n)
        self.mode = 0o644

    def write(self, off, b):
        if off > len(self.data):
            self.data.extend(b"\0" * (off - len(self.data)))
        self.data[off:off + len(b)] = b
        self.pending.append((off, bytes(b)))

    def truncate(self, n):
        if n < len(self.data):
            del self.data[n:]
        else:
            self.data.extend(b"\0" * (n - len(self.data)))
        self.pending.append(("trunc", n))

    def sync(self):
        self.durable = bytearray(self.data)
        self.pending = []

    def after_power_loss(self, rng):
        d = bytearray(self.durable)
        mode = rng.randrange(4)  # everything lost, everything there, a prefix, an arbitrary torn subset
        for i, (off, b) in enumerate(self.pending):
            if mode == 0:
                break
            if mode == 2 and rng.random() < 0.3:
                break
            if off == "trunc":
                if b < len(d):
                    del d[b:]
                else:
                    d.extend(b"\0" * (b - len(d)))
                continue
            if mode == 3:
                if rng.random() < 0.4:
                    continue
                if rng.random() < 0.3:
                    b = b[:rng.randrange(len(b) + 1)]
            if off > len(d):
                d.extend(b"\0" * (off - len(d)))
            d[off:off + len(b)] = b
        self.data = d
        self.durable = bytearray(d)
        self.pending = []


class Raw(io.RawIOBase):
    def __init__(self, disk, fd, readable, writable, name, mode="rb"):
        super().__init__()
        self._disk, self._fd, self._r, self._w = disk, fd, readable, writable
        self.name = name
        self.mode = mode

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        d = self._disk.read(self._fd, len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        return self._disk.write(self._fd, bytes(b))

    def seek(self, pos, whence=0):
        return self._disk.lseek(self._fd, pos, whence)

    def tell(self):
        return self._disk.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self._disk.ftruncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self._disk.close(self._fd)


class Disk:
    """faults: {operation index: [kind, arg]}; observer(index, op) is called before each operation (a concurrent reader)."""

    def __init__(self, capacity=None, bufsize=512):
        self.dir = {}        # path -> Inode, as running processes see it
        self.dur = {}        # path -> Inode, durable directory
        self.pend = []       # pending directory operations
        self.fds = {}
        self.next_fd = FD0
        self.capacity = capacity
        self.bufsize = bufsize
        self.faults = {}
        self.observer = None
        self.count = 0
        self.dead = False
        self.quiet = 0       # >0: operations of observers and oracles: not counted, no faults
        self.log = []
        self.on_fault = lambda k: None
        self.gone = None
        self._saved = None

    # ---------------------------------------------------------------- control
    def arm(self, faults):
        self.faults = {int(k): v for k, v in faults.items()}
        self.count = 0
        self.log = []
        self.gone = None

    def _fire(self, kind):
        self.on_fault(kind)

    def op(self, name, path=""):
        """Numbering, crashes and injected errors; returns the fault for the operation to interpret, if any."""
        if self.dead or self.quiet:
            return None
        i = self.count
        self.count += 1
        self.log.append(name)
        if self.observer:
            self.quiet += 1
            try:
                self.observer(i, name)
            finally:
                self.quiet -= 1
        f = self.faults.get(i)
        if f is None:
            return None
        k = f[0]
        if k in ("crash", "power"):
            self.dead = True
            self.gone = k
            self._fire(k)
            raise SimCrash(k)
        if k == "interrupt":
            self._fire(k)
            raise KeyboardInterrupt
        if k == "err":
            e = getattr(errno, f[1])
            self._fire(f"{name}:{f[1]}")
            if name == "fsync":  # the kernel reports a writeback error once and drops the pages
                pass
            raise OSError(e, os.strerror(e), path)
        return f

    def used(self):
        return sum(len(n.data) for n in {id(x): x for x in self.dir.values()}.values())

    def revive(self):
        """A new process on the same machine (page cache intact)."""
        self.dead = False
        self.fds.clear()

    def power_cycle(self, seed):
        rng = random.Random(seed)
        d = dict(self.dur)
        k = rng.randrange(len(self.pend) + 1) if rng.random() < 0.6 else len(self.pend)
        for o in self.pend[:k]:
            self._apply(d, o)
        for n in {id(x): x for x in list(d.values())}.values():
            n.after_power_loss(rng)
        self.dir = dict(d)
        self.dur = dict(d)
        self.pend = []
        self.revive()

    @staticmethod
    def _apply(d, o):
        if o[0] == "link":
            d[o[1]] = o[2]
        elif o[0] == "unlink":
            d.pop(o[1], None)
        else:  # rename
            if o[1] in d:
                d[o[2]] = d.pop(o[1])

    def _meta(self, *o):
        self._apply(self.dir, o)
        self.pend.append(o)

    def sync_dir(self):
        for o in self.pend:
            self._apply(self.dur, o)
        self.pend = []

    # ------------------------------------------------------------- operations
    def _new_fd(self, ent):
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = ent
        return fd

    def open_fd(self, path, flags, mode=0o644):
        if self.dead:
            return self._new_fd([Inode(), 0, flags, path])
        acc = flags & os.O_ACCMODE
        self.op("open", path)
        if path == ROOT or self.isdir(path):
            return self._new_fd(["dir", 0, flags, path])
        n = self.dir.get(path)
        if n is None:
            if not flags & os.O_CREAT:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            n = Inode()
            self._meta("link", path, n)
        elif flags & os.O_CREAT and flags & os.O_EXCL:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
        if flags & os.O_TRUNC and acc != os.O_RDONLY and len(n.data):
            n.truncate(0)
        return self._new_fd([n, 0, flags, path])

    def ent(self, fd):
        if fd not in self.fds:
            if self.dead:
                return [Inode(), 0, 0, ""]
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        return self.fds[fd]

    def write(self, fd, b):
        if self.dead:
            return len(b)
        e = self.ent(fd)
        f = self.op("write", e[3])
        n = e[0]
        off = len(n.data) if e[2] & os.O_APPEND else e[1]
        ln = len(b)
        fail = None
        if f is not None and ln:
            if f[0] == "short" and ln > 1:
                ln = max(1, int(ln * f[1]))
                self._fire("short_write")
            elif f[0] == "torn":
                ln = int(ln * f[1])
                fail = getattr(errno, f[2])
                self._fire(f"torn_write:{f[2]}")
        if self.capacity is not None:
            grow = max(0, off + ln - len(n.data))
            room = max(0, self.capacity - self.used())
            if grow > room:
                ln = max(0, ln - (grow - room))
                if not self.quiet:
                    self._fire("disk_full")
                if ln <= 0:
                    raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), e[3])
        n.write(off, b[:ln])
        e[1] = off + ln
        if fail is not None:
            raise OSError(fail, os.strerror(fail), e[3])
        return ln

    def read(self, fd, size):
        e = self.ent(fd)
        if e[0] == "dir":
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), e[3])
        self.op("read", e[3])
        d = bytes(e[0].data[e[1]:e[1] + size])
        e[1] += len(d)
        return d

    def lseek(self, fd, pos, whence=0):
        e = self.ent(fd)
        base = 0 if whence == 0 else e[1] if whence == 1 else len(e[0].data)
        e[1] = max(0, base + pos)
        return e[1]

    def ftruncate(self, fd, size):
        if self.dead:
            return
        e = self.ent(fd)
        self.op("truncate", e[3])
        e[0].truncate(size)

    def fsync(self, fd):
        if self.dead:
            return
        e = self.ent(fd)
        f = self.op("fsync", e[3])
        if f is not None and f[0] == "lost":  # reported error, and the dirty pages are gone for good
            e[0].pending = []
            self._fire("fsync:lost")
            raise OSError(errno.EIO, os.strerror(errno.EIO), e[3])
        if e[0] == "dir":
            self.sync_dir()
        else:
            e[0].sync()

    def close(self, fd):
        e = self.fds.pop(fd, None)
        if self.dead or e is None:
            return
        if e[0] != "dir" and e[2] & os.O_ACCMODE != os.O_RDONLY:
            self.op("close", e[3])

    def rename(self, a, b):
        if self.dead:
            return
        self.op("rename", a)
        if a not in self.dir:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), a)
        self._meta("rename", a, b)

    def link(self, a, b):
        if self.dead:
            return
        self.op("link", a)
        if a not in self.dir:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), a)
        if b in self.dir:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), b)
        self._meta("link", b, self.dir[a])

    def unlink(self, a):
        if self.dead:
            return
        self.op("unlink", a)
        if a not in self.dir:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), a)
        self._meta("unlink", a)

    def isdir(self, p):
        p = p.rstrip("/")
        return p == ROOT or p in getattr(self, "mkdirs", ()) or any(x.startswith(p + "/") for x in self.dir)

    def stat_of(self, n):
        if n == "dir":
            return os.stat_result((statmod.S_IFDIR | 0o755, 1, 1, 2, 0, 0, 0, 0, 0, 0))
        return os.stat_result((statmod.S_IFREG | n.mode, n.ino, 1, 1, 0, 0, len(n.data), 0, 0, 0))

    def stat(self, p):
        if self.isdir(p):
            return self.stat_of("dir")
        if p not in self.dir:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
        return self.stat_of(self.dir[p])

    def listdir(self, p):
        p = p.rstrip("/") + "/"
        return sorted({x[len(p):].split("/")[0] for x in self.dir if x.startswith(p)})

    # ------------------------------------------------------- open() on the disk
    def py_open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        m = set(mode)
        updating = "+" in m
        binary = "b" in m
        r = "r" in m or updating
        w = bool(m & {"w", "a", "x"}) or updating
        flags = (os.O_RDWR if updating else os.O_WRONLY if w else os.O_RDONLY) | getattr(os, "O_CLOEXEC", 0)
        if "w" in m:
            flags |= os.O_CREAT | os.O_TRUNC
        elif "x" in m:
            flags |= os.O_CREAT | os.O_EXCL
        elif "a" in m:
            flags |= os.O_CREAT | os.O_APPEND
        if isinstance(file, int):
            fd = file
        elif opener is not None:
            fd = opener(file, flags)
        else:
            fd = self.open_fd(file, flags)
        if not isinstance(file, int) and self.fds.get(fd, [None])[0] == "dir":
            self.fds.pop(fd)
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
        raw = Raw(self, fd, r, w, file, "rb+" if updating else "wb" if w else "rb")
        if "a" in m:
            self.lseek(fd, 0, 2)
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        line = buffering == 1
        size = self.bufsize if buffering in (-1, 1) else buffering
        buf = io.BufferedRandom(raw, size) if updating else io.BufferedWriter(raw, size) if w else io.BufferedReader(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, line)
        t.mode = mode
        return t

    # ------------------------------------------------------------------ mount
    def __enter__(self):
        d = self
        real = {"open": builtins.open, "ioopen": io.open}
        names = ["open", "close", "write", "read", "fsync", "fdatasync", "replace", "rename", "unlink", "remove", "link", "stat", "lstat", "listdir",
                 "mkdir", "access", "truncate", "ftruncate", "lseek", "fstat", "chmod", "utime", "sendfile", "rmdir", "fchmod", "sync", "isatty"]
        for n in names:
            real["os." + n] = getattr(os, n)
        self._saved = real

        def path(p):
            try:
                p = os.fspath(p)
            except TypeError:
                return None
            if isinstance(p, bytes):
                p = p.decode()
            if not (p == ROOT or p.startswith(ROOT + "/")):
                return None
            return os.path.normpath(p)

        def mine(fd):
            return isinstance(fd, int) and not isinstance(fd, bool) and fd >= FD0

        def fdof(f):
            return f if isinstance(f, int) else f.fileno()

        def open_(file, mode="r", *a, **kw):
            if mine(file):
                return d.py_open(file, mode, *a, **kw)
            p = None if isinstance(file, int) else path(file)
            return real["open"](file, mode, *a, **kw) if p is None else d.py_open(p, mode, *a, **kw)

        def os_open(p, flags, mode=0o777, *, dir_fd=None):
            q = path(p)
            return real["os.open"](p, flags, mode, dir_fd=dir_fd) if q is None else d.open_fd(q, flags, mode)

        def byfd(name, fn):
            def f(fd, *a, **kw):
                x = fd if isinstance(fd, int) else getattr(fd, "fileno", lambda: None)()
                return fn(x, *a, **kw) if mine(x) else real["os." + name](fd, *a, **kw)
            return f

        def bypath(name, fn):
            def f(p, *a, **kw):
                q = None if isinstance(p, int) else path(p)
                if q is None:
                    if mine(p):
                        return d.stat_of(d.ent(p)[0])
                    return real["os." + name](p, *a, **kw)
                return fn(q, *a, **{})
            return f

        def two(name, fn):
            def f(a, b, **kw):
                x, y = path(a), path(b)
                if x is None and y is None:
                    return real["os." + name](a, b, **kw)
                if x is None or y is None:
                    raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), str(a))
                return fn(x, y)
            return f

        def mkdir(p, *a):
            if d.isdir(p):
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), p)
            d.mkdirs = getattr(d, "mkdirs", set()) | {p}

        def truncate(p, n):
            q = path(p) if not isinstance(p, int) else None
            if q is not None:
                fd = d.open_fd(q, os.O_WRONLY)
                d.ftruncate(fd, n)
                d.close(fd)
            elif mine(p):
                d.ftruncate(p, n)
            else:
                real["os.truncate"](p, n)

        def sync():
            if not d.dead:
                for n in d.dir.values():
                    n.sync()
                d.sync_dir()

        before = {id(v): k for k, v in real.items()}
        builtins.open = open_
        io.open = open_
        os.open = os_open
        os.write = byfd("write", lambda fd, b: d.write(fd, bytes(b)))
        os.read = byfd("read", d.read)
        os.close = byfd("close", d.close)
        os.fsync = byfd("fsync", d.fsync)
        os.fdatasync = byfd("fdatasync", d.fsync)
        os.lseek = byfd("lseek", d.lseek)
        os.ftruncate = byfd("ftruncate", d.ftruncate)
        os.fstat = byfd("fstat", lambda fd: d.stat_of(d.ent(fd)[0]))
        os.isatty = byfd("isatty", lambda fd: False)
        os.fchmod = byfd("fchmod", lambda fd, m: None)
        os.replace = two("replace", d.rename)
        os.rename = two("rename", d.rename)
        os.link = two("link", d.link)
        os.unlink = bypath("unlink", d.unlink)
        os.remove = bypath("remove", d.unlink)
        os.stat = bypath("stat", lambda p, *a: d.stat(p))
        os.lstat = bypath("lstat", lambda p, *a: d.stat(p))
        os.listdir = bypath("listdir", d.listdir)
        os.mkdir = bypath("mkdir", mkdir)
        os.rmdir = bypath("rmdir", lambda p, *a: None)
        os.access = bypath("access", lambda p, *a: p in d.dir or d.isdir(p))
        os.chmod = bypath("chmod", lambda p, *a: None)
        os.utime = bypath("utime", lambda p, *a: None)
        os.truncate = truncate

        def sendfile(out, inp, *a, **kw):
            if mine(out) or mine(inp):
                raise OSError(errno.ENOTSOCK, os.strerror(errno.ENOTSOCK))
            return real["os.sendfile"](out, inp, *a, **kw)
        os.sendfile = sendfile
        os.sync = sync
        # names bound with 'from os import ...' in the code under test
        self._bound = []
        for m in list(sys.modules.values()):
            if not (getattr(m, "__file__", None) or "").startswith(repo.REPO + "/"):
                continue
            for a, v in list(vars(m).items()):
                k = before.get(id(v))
                if k is not None:
                    new = open_ if k in ("open", "ioopen") else getattr(os, k[3:])
                    self._bound.append((m, a, v))
                    setattr(m, a, new)
        return self

    def __exit__(self, *exc):
        r = self._saved
        builtins.open = r["open"]
        io.open = r["ioopen"]
        for k, v in r.items():
            if k.startswith("os."):
                setattr(os, k[3:], v)
        for m, a, v in self._bound:
            setattr(m, a, v)
        self._saved = None
        return False
