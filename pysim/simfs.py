"""Seam under Python's file objects: raw files below a scratch directory whose
opens, reads, writes and closes can fail, be short, or be cut off by a crash.
Must be imported before numpy, astropy and the package."""
import builtins
import errno
import io
import os

REAL_OPEN = io.open
REAL_FILEIO = io.FileIO


class Crash(BaseException):
    """The process is killed here: nothing after this point takes effect."""


class FS:
    root = None        # only files below are simulated
    ctl = None
    p = 0.0            # probability of a fault per event
    armed = False
    dead = False
    full = False
    fired = []         # faults that took effect since arm()
    kinds = ()

    @classmethod
    def arm(cls, ctl, p, kinds=("open", "write", "close", "read", "crash")):
        cls.ctl, cls.p, cls.armed, cls.dead, cls.full, cls.fired, cls.kinds = ctl, p, True, False, False, [], kinds

    @classmethod
    def disarm(cls):
        cls.armed = cls.dead = cls.full = False

    @classmethod
    def event(cls, stream, n):
        """0 or the number of the fault to apply."""
        if not cls.armed:
            return 0
        cls.ctl.count("io_" + stream)
        return cls.ctl.chance("fs." + stream, cls.p, n)

    @classmethod
    def fire(cls, what):
        cls.fired.append(what)
        cls.ctl.fault(what)
        cls.ctl.note(what, cls.ctl.pos)


SIM_FDS = set()        # descriptors opened below the root


def inside(path):
    if isinstance(path, int) and path in SIM_FDS:
        return True
    if FS.root is None or not isinstance(path, (str, bytes, os.PathLike)):
        return False
    p = os.path.abspath(os.fsdecode(path))
    return p == FS.root or p.startswith(FS.root + os.sep)


def dead():
    if FS.dead:
        raise Crash()


def crash():
    FS.fire("crash")
    FS.dead = True
    raise Crash()


def open_fault(file, writing):
    dead()
    if "open" not in FS.kinds:
        return
    v = FS.event("open", 5 if "crash" in FS.kinds else 4)
    if v == 5:
        crash()
    if v:
        e = (errno.EACCES, errno.ENOSPC if writing else errno.EIO, errno.EMFILE, errno.EIO)[v - 1]
        FS.fire("open_error")
        raise OSError(e, os.strerror(e), os.fspath(file))


def write_fault(m, write):
    if FS.dead:
        return len(m)
    if FS.full:
        raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
    v = FS.event("write", 5) if "write" in FS.kinds else 0
    if v == 1:
        FS.fire("disk_full")
        FS.full = True
        write(m[:len(m) * (1 + FS.ctl.pick("fs.part", 3)) // 4])
        raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
    if v == 2:
        FS.fire("write_error")
        raise OSError(errno.EIO, os.strerror(errno.EIO))
    if v == 3 and len(m) > 1:
        FS.ctl.fault("short_write")
        return write(m[:1 + FS.ctl.pick("fs.part", len(m) - 1)])
    if v == 4:
        FS.fire("write_error")
        write(m[:len(m) // 2])
        raise OSError(errno.EDQUOT, os.strerror(errno.EDQUOT))
    if v == 5 and "crash" in FS.kinds:
        write(m[:FS.ctl.pick("fs.part", len(m) + 1)])
        crash()
    return write(m)


def close_fault(fd, close):
    v = FS.event("close", 2) if "close" in FS.kinds else 0
    if v:
        # a deferred write error is reported, and the data are lost
        FS.fire("close_error")
        try:
            os.ftruncate(fd, os.fstat(fd).st_size * FS.ctl.pick("fs.part", 4) // 4)
        finally:
            close()
        e = errno.EIO if v == 1 else errno.ENOSPC
        raise OSError(e, os.strerror(e))
    return close()


class SimRaw(REAL_FILEIO):
    def __init__(self, file, mode="r", closefd=True, opener=None):
        self._sim = inside(file)
        if self._sim and FS.armed:
            if not isinstance(file, int):
                open_fault(file, "r" not in mode or "+" in mode)
        super().__init__(file, mode, closefd, opener)

    def write(self, b):
        if not self._sim or not FS.armed:
            return super().write(b)
        return write_fault(memoryview(b).cast("B"), super().write)

    def readinto(self, b):
        if not self._sim or not FS.armed or "read" not in FS.kinds:
            return super().readinto(b)
        v = FS.event("read", 3)
        if v == 1:
            FS.fire("read_error")
            raise OSError(errno.EIO, os.strerror(errno.EIO))
        m = memoryview(b).cast("B")
        if v == 2 and len(m) > 1:
            FS.ctl.fault("short_read")
            return super().readinto(m[:1 + FS.ctl.pick("fs.part", len(m) - 1)])
        return super().readinto(b)

    def readall(self):
        if not self._sim:
            return super().readall()
        out = b""
        buf = bytearray(4096)
        while True:
            n = self.readinto(buf)
            if not n:
                return out
            out += bytes(buf[:n])

    def read(self, n=-1):
        if not self._sim:
            return super().read(n)
        if n is None or n < 0:
            return self.readall()
        buf = bytearray(n)
        k = self.readinto(buf)
        return bytes(buf[:k])

    def close(self):
        if self.closed or not self._sim or not FS.armed or FS.dead or not self.writable():
            return super().close()
        SIM_FDS.discard(self.fileno())
        return close_fault(self.fileno(), super().close)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not inside(file):
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    rawmode = "".join(c for c in mode if c in "rwxa") + ("+" if "+" in mode else "")
    raw = SimRaw(file, rawmode, closefd, opener)
    if binary and buffering == 0:
        return raw
    size = buffering if buffering > 1 else 512
    buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedReader(raw, size) if "r" in mode else io.BufferedWriter(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    t.mode = mode
    return t


REAL = {n: getattr(os, n) for n in ("open", "write", "close", "rename", "replace", "fsync", "read", "pwrite", "writev")}


def on(fd):
    return fd in SIM_FDS and FS.armed


def os_open(path, flags, mode=0o777, *, dir_fd=None):
    sim = dir_fd is None and inside(path) and FS.armed
    if sim:
        open_fault(path, bool(flags & (os.O_WRONLY | os.O_RDWR)))
    fd = REAL["open"](path, flags, mode, dir_fd=dir_fd)
    if sim:
        SIM_FDS.add(fd)
    return fd


def os_write(fd, data):
    if not on(fd):
        return REAL["write"](fd, data)
    return write_fault(memoryview(data).cast("B"), lambda m: REAL["write"](fd, m))


def os_pwrite(fd, data, offset):
    if not on(fd):
        return REAL["pwrite"](fd, data, offset)
    return write_fault(memoryview(data).cast("B"), lambda m: REAL["pwrite"](fd, m, offset))


def os_writev(fd, buffers):
    if not on(fd):
        return REAL["writev"](fd, buffers)
    return write_fault(memoryview(b"".join(bytes(b) for b in buffers)), lambda m: REAL["write"](fd, m))


def os_read(fd, n):
    if not on(fd) or "read" not in FS.kinds:
        return REAL["read"](fd, n)
    v = FS.event("read", 3)
    if v == 1:
        FS.fire("read_error")
        raise OSError(errno.EIO, os.strerror(errno.EIO))
    if v == 2 and n > 1:
        FS.ctl.fault("short_read")
        n = 1 + FS.ctl.pick("fs.part", n - 1)
    return REAL["read"](fd, n)


def os_close(fd):
    sim = on(fd)
    SIM_FDS.discard(fd)
    if not sim or FS.dead:
        return REAL["close"](fd)
    return close_fault(fd, lambda: REAL["close"](fd))


def mover(name):
    def move(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        go = lambda: REAL[name](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        if not FS.armed or not inside(dst):
            return go()
        dead()
        v = FS.event("rename", 4 if "crash" in FS.kinds else 2)
        if v == 1 or v == 2:
            FS.fire("rename_error")
            e = errno.EIO if v == 1 else errno.ENOSPC
            raise OSError(e, os.strerror(e), os.fspath(src), None, os.fspath(dst))
        if v == 3:
            crash()
        go()
        if v == 4:
            crash()
    return move


def os_fsync(fd):
    if not on(fd):
        return REAL["fsync"](fd)
    dead()
    if FS.event("fsync", 1):
        FS.fire("fsync_error")
        raise OSError(errno.EIO, os.strerror(errno.EIO))
    return REAL["fsync"](fd)


def install():
    io.FileIO = SimRaw
    io.open = sim_open
    builtins.open = sim_open
    os.open, os.write, os.pwrite, os.writev, os.read, os.close, os.fsync = os_open, os_write, os_pwrite, os_writev, os_read, os_close, os_fsync
    os.rename, os.replace = mover("rename"), mover("replace")


install()
