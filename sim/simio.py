"""Driver for libsimio.so: fault plans, operation logs, and crash-image reconstruction."""
import ctypes
import errno
import os

OPEN, READ, WRITE, TRUNC, SYNC, RENAME, UNLINK, LINK, MKDIR, CLOSE = range(10)
CLS = {"open": OPEN, "read": READ, "write": WRITE, "trunc": TRUNC, "sync": SYNC, "rename": RENAME, "unlink": UNLINK, "link": LINK, "mkdir": MKDIR, "close": CLOSE}
NAMES = {v: k for k, v in CLS.items()}
ACT = {"err": 0, "short": 1, "eof": 2}


class _Rec(ctypes.Structure):
    _fields_ = [("cls", ctypes.c_int), ("flags", ctypes.c_int), ("off", ctypes.c_long), ("len", ctypes.c_long), ("res", ctypes.c_long),
                ("ino", ctypes.c_ulong), ("p1", ctypes.c_char_p), ("p2", ctypes.c_char_p), ("data", ctypes.c_void_p)]


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["SIMIO_LIB"])
        _lib.simio_rec.restype = ctypes.POINTER(_Rec)
        for f in ("simio_count", "simio_nrecs", "simio_fired", "simio_open_fds", "simio_space_fired"):
            getattr(_lib, f).restype = ctypes.c_long
        _lib.simio_rec.argtypes = [ctypes.c_long]
        _lib.simio_arm.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_char_p]
        _lib.simio_space.argtypes = [ctypes.c_long]
        assert _lib.simio_version() == 3
    return _lib


def set_root(path):
    lib().simio_root(path.encode())


def reset(log=False):
    lib().simio_reset(1 if log else 0)


def disarm():
    lib().simio_disarm()


def count(cls):
    return lib().simio_count(CLS[cls])


class Faults:
    """Context manager that arms a list of fault dicts and reports which fired.

    fault = {"cls": "read", "nth": 3, "act": "err"|"short"|"eof", "err": "EIO", "param": 17, "sticky": 0, "match": ""}
          | {"space": 4096}                      full disk after this many bytes of growth
    """

    def __init__(self, faults, log=False):
        self.faults = faults
        self.log = log
        self.fired = {}

    def __enter__(self):
        reset(self.log)
        self._idx = []
        for f in self.faults:
            if "space" in f:
                lib().simio_space(int(f["space"]))
                self._idx.append(None)
            else:
                i = lib().simio_arm(CLS[f["cls"]], int(f["nth"]), ACT[f["act"]], getattr(errno, f.get("err", "EIO")), int(f.get("param", 0)),
                                    int(f.get("sticky", 0)), f.get("match", "").encode())
                self._idx.append(i)
        return self

    def __exit__(self, *exc):
        for f, i in zip(self.faults, self._idx):
            if i is None:
                n, name = lib().simio_space_fired(), "disk_full"
            else:
                n = lib().simio_fired(i)
                name = f"{f['cls']}:{f.get('err', 'EIO') if f['act'] == 'err' else f['act']}"
            if n:
                self.fired[name] = self.fired.get(name, 0) + int(n)
        self.counts = {k: count(k) for k in CLS}
        disarm()
        return False

    @property
    def n_fired(self):
        return sum(self.fired.values())

    @property
    def hard(self):
        """Fired faults that are errors or lost data (as opposed to legal short transfers / EINTR)."""
        return sum(v for k, v in self.fired.items() if not k.endswith(":short") and not k.endswith(":EINTR"))


class Op:
    __slots__ = ("cls", "flags", "off", "len", "res", "ino", "p1", "p2", "data")

    def __repr__(self):
        p = os.path.basename(self.p1 or "")
        if self.cls == WRITE:
            return f"write({p},{self.off},{self.len})={self.res}"
        if self.cls == RENAME:
            return f"rename({p},{os.path.basename(self.p2)})={self.res}"
        return f"{NAMES[self.cls]}({p},{self.off})={self.res}"


def log_ops():
    """The mutating operations logged since reset(log=True), in program order."""
    out = []
    n = lib().simio_nrecs()
    for i in range(n):
        r = lib().simio_rec(i).contents
        o = Op()
        o.cls, o.flags, o.off, o.len, o.res, o.ino = r.cls, r.flags, r.off, r.len, r.res, r.ino
        o.p1 = r.p1.decode() if r.p1 else None
        o.p2 = r.p2.decode() if r.p2 else None
        o.data = ctypes.string_at(r.data, r.res) if r.data else None
        if o.cls == OPEN and not (o.flags & (os.O_CREAT | os.O_TRUNC)):
            continue
        if o.cls == CLOSE:
            continue
        if o.res is not None and o.res < 0:
            continue
        out.append(o)
    return out


def snapshot(d):
    """{relative path: bytes} plus inode map of the files below d."""
    files, inos = {}, {}
    for base, _dirs, names in os.walk(d):
        for n in sorted(names):
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                files[p] = f.read()
            inos[p] = os.stat(p).st_ino
    return files, inos


class DiskModel:
    """Replays logged operations onto a snapshot to obtain the directory a crash would leave.

    volatile view : what another process sees now, and what survives a process kill.
    power-loss view: namespace operations persist in order up to some point; file data not covered by an fsync may be lost
                     or only partly present, chosen by the caller's rng.
    """

    def __init__(self, snap):
        files, inos = snap
        self.node = {}       # node id -> bytearray (volatile)
        self.ino2node = {}   # live inode -> node id
        self.names = {}      # path -> node id (volatile namespace)
        self.durable = {}    # node id -> bytes known durable
        self.pending = {}    # node id -> list of data ops since last fsync
        self.nsops = []      # namespace ops not yet covered by a directory fsync
        self.dnames = {}     # durable namespace
        self._next = 0
        for p, b in files.items():
            nid = self._new(bytearray(b))
            self.durable[nid] = bytes(b)
            self.ino2node[inos[p]] = nid
            self.names[p] = nid
        self.dnames = dict(self.names)

    def _new(self, buf):
        nid = self._next
        self._next += 1
        self.node[nid] = buf
        self.durable[nid] = b""
        self.pending[nid] = []
        return nid

    @staticmethod
    def _apply(buf, op):
        if op[0] == "w":
            _, off, data = op
            if len(buf) < off:
                buf.extend(b"\0" * (off - len(buf)))
            buf[off:off + len(data)] = data
        else:
            n = op[1]
            if len(buf) > n:
                del buf[n:]
            else:
                buf.extend(b"\0" * (n - len(buf)))

    def _data(self, nid, op):
        self._apply(self.node[nid], op)
        self.pending[nid].append(op)

    def apply(self, o, torn=None):
        """Apply one logged op; torn = number of bytes of a write that made it."""
        if o.cls == OPEN:
            if o.p1 in self.names and (o.off or not (o.flags & os.O_CREAT)):
                nid = self.names[o.p1]
                self.ino2node[o.ino] = nid
                if o.flags & os.O_TRUNC:
                    self._data(nid, ("t", 0))
            else:
                nid = self._new(bytearray())
                self.ino2node[o.ino] = nid
                self.names[o.p1] = nid
                self.nsops.append(("create", o.p1, nid))
        elif o.cls == WRITE:
            data = o.data if torn is None else o.data[:torn]
            if data and o.ino in self.ino2node:
                self._data(self.ino2node[o.ino], ("w", o.off, data))
        elif o.cls == TRUNC:
            if o.ino in self.ino2node:
                self._data(self.ino2node[o.ino], ("t", o.off))
        elif o.cls == SYNC:
            if o.flags:  # directory
                self.dnames = dict(self.names)
                self.nsops = []
            elif o.ino in self.ino2node:
                nid = self.ino2node[o.ino]
                self.durable[nid] = bytes(self.node[nid])
                self.pending[nid] = []
        elif o.cls == RENAME:
            if o.p1 in self.names:
                nid = self.names.pop(o.p1)
                self.names[o.p2] = nid
                self.nsops.append(("rename", o.p1, o.p2))
        elif o.cls == UNLINK:
            if self.names.pop(o.p1, None) is not None:
                self.nsops.append(("unlink", o.p1))
        elif o.cls == LINK:
            if o.p1 in self.names:
                self.names[o.p2] = self.names[o.p1]
                self.nsops.append(("link", o.p1, o.p2))

    def volatile_image(self):
        return {p: bytes(self.node[n]) for p, n in self.names.items()}

    def power_loss_image(self, rng):
        """One legal post-power-loss image."""
        k = rng.randint(0, len(self.nsops)) if rng.random() < 0.7 else len(self.nsops)
        names = dict(self.dnames)
        for op in self.nsops[:k]:
            if op[0] == "create":
                names[op[1]] = op[2]
            elif op[0] == "rename":
                if op[1] in names:
                    names[op[2]] = names.pop(op[1])
            elif op[0] == "unlink":
                names.pop(op[1], None)
            elif op[0] == "link" and op[1] in names:
                names[op[2]] = names[op[1]]
        img = {}
        for p, nid in names.items():
            buf = bytearray(self.durable[nid])
            ops = self.pending[nid]
            mode = rng.choice(["none", "prefix", "subset", "all"])
            if mode == "all":
                keep = ops
            elif mode == "none":
                keep = []
            elif mode == "prefix":
                keep = ops[: rng.randint(0, len(ops))]
            else:
                keep = [o for o in ops if rng.random() < 0.5]
            for o in keep:
                self._apply(buf, o)
            img[p] = bytes(buf)
        return img


def write_image(img, src_root, dst_root):
    for p, b in img.items():
        q = dst_root + p[len(src_root):]
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(b)
