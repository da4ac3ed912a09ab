"""The simulated disk: faults at numbered file-system operations, a log of what
was done, and the states a crash could leave behind.

`shim.c` puts every file-system call below a directory behind a seam.  `Disk`
drives it from inside the process under test.  `crash_states` turns a log into
what could be on the disk after a power failure:

- changes of directories (create, rename, remove, truncate) reach the disk in
  the order they were made, some prefix of them before the crash,
- written data reach it in any subset and order, each write whole, torn at a
  512 byte boundary, or not at all, unless the file was synced afterwards,
- a successful fsync of a file makes its data and every directory change made
  before it durable,
- a file whose growth did not reach the disk is shorter or filled with zeros.
"""
import ctypes
import errno
import os
import shutil
import struct
import tempfile

KINDS = {1: "open", 2: "read", 3: "write", 4: "truncate", 5: "fsync", 6: "close", 7: "rename", 8: "unlink", 9: "mkdir",
         10: "rmdir", 11: "link", 12: "chmod", 13: "stat", 14: "access", 15: "opendir", 16: "flock", 17: "readlink"}
GO, FAIL, SHORT, DIE, DIE_PART, DIE_AFTER, STICKY = range(7)
DONE, FAILED, DIED = range(3)
HEAD = struct.Struct("<IIIIQqqQ")

ERRNOS = {
    "open": ["EIO", "ENOSPC", "EMFILE", "EACCES", "EROFS"],
    "read": ["EIO"],
    "write": ["EIO", "ENOSPC", "EDQUOT", "EFBIG"],
    "truncate": ["EIO", "ENOSPC"],
    "fsync": ["EIO", "ENOSPC"],
    "close": ["EIO", "ENOSPC", "EDQUOT"],
    "rename": ["EIO", "ENOSPC", "EACCES", "EXDEV"],
    "unlink": ["EIO", "EACCES"],
    "mkdir": ["EIO", "ENOSPC", "EACCES"],
    "rmdir": ["EIO"],
    "link": ["EIO", "EPERM"],
    "chmod": ["EIO", "EPERM"],
    "stat": ["EIO"],
    "access": ["EIO"],
    "opendir": ["EIO"],
    "flock": ["ENOLCK"],
    "readlink": ["EIO"],
}
MUTATING = ("open", "write", "truncate", "fsync", "close", "rename", "unlink", "mkdir", "rmdir", "link", "chmod")

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["POPSIM_SHIM"])
        _lib.popsim_start.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int]
        _lib.popsim_rule.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int]
        _lib.popsim_quota.argtypes = [ctypes.c_long]
        _lib.popsim_ops.restype = ctypes.c_long
        _lib.popsim_fired.restype = ctypes.c_long
    return _lib


class Disk:
    """Activate the seam on a directory for the length of a block."""

    def __init__(self, base, log=None, ctl=-1):
        self.base = os.path.realpath(base)
        self.log = log
        self.ctl = ctl

    def __enter__(self):
        self.fd = os.open(self.log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_CLOEXEC, 0o600) if self.log else -1
        lib().popsim_start(self.base.encode(), self.ctl, self.fd)
        return self

    def rule(self, op, action, arg=0):
        lib().popsim_rule(op, action, arg)

    def quota(self, n):
        lib().popsim_quota(n)

    def apply(self, fault):
        """Install a fault: [kind, op, detail]."""
        k, op, arg = fault
        if k == "errno":
            self.rule(op, FAIL, getattr(errno, arg))
        elif k == "device_gone":
            self.rule(op, STICKY, getattr(errno, arg))
        elif k == "short":
            self.rule(op, SHORT, arg)
        elif k == "short_then_full":
            self.rule(op, SHORT, arg)
            self.rule(op + 1, STICKY, errno.ENOSPC)
        elif k == "crash":
            self.rule(op, DIE)
        elif k == "crash_torn":
            self.rule(op, DIE_PART, arg)
        elif k == "crash_after":
            self.rule(op, DIE_AFTER)
        elif k == "full":
            self.quota(arg)
        elif k == "eintr":
            self.rule(op, FAIL, errno.EINTR)
        else:
            raise ValueError(k)

    def __exit__(self, *exc):
        self.ops = lib().popsim_ops()
        self.fired = lib().popsim_fired()
        lib().popsim_stop()
        if self.fd >= 0:
            os.close(self.fd)
        return False


def read_log(path):
    out = []
    with open(path, "rb") as f:
        data = f.read()
    i = 0
    while i + HEAD.size <= len(data):
        kind, what, plen, p2len, ino, a, b, dlen = HEAD.unpack_from(data, i)
        i += HEAD.size
        p = data[i:i + plen].decode(errors="surrogateescape")
        i += plen
        p2 = data[i:i + p2len].decode(errors="surrogateescape")
        i += p2len
        d = data[i:i + dlen]
        i += dlen
        out.append({"kind": KINDS[kind], "what": what, "path": p, "path2": p2, "ino": ino, "a": a, "b": b, "data": d})
    return out


def snapshot(base):
    """The tree below base: {relative path: ("dir",) | ("link", target) | ("file", ino, bytes, mode)}."""
    out = {}
    for root, dirs, files in os.walk(base):
        for d in list(dirs):
            p = os.path.join(root, d)
            if os.path.islink(p):
                files.append(d)
            else:
                out[os.path.relpath(p, base)] = ("dir",)
        for f in files:
            p = os.path.join(root, f)
            r = os.path.relpath(p, base)
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p))
            else:
                st = os.stat(p)
                with open(p, "rb") as fh:
                    out[r] = ("file", st.st_ino, fh.read(), st.st_mode & 0o7777)
    return out


class _Inode:
    def __init__(self, data, mode=0o644):
        self.base = data
        self.mode = mode
        self.changes = []       # (op, "w", off, data) or (op, "t", size)
        self.synced = -1


def crash_state(before, log, base, rng):
    """One possible content of the disk after a power failure somewhere in the
    log: {relative path: ...} like snapshot, and a description."""
    n = len(log)
    k = rng.choice([n, n, rng.randrange(n + 1)]) if n else 0     # operations done before the crash
    last_sync = -1
    for i in range(k):
        if log[i]["kind"] == "fsync" and log[i]["what"] == DONE:
            last_sync = i
    meta = rng.choice([k, k, rng.randint(last_sync + 1, k), last_sync + 1])  # directory changes that are durable
    names = {}          # relative path -> ("dir",) / ("link", t) / inode
    inodes = {}

    def rel(p):
        return os.path.relpath(p, base)

    for r, e in before.items():
        if e[0] == "file":
            if e[1] not in inodes:
                inodes[e[1]] = _Inode(e[2], e[3])
            names[r] = inodes[e[1]]
        else:
            names[r] = e
    for i in range(k):
        op = log[i]
        if op["what"] != DONE:
            continue
        kind = op["kind"]
        durable = i < meta
        if kind == "open":
            if op["b"] == 1:
                inodes[op["ino"]] = _Inode(b"")
                if durable:
                    names[rel(op["path"])] = inodes[op["ino"]]
            elif op["b"] == 2 and op["ino"] in inodes:
                inodes[op["ino"]].changes.append((i, "t", 0))
        elif kind == "write" and op["ino"] in inodes:
            inodes[op["ino"]].changes.append((i, "w", op["a"], op["data"]))
        elif kind == "truncate" and op["ino"] in inodes:
            inodes[op["ino"]].changes.append((i, "t", op["a"]))
        elif kind == "fsync" and op["ino"] in inodes:
            inodes[op["ino"]].synced = i
        elif kind == "rename" and durable:
            a, b = rel(op["path"]), rel(op["path2"])
            if a in names:
                if names[a] == ("dir",):
                    for r in [r for r in names if r.startswith(a + "/")]:
                        names[b + r[len(a):]] = names.pop(r)
                names[b] = names.pop(a)
        elif kind == "unlink" and durable:
            names.pop(rel(op["path"]), None)
        elif kind == "mkdir" and durable:
            names[rel(op["path"])] = ("dir",)
        elif kind == "rmdir" and durable:
            names.pop(rel(op["path"]), None)
        elif kind == "link" and durable:
            if op["a"] == 1:
                names[rel(op["path"])] = ("link", op["path2"])
            elif rel(op["path"]) in names:
                names[rel(op["path2"])] = names[rel(op["path"])]
        elif kind == "chmod" and durable:
            e = names.get(rel(op["path"]))
            if isinstance(e, _Inode):
                e.mode = op["a"]
    out = {}
    style = rng.choice(["none", "some", "some", "most"])
    lost = 0
    torn = 0
    final = {}
    for r in sorted(names):
        e = names[r]
        if not isinstance(e, _Inode):
            out[r] = e
            continue
        if id(e) not in final:
            data = bytearray(e.base)
            size_full = len(data)
            for c in e.changes:
                i = c[0]
                if c[1] == "t":
                    if i <= e.synced or i < meta:
                        if c[2] <= len(data):
                            del data[c[2]:]
                        else:
                            data.extend(b"\0" * (c[2] - len(data)))
                        size_full = len(data)
                    continue
                off, d = c[2], c[3]
                size_full = max(size_full, off + len(d))
                if i > e.synced:
                    p = {"none": 0.0, "some": 0.5, "most": 0.85}[style]
                    if rng.random() >= p:
                        lost += 1
                        continue
                    if len(d) > 512 and rng.random() < 0.15:
                        d = d[:512 * rng.randint(1, len(d) // 512)]
                        torn += 1
                if off > len(data):
                    data.extend(b"\0" * (off - len(data)))
                data[off:off + len(d)] = d
            if len(data) < size_full and rng.random() < 0.4:
                data.extend(b"\0" * (size_full - len(data)))
            final[id(e)] = bytes(data)
        out[r] = ("file", 0, final[id(e)], e.mode)
    return out, {"ops": k, "durable_dir_changes": meta, "lost_writes": lost, "torn_writes": torn}


def put(state, target):
    """Write a tree into an empty directory."""
    shutil.rmtree(target, ignore_errors=True)
    os.makedirs(target)
    for r in sorted(state):
        e = state[r]
        p = os.path.join(target, r)
        if e[0] == "dir":
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if e[0] == "link":
                os.symlink(e[1], p)
            else:
                with open(p, "wb") as f:
                    f.write(e[2])
                os.chmod(p, e[3] | 0o600)
