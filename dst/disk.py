"""Simulated disk under one scratch directory.

Real files in the scratch directory play the page cache: whatever the code asks about them (exists, listdir, stat) it gets
from the real file system.  Everything that changes them goes through the calls patched here; each such call is a numbered
point at which the planned fault can strike: an error, a full disk, a short write, an interrupt, the death of the process
(buffers in user space are lost, everything issued so far survives) or of the machine (only what was synced is sure to
survive; a prefix of the later metadata operations and any prefix of unsynced data may).
"""
import builtins
import contextlib
import errno
import io
import os
import shutil

from .core import HarnessError, InjectedInterrupt, InjectedOSError, SimCrash

_real = {}


class Node:
    def __init__(self, data=b""):
        self.data = bytearray(data)     # what the page cache holds
        self.synced = None              # content at the last sync, None = never synced


class _Raw(io.RawIOBase):
    """Unbuffered file whose writes are fault points."""

    def __init__(self, disk, fd, node, append, readable, name):
        self.disk, self.fd, self.node, self._r = disk, fd, node, readable
        self.name = name
        self.pos = len(node.data) if append else 0
        self.append = append
        super().__init__()

    def writable(self):
        return True

    def readable(self):
        return self._r

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.node.data) + off
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        k = min(len(b), len(self.node.data) - self.pos)
        b[:k] = self.node.data[self.pos:self.pos + k]
        self.pos += k
        return k

    def truncate(self, size=None):
        size = self.pos if size is None else size
        self.disk.point("truncate", lambda: self.disk._truncate(self.node, self.fd, size))
        return size

    def write(self, b):
        b = bytes(b)
        k = self.disk.write(self.fd, self.node, len(self.node.data) if self.append else self.pos, b)
        self.pos += k
        return k

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self.disk._forget(self.fd)
                _real["os.close"](self.fd)


class SimDisk:
    def __init__(self, sim, root):
        self.sim, self.root = sim, os.path.realpath(root)
        self.dead = False
        self.count = 0
        self.plan = None                # [point number, kind]
        self.fds = {}                   # fd -> Node
        self.nodes = {}                 # path -> Node (page-cache view of names)
        self.durable = {}               # path -> Node (names sure to survive)
        self.journal = []               # metadata operations since `durable`
        self.ops = {}
        self.fired = None

    # ------------------------------------------------------------------ what the simulator does at each point
    def inside(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p if p.startswith(self.root + os.sep) or p == self.root else None

    def strike(self, op):
        """Which fault, if any, strikes here."""
        if self.dead:
            raise SimCrash("the process is already dead")
        self.count += 1
        self.ops[op] = self.ops.get(op, 0) + 1
        if self.plan is None or self.count < self.plan[0]:
            return None
        kind = self.plan[1]
        if kind in ("short",) and op != "write":
            return None
        if kind == "enospc" and op not in ("write", "create", "mkdir", "fsync", "rename", "link"):
            return None
        self.plan = None
        self.fired = (kind, op)
        self.sim.fired("disk_" + kind)
        self.sim.probe(f"disk_{kind}_at_{op}")
        return kind

    def turn(self, op):
        """Another caller may go first (before the state of the disk is looked at)."""
        sched = self.sim.scheduler
        if sched is not None and not self.dead:
            sched.yield_point("disk:" + op)

    def _raise(self, kind):
        if kind == "enospc":
            raise InjectedOSError(errno.ENOSPC, "injected: no space left on device")
        if kind == "eio":
            raise InjectedOSError(errno.EIO, "injected: input/output error")
        if kind == "interrupt":
            raise InjectedInterrupt("injected: interrupt")
        if kind in ("crash", "power"):
            self.dead = True
            raise SimCrash(kind)
        raise HarnessError(kind)

    def point(self, op, effect=lambda: None):
        kind = self.strike(op)
        if kind is None or kind == "short":
            return effect()
        if kind in ("crash", "power", "interrupt") and self.sim.decide("disk:after", 2):
            try:
                effect()
            except OSError:
                pass                    # the call would have failed; the process dies all the same
        self._raise(kind)

    def write(self, fd, node, pos, b):
        self.turn("write")
        if self.dead:
            return len(b)               # buffers of a dead process go nowhere
        kind = self.strike("write")
        if kind is None:
            return self._put(fd, node, pos, b)
        k = self.sim.decide("disk:bytes", len(b) + 1) if b else 0
        k = len(b) - k                  # benign option: everything arrived
        if kind == "short":
            k = max(1, k)
            return self._put(fd, node, pos, b[:k])
        self._put(fd, node, pos, b[:k])
        self._raise(kind)

    def _put(self, fd, node, pos, b):
        if len(node.data) < pos:
            node.data.extend(b"\0" * (pos - len(node.data)))
        node.data[pos:pos + len(b)] = b
        _real["os.pwrite"](fd, b, pos)
        return len(b)

    def _truncate(self, node, fd, size):
        del node.data[size:]
        _real["os.ftruncate"](fd, size)

    def _forget(self, fd):
        self.fds.pop(fd, None)

    # ------------------------------------------------------------------ patched calls
    def _create(self, p, flags, mode, opener=None):
        """Open p for writing; returns (fd, node)."""
        self.turn("create")
        existed = os.path.exists(p)
        new = flags & os.O_CREAT and not existed
        trunc = flags & os.O_TRUNC and existed
        node = self.nodes.get(p)
        if node is None:
            node = Node()
            if existed:
                with _real["io.open"](p, "rb") as f:
                    node.data = bytearray(f.read())
                node.synced = bytes(node.data)
        box = {}

        def effect():
            box["fd"] = opener(p, flags) if opener else _real["os.open"](p, flags, mode)
            if new:
                self.nodes[p] = node
                self.journal.append(("create", p, node))
            elif p not in self.nodes:
                self.nodes[p] = self.durable[p] = node
            if trunc:
                del node.data[:]
        try:
            self.point("create" if new else "open", effect)
        except BaseException:
            if "fd" in box:
                _real["os.close"](box["fd"])
            raise
        self.fds[box["fd"]] = node
        return box["fd"], node

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            node = self.fds.get(file)
            if node is None:
                return _real["io.open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            fd, p = file, file
        else:
            p = self.inside(file)
            if p is None:
                return _real["io.open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            if not set(mode) & set("wax+"):
                self.turn("read-open")
                self.point("read-open")
                return _real["io.open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            flags = os.O_RDWR | os.O_CLOEXEC
            if "w" in mode:
                flags |= os.O_CREAT | os.O_TRUNC
            elif "x" in mode:
                flags |= os.O_CREAT | os.O_EXCL
            elif "a" in mode:
                flags |= os.O_CREAT
            if opener is not None:
                fd = opener(file, flags)          # goes through the patched os.open
                node = self.fds[fd]
            else:
                fd, node = self._create(p, flags, 0o666)
        raw = _Raw(self, fd, node, "a" in mode, "+" in mode, file)
        if buffering == 0:
            return raw
        buf = io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline)

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = self.inside(path) if dir_fd is None and not isinstance(path, int) else None
        if p is None or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            return _real["os.open"](path, flags, mode, dir_fd=dir_fd)
        return self._create(p, (flags & ~os.O_WRONLY) | os.O_RDWR, mode)[0]

    def os_write(self, fd, b):
        node = self.fds.get(fd)
        if node is None:
            return _real["os.write"](fd, b)
        pos = os.lseek(fd, 0, os.SEEK_CUR)
        k = self.write(fd, node, pos, bytes(b))
        os.lseek(fd, pos + k, os.SEEK_SET)
        return k

    def os_close(self, fd):
        self._forget(fd)
        return _real["os.close"](fd)

    def os_fsync(self, fd):
        fd = fd if isinstance(fd, int) else fd.fileno()
        node = self.fds.get(fd)
        self.turn("fsync")
        if node is None:
            try:
                p = os.readlink(f"/proc/self/fd/{fd}")
            except OSError:
                p = ""
            if p == self.root or p.startswith(self.root + os.sep):
                return self.point("fsync-dir", self._commit)
            return _real["os.fsync"](fd)

        def effect():
            node.synced = bytes(node.data)
        return self.point("fsync", effect)

    def _commit(self):
        for j in self.journal:
            self._apply(self.durable, j)
        self.journal = []

    @staticmethod
    def _apply(names, j):
        if j[0] == "create":
            names[j[1]] = j[2]
        elif j[0] == "rename":
            names.pop(j[1], None)
            names[j[2]] = j[3]
        elif j[0] == "unlink":
            names.pop(j[1], None)

    def _known(self, p):
        if p not in self.nodes and os.path.isfile(p):
            with _real["io.open"](p, "rb") as f:
                n = Node(f.read())
            n.synced = bytes(n.data)
            self.nodes[p] = self.durable[p] = n
        return self.nodes.get(p)

    def os_replace(self, src, dst, **kw):
        a, b = self.inside(src), self.inside(dst)
        if a is None or b is None:
            return _real["os.replace"](src, dst, **kw)
        self.turn("rename")
        node = self._known(a)
        self._known(b)

        def effect():
            _real["os.replace"](src, dst)
            if node is not None:
                self.nodes.pop(a, None)
                self.nodes[b] = node
                self.journal.append(("rename", a, b, node))
        return self.point("rename", effect)

    def os_link(self, src, dst, **kw):
        a, b = self.inside(src), self.inside(dst)
        if a is None or b is None:
            return _real["os.link"](src, dst, **kw)
        self.turn("link")
        node = self._known(a)

        def effect():
            _real["os.link"](src, dst)
            self.nodes[b] = node
            self.journal.append(("create", b, node))
        return self.point("link", effect)

    def os_unlink(self, path, **kw):
        p = self.inside(path)
        if p is None:
            return _real["os.unlink"](path, **kw)
        self.turn("unlink")
        self._known(p)

        def effect():
            _real["os.unlink"](path)
            self.nodes.pop(p, None)
            self.journal.append(("unlink", p))
        return self.point("unlink", effect)

    def os_mkdir(self, path, *a, **kw):
        self.turn("mkdir")
        p = self.inside(path)
        if p is None:
            return _real["os.mkdir"](path, *a, **kw)
        return self.point("mkdir", lambda: _real["os.mkdir"](path, *a, **kw))

    # ------------------------------------------------------------------ life cycle
    @contextlib.contextmanager
    def mounted(self):
        """Patch the process's file calls for the time of the block."""
        if _real:
            raise HarnessError("one simulated disk at a time")
        table = [(builtins, "open", self.open), (io, "open", self.open), (os, "open", self.os_open),
                 (os, "write", self.os_write), (os, "close", self.os_close), (os, "fsync", self.os_fsync),
                 (os, "fdatasync", self.os_fsync), (os, "replace", self.os_replace), (os, "rename", self.os_replace),
                 (os, "link", self.os_link), (os, "unlink", self.os_unlink), (os, "remove", self.os_unlink),
                 (os, "mkdir", self.os_mkdir)]
        saved = [(m, k, getattr(m, k)) for m, k, _ in table]
        _real.update({"io.open": io.open, "os.open": os.open, "os.write": os.write, "os.close": os.close, "os.fsync": os.fsync,
                      "os.replace": os.replace, "os.link": os.link, "os.unlink": os.unlink, "os.mkdir": os.mkdir,
                      "os.pwrite": os.pwrite, "os.ftruncate": os.ftruncate})
        fast = getattr(shutil, "_USE_CP_SENDFILE", None)
        try:
            for m, k, v in table:
                setattr(m, k, v)
            if fast is not None:
                shutil._USE_CP_SENDFILE = False
            yield self
        finally:
            for m, k, v in saved:
                setattr(m, k, v)
            if fast is not None:
                shutil._USE_CP_SENDFILE = fast
            _real.clear()

    def sync(self):
        """Time passes: the operating system writes everything back."""
        for n in self.nodes.values():
            n.synced = bytes(n.data)
        self.durable = dict(self.nodes)
        self.journal = []

    def restart(self):
        """The machine or process comes back (call unmounted): what survives becomes the state of the directory."""
        power = self.fired is not None and self.fired[0] == "power"
        self.dead = False
        self.fds = {}
        if power:
            names = dict(self.durable)
            k = len(self.journal) - self.sim.decide("disk:journal", len(self.journal) + 1)
            for j in self.journal[:k]:
                self._apply(names, j)
            known = set(self.nodes) | set(self.durable)
            for p in known - set(names):
                if os.path.isfile(p):
                    os.unlink(p)
            for p, node in names.items():
                data, base = bytes(node.data), node.synced
                if base != data:
                    lo = len(base) if base is not None and data.startswith(base) else 0
                    cut = len(data) - self.sim.decide("disk:unsynced", len(data) - lo + 1)
                    data = data[:cut]
                    self.sim.probe("unsynced_data_at_power_loss")
                node.data, node.synced = bytearray(data), data
                with open(p, "wb") as f:
                    f.write(data)
            self.nodes, self.durable = dict(names), dict(names)
        self.sync()
        self.fired = None
        self.count = 0
