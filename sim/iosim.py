"""The I/O seam: simulated disk, simulated network, simulated processes.

The code under test reads and writes real files below one scratch directory,
but every operation it makes there goes through this module, which decides
which simulated process moves next, and whether the operation succeeds, fails
(disk error, full disk), is torn, or is the last thing the process ever does.

Simulated processes are threads of which exactly one runs at a time: control
is handed over only at the operations of the seam, by the scheduler's choice.
"""
import builtins
import errno
import io
import os
import re
import shutil
import sys
import threading
import time as _time
import urllib.request
import urllib.error
import http.client


class SimCrash(BaseException):
    """The simulated process was killed."""


class Fault:
    """One planned fault: at the n-th operation of a kind."""

    def __init__(self, spec):
        self.spec = dict(spec)
        self.fired = False


_TMP = re.compile(r"[0-9a-f]{16,}|tmp[a-z0-9_]{8}")


class Proc:
    """One simulated process."""

    def __init__(self, pid, faults=()):
        self.pid = pid
        self.nops = 0
        self.kinds = {}
        self.faults = [Fault(f) for f in faults]
        self.dead = False
        self.unsynced = {}
        self.injected = 0
        self.injected_kinds = []
        self.event = None
        self.done = False
        self.result = None
        self.full_disk = None


class Disk:
    """Installs the seam for everything below ``base``."""

    def __init__(self, ctx, base):
        self.ctx = ctx
        self.base = os.path.realpath(base) + os.sep
        self.current = None       # the simulated process that is running
        self.sched = None
        self.real = {}
        self.fd_paths = {}
        self.log_reads = True
        self.net = None
        self.tmpnames = {}
        self.ops_total = 0
        self.opened_raw = []

    # -- names
    def inside(self, path):
        if isinstance(path, int):
            return self.fd_paths.get(path)
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return p if (p + os.sep).startswith(self.base) else None

    def rel(self, p):
        r = p[len(self.base):]

        def sub(m):
            k = m.group(0)
            if k not in self.tmpnames:
                self.tmpnames[k] = "TMP%d" % len(self.tmpnames)
            return self.tmpnames[k]
        return _TMP.sub(sub, r)

    # -- every operation passes here
    def op(self, kind, path, nbytes=0):
        """Returns a fault to apply to this operation, or None."""
        proc = self.current
        if proc is None:
            return None
        if proc.dead:
            raise SimCrash()
        if self.sched is not None:
            self.sched.yield_point(kind)
            proc = self.current
            if proc.dead:
                raise SimCrash()
        proc.nops += 1
        self.ops_total += 1
        proc.kinds[kind] = proc.kinds.get(kind, 0) + 1
        self.ctx.ev(proc.pid, kind, self.rel(path), nbytes)
        if proc.full_disk is not None and kind in ("write", "create",
                                                   "mkdir", "rename"):
            if kind != "rename":
                if proc.full_disk < nbytes or kind != "write":
                    room, proc.full_disk = proc.full_disk, 0
                    self.ctx.fault("disk_full")
                    proc.injected += 1
                    proc.injected_kinds.append("disk_full")
                    return {"kind": "enospc", "keep": room}
                proc.full_disk -= nbytes
        for f in proc.faults:
            s = f.spec
            if f.fired:
                continue
            if s.get("on") and s["on"] != kind:
                continue
            count = proc.kinds[kind] if s.get("on") else proc.nops
            if count != s["at"]:
                continue
            f.fired = True
            k = s["kind"]
            if k == "full":
                proc.full_disk = s.get("room", 0)
                if kind == "write" and nbytes > proc.full_disk:
                    room, proc.full_disk = proc.full_disk, 0
                    self.ctx.fault("disk_full")
                    proc.injected += 1
                    proc.injected_kinds.append("disk_full")
                    return {"kind": "enospc", "keep": room}
                return None
            proc.injected += 1
            proc.injected_kinds.append(k)
            self.ctx.fault(k + ":" + kind)
            self.ctx.ev(proc.pid, "FAULT", k, kind)
            if k == "crash":
                if kind == "write" and s.get("keep") is not None:
                    return {"kind": "torn", "keep": s["keep"],
                            "power": s.get("power")}
                self.kill(proc, s.get("power"))
                raise SimCrash()
            if k == "eio":
                return {"kind": "eio", "keep": s.get("keep", 0)}
            if k == "stall":
                if self.sched is not None:
                    self.sched.stall(s.get("for", 5))
                return None
        return None

    def kill(self, proc, power=None):
        proc.dead = True
        if power is not None:
            # everything that was not fsynced may be lost or torn
            for p, synced in sorted(proc.unsynced.items()):
                try:
                    n = self.real["stat"](p).st_size
                except OSError:
                    continue
                if n > synced:
                    keep = synced + int((n - synced) * power)
                    with self.real["open"](p, "r+b") as f:
                        f.truncate(keep)
                    self.ctx.fault("lost_unsynced")
                    self.ctx.ev(proc.pid, "LOST", self.rel(p), n - keep)

    def raise_for(self, fault, path):
        if fault is None:
            return
        if fault["kind"] == "enospc":
            raise OSError(errno.ENOSPC, "No space left on device", path)
        raise OSError(errno.EIO, "Input/output error", path)

    # -- the patched entry points
    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
        real = self.real["open"]
        p = self.inside(file)
        if p is None or self.current is None or p.endswith(
                (".py", ".pyc")) or "__pycache__" in p:
            return real(file, mode, buffering, encoding, errors, newline,
                        closefd, opener)
        writing = any(c in mode for c in "wax+")
        if not writing:
            f = self.op("read", p)
            self.raise_for(f, p)
            if os.sep + "raw_data" + os.sep in p:
                self.opened_raw.append(p)
            return real(file, mode, buffering, encoding, errors, newline,
                        closefd, opener)
        f = self.op("create", p)
        self.raise_for(f, p)
        rawmode = mode.replace("b", "").replace("t", "")
        raw = real(file, rawmode + "b", 0, closefd=closefd, opener=opener)
        proc = self.current
        if "a" not in rawmode and "r" not in rawmode:
            proc.unsynced[p] = 0
        else:
            proc.unsynced.setdefault(p, os.fstat(raw.fileno()).st_size)
        self.fd_paths[raw.fileno()] = p
        w = SimFile(self, p, raw, proc)
        if "b" in mode:
            if buffering == 0:
                return w
            if "+" in mode:
                return io.BufferedRandom(w)
            return SimBuffered(w)
        if "+" in mode:
            buf = io.BufferedRandom(w)
        else:
            buf = SimBuffered(w)
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)

    def _wrap_path_op(self, name, kind):
        real = self.real[name]

        def f(path, *a, **k):
            if self.current is None:
                return real(path, *a, **k)
            if k.get("dir_fd") is not None:
                base = self.fd_paths.get(k["dir_fd"])
                p = os.path.join(base, os.fspath(path)) if base else None
            else:
                p = self.inside(path)
            if p is None:
                return real(path, *a, **k)
            fault = self.op(kind, p)
            self.raise_for(fault, p)
            return real(path, *a, **k)
        return f

    def _wrap_probe(self, name):
        """Looks at the file system without changing it (exists, listdir)."""
        real = self.real[name]

        def f(path=".", *a, **k):
            if self.current is not None:
                p = self.inside(path)
                if p is not None:
                    if self.current.dead:
                        raise SimCrash()
                    if self.sched is not None:
                        self.sched.yield_point("probe")
                        if self.current.dead:
                            raise SimCrash()
            r = real(path, *a, **k)
            if name == "listdir":
                r = sorted(r)
            return r
        return f

    def _scandir(self, path="."):
        """Directory order is a source of nondeterminism: make it sorted."""
        with self.real["scandir"](path) as it:
            entries = sorted(it, key=lambda e: e.name)
        return SortedScandir(entries)

    def _rename(self, name):
        real = self.real[name]

        def f(src, dst, *a, **k):
            p, q = self.inside(src), self.inside(dst)
            if self.current is None or p is None:
                return real(src, dst, *a, **k)
            fault = self.op("rename", p)
            self.raise_for(fault, p)
            out = real(src, dst, *a, **k)
            un = self.current.unsynced
            if p in un:
                un[q] = un.pop(p)
            self.ctx.ev(self.current.pid, "renamed-to", self.rel(q))
            return out
        return f

    def _osopen(self, path, flags, mode=0o777, *, dir_fd=None):
        real = self.real["os.open"]
        p = self.inside(path) if dir_fd is None else None
        if self.current is None or p is None:
            fd = real(path, flags, mode, dir_fd=dir_fd)
            if self.current is not None and dir_fd is not None and \
                    dir_fd in self.fd_paths:
                self.fd_paths[fd] = os.path.join(
                    self.fd_paths[dir_fd], os.fspath(path))
            return fd
        kind = "create" if flags & (os.O_WRONLY | os.O_RDWR) else "read"
        fault = self.op(kind, p)
        self.raise_for(fault, p)
        fd = real(path, flags, mode)
        self.fd_paths[fd] = p
        if kind == "create" and flags & (os.O_TRUNC | os.O_CREAT):
            self.current.unsynced[p] = 0
        return fd

    def _fsync(self, fd):
        real = self.real["fsync"]
        n = fd if isinstance(fd, int) else fd.fileno()
        p = None
        if self.current is not None:
            try:
                p = self.inside(os.readlink("/proc/self/fd/%d" % n))
            except OSError:
                p = self.fd_paths.get(n)
        if p is None:
            return real(fd)
        fault = self.op("fsync", p)
        self.raise_for(fault, p)
        if p in self.current.unsynced:
            self.current.unsynced[p] = os.fstat(n).st_size
        return None

    def _getpid(self):
        if self.current is not None:
            return 50000 + self.current.pid
        return self.real["getpid"]()

    def install(self):
        r = self.real
        r["open"] = builtins.open
        r["stat"] = os.stat
        r["os.open"] = os.open
        r["fsync"] = os.fsync
        r["getpid"] = os.getpid
        for n in ("mkdir", "remove", "unlink", "rmdir", "rename", "replace",
                  "link", "symlink", "truncate", "listdir", "scandir"):
            r[n] = getattr(os, n)
        builtins.open = self._open
        io.open = self._open
        os.open = self._osopen
        os.fsync = self._fsync
        os.getpid = self._getpid
        os.mkdir = self._wrap_path_op("mkdir", "mkdir")
        os.remove = self._wrap_path_op("remove", "unlink")
        os.unlink = self._wrap_path_op("unlink", "unlink")
        os.rmdir = self._wrap_path_op("rmdir", "rmdir")
        os.rename = self._rename("rename")
        os.replace = self._rename("replace")
        os.scandir = self._scandir
        os.listdir = self._wrap_probe("listdir")
        for n in ("exists", "isfile", "isdir"):
            r["path." + n] = getattr(os.path, n)
        self.real.update(
            {"exists": os.path.exists, "isfile": os.path.isfile,
             "isdir": os.path.isdir})
        for n in ("exists", "isfile", "isdir"):
            setattr(os.path, n, self._wrap_probe(n))
        # the directory-fd version of rmtree would hide its paths
        try:
            shutil._use_fd_functions = False
        except AttributeError:
            pass
        self._install_net()

    def _install_net(self):
        def urlopen(req, data=None, timeout=None, **kw):
            if self.net is None:
                raise urllib.error.URLError("simulated network: unreachable")
            return self.net.urlopen(self, req)

        def retrieve(url, filename=None, reporthook=None, data=None):
            with urlopen(url) as resp, builtins.open(filename, "wb") as f:
                shutil.copyfileobj(resp, f)
                if resp.length:
                    raise urllib.error.ContentTooShortError(
                        "retrieval incomplete", resp.headers)
            return filename, resp.headers
        urllib.request.urlopen = urlopen
        urllib.request.urlretrieve = retrieve


class SortedScandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class SimFile(io.RawIOBase):
    """A file opened for writing by a simulated process."""

    def __init__(self, disk, path, raw, proc):
        self._disk, self._path, self._raw, self._proc = disk, path, raw, proc
        self.name = path

    def readable(self):
        return self._raw.readable()

    def writable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        return self._raw.fileno()

    def readinto(self, b):
        return self._raw.readinto(b)

    def seek(self, off, whence=0):
        return self._raw.seek(off, whence)

    def tell(self):
        return self._raw.tell()

    def truncate(self, size=None):
        return self._raw.truncate(size)

    def write(self, b):
        b = bytes(b)
        d = self._disk
        if d.current is None:      # outside of simulated time
            return self._raw.write(b)
        f = d.op("write", self._path, len(b))
        if f is None:
            view = memoryview(b)
            while view:
                view = view[self._raw.write(view):]
            return len(b)
        keep = f.get("keep") or 0
        keep = int(keep * len(b)) if isinstance(keep, float) else keep
        self._raw.write(b[:max(0, min(keep, len(b)))])
        if f["kind"] == "torn":
            d.kill(d.current, f.get("power"))
            raise SimCrash()
        d.raise_for(f, self._path)

    def close(self):
        if not self.closed:
            try:
                fd = self._raw.fileno()
                if self._disk.fd_paths.get(fd) == self._path:
                    del self._disk.fd_paths[fd]
            except ValueError:
                pass
            self._raw.close()
            super().close()


class SimBuffered(io.BufferedIOBase):
    """Write buffer.  What is still in it when the process dies is gone."""
    SIZE = 8192

    def __init__(self, raw):
        self.raw = raw
        self._buf = bytearray()
        self.name = raw.name

    def writable(self):
        return True

    def readable(self):
        return False

    def seekable(self):
        return True

    def fileno(self):
        return self.raw.fileno()

    def write(self, b):
        b = bytes(b)
        if self.raw._proc.dead:
            raise SimCrash()
        self._buf += b
        if len(self._buf) >= self.SIZE:
            self._flush()
        return len(b)

    def _flush(self):
        if self._buf:
            data = bytes(self._buf)
            self._buf.clear()
            self.raw.write(data)

    def flush(self):
        if self.closed:
            return
        if not self.raw._proc.dead:
            self._flush()

    def seek(self, off, whence=0):
        self.flush()
        return self.raw.seek(off, whence)

    def tell(self):
        return self.raw.tell() + len(self._buf)

    def truncate(self, size=None):
        self.flush()
        return self.raw.truncate(size)

    def close(self):
        if self.closed:
            return
        try:
            if not self.raw._proc.dead:
                self._flush()
        finally:
            self.raw.close()
            super().close()


# ------------------------------------------------------------ the processes

class Scheduler:
    """Runs several simulated processes, one at a time, by seeded choice."""

    def __init__(self, disk, rng, switch=0.5, script=None):
        self.disk, self.rng, self.switch = disk, rng, switch
        self.procs = []
        self.steps = 0
        self.max_steps = 200000
        self.stalled = {}
        self.script = script        # recorded choices, for replay
        self.switches = 0

    def spawn(self, proc, fn):
        proc.event = threading.Event()
        proc.fn = fn
        self.procs.append(proc)

    def _body(self, proc):
        proc.event.wait()
        proc.event.clear()
        self.disk.current = proc
        try:
            proc.result = ("ok", proc.fn())
        except SimCrash:
            proc.result = ("crash", None)
        except BaseException as e:  # noqa
            proc.result = ("error", e)
        proc.done = True
        self._next(proc, finished=True)

    def runnable(self):
        out = [p for p in self.procs if not p.done]
        awake = [p for p in out if self.stalled.get(p.pid, 0) <= self.steps]
        return awake or out

    def _next(self, me, finished=False):
        ready = self.runnable()
        if not ready:
            self.disk.current = None
            self.main_event.set()
            return
        if not finished and me in ready and self.rng.random() > self.switch:
            return
        nxt = ready[self.rng.randrange(len(ready))]
        if nxt is me:
            return
        self.switches += 1
        self.disk.ctx.ev("switch", me.pid if me else "-", nxt.pid)
        self.disk.current = nxt
        nxt.event.set()
        if not finished:
            me.event.wait()
            me.event.clear()
            self.disk.current = me

    def yield_point(self, kind):
        me = self.disk.current
        self.steps += 1
        if self.steps > self.max_steps:
            raise RuntimeError("the simulated processes do not finish")
        self._next(me)

    def stall(self, n):
        me = self.disk.current
        self.stalled[me.pid] = self.steps + n
        self._next(me)

    def run(self):
        self.main_event = threading.Event()
        self.disk.sched = self
        threads = []
        for p in self.procs:
            t = threading.Thread(target=self._body, args=(p,), daemon=True)
            t.start()
            threads.append(t)
        first = self.procs[self.rng.randrange(len(self.procs))]
        self.disk.current = first
        first.event.set()
        if not self.main_event.wait(300):
            raise RuntimeError("simulated processes blocked")
        for t in threads:
            t.join(10)
        self.disk.sched = None
        self.disk.current = None


def run_process(disk, proc, fn):
    """One simulated process on its own; returns (status, value)."""
    disk.current = proc
    disk.sched = None
    try:
        return "ok", fn()
    except SimCrash:
        return "crash", None
    except Exception as e:  # noqa
        return "error", e
    finally:
        disk.current = None


# --------------------------------------------------------------- the network

class Response(io.RawIOBase):
    def __init__(self, net, disk, url, body, fault):
        self.net, self.disk, self.url = net, disk, url
        self._body, self._pos, self._fault = body, 0, fault
        self.status = self.code = 200
        self.reason = self.msg = "OK"
        self.length = len(body)
        self.headers = http.client.HTTPMessage()
        self.chunked = bool(fault and fault.get("chunked"))
        if not self.chunked:
            self.headers["Content-Length"] = str(len(body))
        else:
            self.length = None
        self.end = len(body)
        if fault and fault["kind"] in ("reset", "truncate"):
            self.end = int(len(body) * fault["frac"])
            if self.end >= len(body):
                self.end = max(0, len(body) - 1)

    def geturl(self):
        return self.url

    def info(self):
        return self.headers

    def getheader(self, name, default=None):
        return self.headers.get(name, default)

    def getheaders(self):
        return list(self.headers.items())

    def getcode(self):
        return 200

    def readable(self):
        return True

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)

    def read(self, amt=None):
        proc = self.disk.current
        if proc is not None:
            self.disk.op("recv", self.disk.base + "net")
        whole = amt is None or amt < 0
        want = self.end - self._pos if whole else min(
            amt, self.end - self._pos)
        if not whole and self.net.chunk:
            want = min(want, self.net.chunk)
        data = self._body[self._pos:self._pos + want]
        self._pos += want
        if self.length is not None:
            self.length -= len(data)
        f = self._fault
        if f and (whole or not data) and self._pos >= self.end \
                and self.end < len(self._body):
            if f["kind"] == "reset":
                self.net.hit("reset")
                raise ConnectionResetError(104, "Connection reset by peer")
            if f["kind"] == "truncate":
                self.net.hit("truncate")
                if whole or self.chunked:
                    # as http.client does when it knows the length
                    raise http.client.IncompleteRead(
                        data, len(self._body) - self.end)
                # a bounded read() reports the premature end as end of file
        return data

    def readall(self):
        return self.read()


class Network:
    """Serves ``content(url)`` and applies the planned faults in order."""

    def __init__(self, ctx, content, faults=(), chunk=0):
        self.ctx, self.content = ctx, content
        self.faults = list(faults)
        self.requests = []
        self.chunk = chunk
        self.proc_faults = {}

    def hit(self, kind):
        self.ctx.fault("net_" + kind)

    def urlopen(self, disk, req):
        url = req if isinstance(req, str) else req.full_url
        proc = disk.current
        if proc is not None:
            disk.op("connect", disk.base + "net")
        self.requests.append((proc.pid if proc else None, url))
        self.ctx.ev("GET", url)
        fault = self.faults.pop(0) if self.faults else None
        if fault and fault["kind"] == "none" and not fault.get("chunked"):
            fault = None
        if fault and fault["kind"] != "none":
            if proc is not None:
                proc.injected += 1
                proc.injected_kinds.append("net_" + fault["kind"])
            self.ctx.ev("NETFAULT", fault["kind"])
            if fault["kind"] == "unreachable":
                self.hit("unreachable")
                raise urllib.error.URLError(OSError(
                    -3, "Temporary failure in name resolution"))
            if fault["kind"] == "timeout":
                self.hit("timeout")
                raise TimeoutError("timed out")
            if fault["kind"] == "http":
                self.hit("http_%d" % fault["code"])
                raise urllib.error.HTTPError(
                    url, fault["code"], "simulated",
                    http.client.HTTPMessage(), io.BytesIO(b""))
        body = self.content(url)
        if body is None:
            raise urllib.error.HTTPError(
                url, 404, "Not Found", http.client.HTTPMessage(),
                io.BytesIO(b""))
        return Response(self, disk, url, body, fault)
