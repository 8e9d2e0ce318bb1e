"""The seams: standard-library entry points replaced before snmp is imported.

Nothing in /repo is modified.  Each patched function talks to the kernel of the
run in progress; with no run in progress it behaves like a trivial
single-threaded version (locks) or like the original (everything else).
"""

import _random
import _thread
import errno
import gc
import os
import random
import select
import selectors
import socket
import sys
import threading
import time
import weakref

from . import kernel as K
from .kernel import SEC

_real = {}


def active():
    k = K.KERNEL
    if k is None:
        return None
    cur = k.cur
    if cur is None or cur.ident != _thread.get_ident():
        return None
    return k


# ---------------------------------------------------------------- locks
class SimLock:
    """threading.Lock"""
    __slots__ = ("_locked", "_waiters", "_owner", "__weakref__")

    def __init__(self):
        self._locked = False
        self._waiters = []
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        if timeout != -1 and not blocking:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if timeout < 0 and timeout != -1:
            raise ValueError("timeout value must be a non-negative number")
        if timeout != -1 and timeout > threading.TIMEOUT_MAX:
            raise OverflowError("timeout value is too large")
        k = active()
        if k is None or k.killing:
            if not blocking and self._locked:
                return False
            self._locked = True
            return True
        k.yield_point("acquire")
        if not self._locked:
            self._locked = True
            self._owner = k.cur.tid
            return True
        if not blocking:
            return False
        deadline = None
        if timeout != -1:
            deadline = k.now + int(timeout * SEC)
            if timeout > 0:
                # no timed wait is shorter than the timer slack of the system
                deadline = max(deadline, k.now + 50000)
        while self._locked:
            if deadline is not None and k.now >= deadline:
                return False
            self._waiters.append(k.cur)
            try:
                k.block(f"lock held by thread {self._owner}", deadline,
                        interruptible=True)
            finally:
                if k.cur in self._waiters:
                    self._waiters.remove(k.cur)
        self._locked = True
        self._owner = k.cur.tid
        return True

    def _force_release(self):
        self._locked = False
        self._owner = None
        k = K.KERNEL
        if k is not None:
            for t in self._waiters:
                k.wake(t)
        self._waiters = []

    def release(self):
        k = active()
        if k is None or k.killing:
            self._locked = False
            return
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._force_release()
        k.yield_point("release")

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self.__init__()

    def __repr__(self):
        return "<%s SimLock>" % ("locked" if self._locked else "unlocked")


def make_lock():
    return SimLock()


class SimRLock:
    __slots__ = ("_block", "_owner", "_count", "__weakref__")

    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    __enter__ = acquire

    def release(self):
        if self._owner != _thread.get_ident():
            k = active()
            if k is None or k.killing:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, *args):
        self.release()

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        if self._count == 0:
            raise RuntimeError("cannot release un-acquired lock")
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return state

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self.__init__()


# ---------------------------------------------------------------- threads
_tls = {}


def start_new_thread(function, args=(), kwargs=None):
    k = active()
    if k is None:
        if K.KERNEL is not None and K.KERNEL.killing:
            raise K.SimKill()
        return _real["start_new_thread"](function, args, kwargs or {})
    if k.faults.decide("thread_err", k.cfg.get("thread_err", 0.0)) is not None:
        k.note("thread_err")
        raise RuntimeError("can't start new thread")
    n = len(k.threads)

    def body():
        function(*args, **(kwargs or {}))
    t = k.spawn(body, f"thread-{n}")
    k.yield_point("start")
    return t.tid


def set_sentinel():
    k = active()
    if k is None:
        return _real["_set_sentinel"]()
    lock = SimLock()
    k.cur.sentinel = lock
    return lock


# ---------------------------------------------------------------- clocks
def _clock(name, reader, ns):
    real = getattr(time, name)

    def fn():
        k = active()
        if k is None or k.killing:
            return real()
        if not k.in_kernel:
            k.yield_point("clock")
        v = reader(k)
        return v if ns else v / 1e9
    fn.__name__ = name
    return fn


_REAL_SLEEP = time.sleep


def sim_sleep(secs):
    k = active()
    if k is None:
        return _REAL_SLEEP(secs)
    if secs < 0:
        raise ValueError("sleep length must be non-negative")
    k.block("sleep", k.now + int(secs * SEC), interruptible=True)


# ---------------------------------------------------------------- fds
FD_BASE = 1000


class OpenFds(dict):
    """fd -> object; sockets are held weakly, since a socket that nothing else
    refers to is collected, which closes it"""

    def __setitem__(self, fd, obj):
        dict.__setitem__(self, fd, weakref.ref(obj) if isinstance(obj, SimSocket) else obj)

    def __getitem__(self, fd):
        obj = dict.__getitem__(self, fd)
        return obj() if type(obj) is weakref.ref else obj

    def get(self, fd, default=None):
        return self[fd] if fd in self else default


class FdTable:
    def __init__(self):
        self.open = OpenFds()
        self.log = []       # (op, fd, what)
        self.opened = 0
        self.closed = 0
        self.bad_close = []

    def alloc(self, obj):
        fd = FD_BASE
        while fd in self.open:
            fd += 1
        self.open[fd] = obj
        self.opened += 1
        return fd

    def close(self, fd):
        if fd not in self.open:
            self.bad_close.append(fd)
            raise OSError(errno.EBADF, "Bad file descriptor")
        del self.open[fd]
        self.closed += 1


class Pipe:
    def __init__(self):
        self.data = bytearray()
        self.pollers = []
        self.readers = []
        self.r_open = self.w_open = True


class PipeEnd:
    def __init__(self, pipe, write):
        self.pipe = pipe
        self.write = write
        self.kind = "pipe"

    def readable(self):
        return not self.write and (self.pipe.data or not self.pipe.w_open)

    @property
    def pollers(self):
        return self.pipe.pollers


def sim_pipe():
    k = active()
    if k is None:
        return _real["pipe"]()
    k.yield_point("pipe")
    io_fail(k, "fd_err", errno.EMFILE)
    p = Pipe()
    r = k.fds.alloc(PipeEnd(p, False))
    w = k.fds.alloc(PipeEnd(p, True))
    return r, w


def sim_pipe2(flags):
    k = active()
    if k is None:
        return _real["pipe2"](flags)
    return sim_pipe()


def lookup(k, fd):
    try:
        return k.fds.open[fd]
    except KeyError:
        raise OSError(errno.EBADF, "Bad file descriptor") from None


def sim_read(fd, n):
    k = active()
    if k is None or fd < FD_BASE:
        return _real["read"](fd, n)
    k.yield_point("read")
    end = lookup(k, fd)
    pipe = end.pipe
    while not pipe.data:
        if not pipe.w_open:
            return b""
        pipe.readers.append(k.cur)
        try:
            k.block("pipe read", None, interruptible=True)
        finally:
            if k.cur in pipe.readers:
                pipe.readers.remove(k.cur)
    data = bytes(pipe.data[:n])
    del pipe.data[:n]
    return data


def sim_write(fd, data):
    k = active()
    if k is None or fd < FD_BASE:
        return _real["write"](fd, data)
    if k.killing:
        return len(data)
    k.yield_point("write")
    end = lookup(k, fd)
    if not end.write:
        raise OSError(errno.EBADF, "Bad file descriptor")
    end.pipe.data += data
    for t in end.pipe.readers:
        k.wake(t)
    wake_pollers(k, end.pipe.pollers)
    k.yield_point("write")
    return len(data)


def sim_close(fd):
    k = active()
    if k is None or not isinstance(fd, int) or fd < FD_BASE:
        return _real["close"](fd)
    if k.killing:
        return
    end = k.fds.open.get(fd)
    k.fds.close(fd)
    if isinstance(end, PipeEnd):
        if end.write:
            end.pipe.w_open = False
        else:
            end.pipe.r_open = False
    elif isinstance(end, SimSocket):
        end._sim_release(k)
    k.note("close", fd)


def wake_pollers(k, pollers):
    for t in list(pollers):
        k.wake(t)


def io_fail(k, kind, *errnos):
    p = k.faults.decide(kind, k.cfg.get(kind, 0.0))
    if p is not None:
        e = errnos[int(p * len(errnos))]
        k.note(kind, errno.errorcode[e])
        raise OSError(e, os.strerror(e))


# ---------------------------------------------------------------- sockets
class SimSocket:
    """socket.socket, datagram only, on the simulated network"""

    def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM,
                 proto=0, fileno=None):
        self._fd = -1
        k = active()
        if k is None:
            if K.KERNEL is not None and K.KERNEL.killing:
                raise K.SimKill()
            raise K.HarnessError("socket created outside a simulation run")
        k.yield_point("socket")
        if type & 0xf != socket.SOCK_DGRAM:
            raise K.HarnessError("only datagram sockets are simulated")
        io_fail(k, "fd_err", errno.EMFILE)
        self.family = family if family != -1 else socket.AF_INET
        self.type = socket.SOCK_DGRAM
        self.proto = 0
        self._blocking = True
        self._timeout = None
        self._queue = []
        self._addr = None
        self._peer = None
        self._fd = k.fds.alloc(self)
        self.pollers = []
        self.readers = []
        self.kind = "socket"
        self._k = k
        self._opts = {}

    # -- identity
    def fileno(self):
        return self._fd

    def detach(self):
        fd, self._fd = self._fd, -1
        return fd

    def readable(self):
        return bool(self._queue)

    # -- modes
    def setblocking(self, flag):
        self._blocking = bool(flag)
        self._timeout = None if flag else 0.0

    def getblocking(self):
        return self._blocking

    def settimeout(self, value):
        self._timeout = value
        self._blocking = value != 0.0

    def gettimeout(self):
        return self._timeout if self._blocking else 0.0

    def setsockopt(self, level, opt, value=None, *rest):
        self._opts[(level, opt)] = value

    def getsockopt(self, level, opt, *rest):
        return self._opts.get((level, opt), 0)

    # -- addresses
    def _wild(self):
        return "0.0.0.0" if self.family == socket.AF_INET else "::"

    def _tuple(self, addr):
        if self.family == socket.AF_INET6:
            return addr[0], addr[1], 0, 0
        return addr

    def bind(self, addr):
        k = self._check()
        k.yield_point("bind")
        host, port = addr[0], addr[1]
        if host == "":
            host = self._wild()
        io_fail(k, "bind_err", errno.EADDRINUSE, errno.EADDRNOTAVAIL, errno.EACCES)
        port = k.net.bind(self, host, port)
        self._addr = (host, port)
        k.note("bind", host, port)

    def connect(self, addr):
        k = self._check()
        if self._addr is None:
            self._addr = (self._wild(), k.net.bind(self, self._wild(), 0))
        self._peer = (addr[0], addr[1])

    def getsockname(self):
        self._check()
        if self._addr is None:
            return self._tuple((self._wild(), 0))
        return self._tuple(self._addr)

    def getpeername(self):
        if self._peer is None:
            raise OSError(errno.ENOTCONN, "not connected")
        return self._tuple(self._peer)

    def _check(self):
        k = active()
        if k is None or k.killing:
            raise K.SimKill()
        if self._fd < 0:
            raise OSError(errno.EBADF, "Bad file descriptor")
        return k

    # -- data
    def sendto(self, data, *args):
        addr = args[-1]
        k = self._check()
        k.yield_point("sendto")
        data = bytes(data)
        if not isinstance(addr[0], str):
            raise TypeError("host must be a string")
        try:
            socket.inet_pton(self.family, addr[0])
        except OSError:
            raise socket.gaierror(socket.EAI_NONAME, "Name or service not known")
        if not 0 <= addr[1] <= 0xffff:
            raise OverflowError("sendto(): port must be 0-65535.")
        if len(data) > 65507:
            raise OSError(errno.EMSGSIZE, "Message too long")
        if self._addr is None:
            self._addr = (self._wild(), k.net.bind(self, self._wild(), 0))
        loop = addr[0] in ("127.0.0.1", "::1") and k.net.lookup(addr[0], addr[1])
        if not loop:
            try:
                io_fail(k, "send_err", errno.EAGAIN, errno.ENOBUFS, errno.ENETUNREACH,
                        errno.EPERM, errno.EHOSTUNREACH)
            except OSError:
                k.net.client_send_failed(bytes(data), (addr[0], addr[1]))
                raise
        k.net.client_send(self, data, (addr[0], addr[1]))
        k.yield_point("sendto")
        return len(data)

    def send(self, data, flags=0):
        if self._peer is None:
            raise OSError(errno.EDESTADDRREQ, "Destination address required")
        return self.sendto(data, self._peer)

    sendall = send

    def sendmsg(self, buffers, ancdata=(), flags=0, address=None):
        return self.sendto(b"".join(bytes(b) for b in buffers), address or self._peer)

    def recvfrom(self, size, flags=0):
        k = self._check()
        k.yield_point("recvfrom")
        p = k.faults.decide("recv_err", k.cfg.get("recv_err", 0.0))
        if p is not None:
            errs = k.cfg.get("recv_errnos") or [
                errno.ECONNREFUSED, errno.ECONNRESET, errno.ENOMEM,
                errno.EHOSTUNREACH, errno.EAGAIN, errno.EINTR]
            e = errs[int(p * len(errs))]
            if (self._queue and e not in (errno.EINTR,) and (p * 1000) % 1 < 0.5
                    and self._queue[0].src[0] not in ("127.0.0.1", "::1")):
                # the datagram that made the socket readable is gone
                k.net.lost_in_kernel(self._queue.pop(0))
            k.note("recv_err", errno.errorcode[e])
            raise OSError(e, os.strerror(e))
        deadline = None
        if self._timeout:
            deadline = k.now + int(self._timeout * SEC)
        while not self._queue:
            if not self._blocking:
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            if deadline is not None and k.now >= deadline:
                raise socket.timeout("timed out")
            self.readers.append(k.cur)
            try:
                k.block("recvfrom", deadline, interruptible=True)
            finally:
                if k.cur in self.readers:
                    self.readers.remove(k.cur)
            if self._fd < 0:
                raise OSError(errno.EBADF, "Bad file descriptor")
        pkt = self._queue.pop(0)
        k.net.received(self, pkt)
        return pkt.data[:size], self._tuple(pkt.src)

    def recv(self, size, flags=0):
        return self.recvfrom(size)[0]

    def recvfrom_into(self, buf, nbytes=0, flags=0):
        data, addr = self.recvfrom(nbytes or len(buf))
        buf[:len(data)] = data
        return len(data), addr

    def recv_into(self, buf, nbytes=0, flags=0):
        return self.recvfrom_into(buf, nbytes)[0]

    def recvmsg(self, size, ancsize=0, flags=0):
        data, addr = self.recvfrom(size)
        return data, [], 0, addr

    def _deliver(self, k, pkt):
        self._queue.append(pkt)
        for t in list(self.readers):
            k.wake(t)
        wake_pollers(k, self.pollers)

    def _sim_release(self, k):
        self._fd = -1
        k.net.unbind(self)
        for t in list(self.readers):
            k.wake(t)

    def close(self):
        if self._fd < 0:
            return
        k = active()
        if k is None or k.killing:
            self._fd = -1
            return
        fd = self._fd
        k.fds.close(fd)
        self._sim_release(k)
        k.note("close", fd)

    def shutdown(self, how):
        raise OSError(errno.ENOTCONN, "not connected")

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def __del__(self):
        # CPython closes the descriptor of a collected socket
        if self._fd >= 0:
            k = active()
            if k is not None and not k.killing and k is self._k:
                fd = self._fd
                if fd in k.fds.open and k.fds.open[fd] in (None, self):
                    k.fds.close(fd)
                    k.net.unbind(self)
            self._fd = -1


def sim_socketpair(*args):
    raise K.HarnessError("socketpair is not simulated")


# ---------------------------------------------------------------- readiness
def _ready(k, fds):
    """fds: list of (fd, want) -> list of (fd, mask)"""
    out = []
    for fd, want in fds:
        obj = k.fds.open.get(fd)
        if obj is None:
            out.append((fd, select.POLLNVAL))
            continue
        mask = 0
        if want & select.POLLIN and obj.readable():
            mask |= select.POLLIN
        if want & select.POLLOUT and (obj.kind == "socket" or obj.write):
            mask |= select.POLLOUT
        if obj.kind == "pipe" and not obj.write and not obj.pipe.w_open:
            mask |= select.POLLHUP
        if mask:
            out.append((fd, mask))
    return out


def _wait_ready(k, fds, timeout_ns):
    """Block until something is ready; may return spuriously ready sockets."""
    k.yield_point("poll")
    deadline = None if timeout_ns is None else k.now + timeout_ns
    # A spurious wake-up (Linux: checksum failure after readiness was
    # reported) is armed per call and strikes while the caller is blocked
    while True:
        ready = _ready(k, fds)
        if ready:
            if len(ready) > 1:
                p = k.faults.decide("ready_order", k.cfg.get("ready_order", 0.0))
                if p is not None:
                    i = int(p * len(ready))
                    ready = ready[i:] + ready[:i]
            return ready
        if deadline is not None and k.now >= deadline:
            return []
        until = deadline
        p = k.faults.decide("spurious", k.cfg.get("spurious", 0.0))
        spurious = None
        if p is not None:
            socks = [fd for fd, want in fds
                     if getattr(k.fds.open.get(fd), "kind", None) == "socket"]
            if socks:
                spurious = socks[int(p * 97 * len(socks)) % len(socks)]
                until = k.now + int(p * 200 * K.MS)
                if deadline is not None:
                    until = min(until, deadline)
        objs = [o for o in (k.fds.open[fd] for fd, _ in fds) if o is not None]
        cur = k.cur
        for obj in objs:
            obj.pollers.append(cur)
        try:
            k.block("poll", until, interruptible=True)
        finally:
            for obj in objs:
                if cur in obj.pollers:
                    obj.pollers.remove(cur)
        if spurious is not None and k.now >= until and not _ready(k, fds):
            k.note("spurious", spurious)
            return [(spurious, select.POLLIN)]


class SimPoll:
    def __init__(self):
        self._fds = {}

    @staticmethod
    def _fd(fd):
        return fd if isinstance(fd, int) else fd.fileno()

    def register(self, fd, mask=select.POLLIN | select.POLLPRI | select.POLLOUT):
        self._fds[self._fd(fd)] = mask

    def modify(self, fd, mask):
        fd = self._fd(fd)
        if fd not in self._fds:
            raise OSError(errno.ENOENT, "No such file or directory")
        self._fds[fd] = mask

    def unregister(self, fd):
        del self._fds[self._fd(fd)]

    def poll(self, timeout=None, maxevents=-1):
        k = active()
        if k is None or k.killing:
            raise K.SimKill()
        ns = None
        if timeout is not None and timeout >= 0:
            ns = int(timeout * K.MS)
        return _wait_ready(k, list(self._fds.items()), ns)

    def close(self):
        pass


class SimEpoll(SimPoll):
    def __init__(self, sizehint=-1, flags=0):
        super().__init__()

    def register(self, fd, mask=select.POLLIN):
        self._fds[self._fd(fd)] = mask & 0xff

    def poll(self, timeout=None, maxevents=-1):
        return SimPoll.poll(
            self, None if timeout is None or timeout < 0 else timeout * 1000)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


def sim_select(r, w, x, timeout=None):
    k = active()
    if k is None:
        return _real["select"](r, w, x, timeout)
    if k.killing:
        raise K.SimKill()
    fdof = lambda o: o if isinstance(o, int) else o.fileno()
    want = {}
    for o in r:
        want[fdof(o)] = want.get(fdof(o), 0) | select.POLLIN
    for o in w:
        want[fdof(o)] = want.get(fdof(o), 0) | select.POLLOUT
    for fd in want:
        if fd < 0:
            raise ValueError("file descriptor cannot be a negative integer (-1)")
        if fd not in k.fds.open:
            raise OSError(errno.EBADF, "Bad file descriptor")
    ns = None if timeout is None else int(timeout * SEC)
    ready = dict(_wait_ready(k, list(want.items()), ns))
    return (
        [o for o in r if ready.get(fdof(o), 0) & (select.POLLIN | select.POLLHUP)],
        [o for o in w if ready.get(fdof(o), 0) & select.POLLOUT],
        [],
    )


# ---------------------------------------------------------------- randomness
def sim_urandom(n):
    k = active()
    if k is None:
        return _real["urandom"](n)
    edge = k.cfg.get("rand_edge", 0)        # which draw is an extreme value
    if edge:
        k.draws[n] = k.draws.get(n, 0) + 1
        if k.draws[n] == edge and k.faults.decide("rand_edge", 1.0) is not None:
            return b"\xff" * n
    return k.rand.randbytes(n)


# ---------------------------------------------------------------- install
def excepthook(args):
    k = K.KERNEL
    if args.exc_type is K.SimKill or k is None or k.killing:
        return
    import traceback
    k.thread_errors.append((
        k.cur.name,
        repr(args.exc_value),
        "".join(traceback.format_exception(
            args.exc_type, args.exc_value, args.exc_traceback)),
    ))
    k.note("thread_error", k.cur.tid, type(args.exc_value).__name__)


def install():
    """Replace the standard library's entry points.  Call before snmp loads."""
    assert not any(m == "snmp" or m.startswith("snmp.") for m in sys.modules)
    gc.disable()

    _real["start_new_thread"] = threading._start_new_thread
    _real["_set_sentinel"] = threading._set_sentinel
    threading._start_new_thread = start_new_thread
    threading._set_sentinel = set_sentinel
    threading._allocate_lock = make_lock
    threading.Lock = make_lock
    threading.RLock = SimRLock
    threading._CRLock = None
    threading._PyRLock = SimRLock
    threading._RLock = SimRLock
    threading.excepthook = excepthook

    import queue
    queue.SimpleQueue = queue._PySimpleQueue

    for name, reader, ns in (
        ("time", lambda k: k.wall_ns(), False),
        ("time_ns", lambda k: k.wall_ns(), True),
        ("monotonic", lambda k: k.monotonic_ns(), False),
        ("monotonic_ns", lambda k: k.monotonic_ns(), True),
        ("perf_counter", lambda k: k.monotonic_ns(), False),
        ("perf_counter_ns", lambda k: k.monotonic_ns(), True),
    ):
        _real[name] = getattr(time, name)
        setattr(time, name, _clock(name, reader, ns))
    _real["clock_gettime"] = time.clock_gettime

    def clock_gettime(which):
        k = active()
        if k is None:
            return _real["clock_gettime"](which)
        if which == time.CLOCK_REALTIME:
            return time.time()
        return time.monotonic()
    time.clock_gettime = clock_gettime
    time.sleep = sim_sleep
    threading._time = time.monotonic
    queue.time = time.monotonic

    for name, fn in (("pipe", sim_pipe), ("pipe2", sim_pipe2), ("read", sim_read),
                     ("write", sim_write), ("close", sim_close)):
        _real[name] = getattr(os, name)
        setattr(os, name, fn)
    _real["urandom"] = os.urandom
    os.urandom = sim_urandom
    random._urandom = sim_urandom

    _real["socket"] = socket.socket
    socket.socket = SimSocket
    socket.SocketType = SimSocket
    socket.socketpair = sim_socketpair
    _real["select"] = select.select
    select.select = sim_select
    select.poll = SimPoll
    select.epoll = SimEpoll
    selectors._PollLikeSelector._selector_cls = SimPoll
    selectors.PollSelector._selector_cls = SimPoll
    selectors.SelectSelector._select = lambda self, r, w, _, timeout=None: \
        sim_select(r, w, [], timeout)
    selectors.DefaultSelector = selectors.PollSelector


# ---------------------------------------------------------------- monitoring
TOOL = 3
CODEC = ("snmp.ber", "snmp.asn1", "snmp.smi", "snmp.pdu", "snmp.typing")


def _codes(module):
    import types
    seen = set()

    def walk(code):
        if code in seen:
            return
        seen.add(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)

    def visit(obj, depth=0):
        if isinstance(obj, types.FunctionType):
            if obj.__module__ == module.__name__:
                walk(obj.__code__)
        elif isinstance(obj, (staticmethod, classmethod)):
            visit(obj.__func__, depth)
        elif isinstance(obj, property):
            for f in (obj.fget, obj.fset, obj.fdel):
                if f is not None:
                    visit(f, depth)
        elif isinstance(obj, type) and depth < 4:
            if obj.__module__ == module.__name__:
                for v in list(vars(obj).values()):
                    visit(v, depth + 1)
    for v in list(vars(module).values()):
        visit(v)
    return seen


def install_monitoring():
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "simulator")

    def on_line(code, line):
        k = K.KERNEL
        if k is not None:
            k.on_line(code, line)

    def on_jump(code, src, dst):
        if dst < src:
            k = K.KERNEL
            if k is not None and not k.in_kernel:
                k.on_jump()

    mon.register_callback(TOOL, mon.events.LINE, on_line)
    mon.register_callback(TOOL, mon.events.JUMP, on_jump)
    total = 0
    for name in sorted(sys.modules):
        if name != "snmp" and not name.startswith("snmp."):
            continue
        module = sys.modules[name]
        for code in sorted(_codes(module), key=lambda c: (c.co_firstlineno, c.co_name)):
            # the codec is pure, so only its loops are watched; everything
            # that touches shared state can be preempted at every line
            if code.co_name == "computeKey":
                continue        # memoized; see boot.memo
            fine = name not in CODEC and not code.co_qualname.startswith("subbytes.")
            events = mon.events.JUMP | (mon.events.LINE if fine else 0)
            mon.set_local_events(TOOL, code, events)
            if fine:
                K.CODES.setdefault(name, []).append(code)
            total += 1
    return total


LINES_ON = False
