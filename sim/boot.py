"""Prepare a worker process: install the seams, then load the real library."""

import gc
import hashlib
import importlib
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("SIM_REPO", "/repo")

HERE = os.path.dirname(os.path.abspath(__file__))


def extension():
    """The cffi extension, built from the current source; None if that is impossible.

    build.sh leaves one in the source tree, but it is not tracked and may be missing
    or older than the source.
    """
    src = os.path.join(REPO, "snmp", "cffi", "openssl.py")
    try:
        with open(src, "rb") as f:
            text = f.read()
    except OSError:
        return None
    key = hashlib.sha256(text + sys.version.encode()).hexdigest()[:16]
    suffix = importlib.machinery.EXTENSION_SUFFIXES[0]
    for base in (os.path.join(os.path.dirname(HERE), "build"),
                 os.path.join("/tmp", f"verif-ext-{os.getuid()}")):
        out = os.path.join(base, f"openssl-{key}{suffix}")
        if os.path.exists(out):
            return out
        try:
            import shutil
            import subprocess
            import tempfile
            os.makedirs(base, exist_ok=True)
            tmp = tempfile.mkdtemp(dir=base)
            code = ("import runpy, sys; ffi = runpy.run_path(sys.argv[1])['ffi'];"
                    " print(ffi.compile(tmpdir=sys.argv[2]))")
            got = subprocess.run([sys.executable, "-B", "-c", code, src, tmp], check=True,
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                 timeout=120).stdout.decode().strip().splitlines()[-1]
            os.rename(got, out)
            shutil.rmtree(tmp, ignore_errors=True)
            return out
        except Exception:
            continue
    return None


class Extension:
    """Supplies the extension built above under its proper name."""

    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if name == "snmp.openssl":
            return importlib.util.spec_from_file_location(name, self.path)
        return None


def boot(backend="openssl", mux="posix"):
    ext = extension() if backend == "openssl" else None
    os.environ.setdefault("OPENSSL_CONF", os.path.join(HERE, "openssl-legacy.cnf"))
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if p not in (REPO,)]
    sys.path.insert(0, REPO)
    # modules that make locks or sockets at import time load first
    import logging, concurrent.futures, hmac, hashlib, traceback, importlib.util  # noqa
    import Crypto.Cipher.AES, Crypto.Cipher.DES  # noqa
    from . import seams
    seams.install()
    if backend == "pycryptodome":
        class Block:
            def find_spec(self, name, path=None, target=None):
                if name.startswith("snmp.openssl"):
                    raise ImportError("openssl backend disabled in this worker")
                return None
        sys.meta_path.insert(0, Block())
    elif ext is not None:
        sys.meta_path.insert(0, Extension(ext))
    import snmp.engine
    assert snmp.__file__.startswith(REPO), snmp.__file__
    from snmp.security.usm import priv
    got = priv.AesCfb128.__module__.split(".")[-2]
    if mux == "generic":
        try:
            mod = importlib.import_module("snmp.transport.generic.udp")
        except ImportError:
            mod = None
            mux = "posix"
        for m in list(sys.modules.values()):
            if mod is not None and getattr(m, "__name__", "").startswith("snmp") \
                    and getattr(m, "UdpMultiplexor", None) is not None:
                m.UdpMultiplexor = mod.UdpMultiplexor
    # the key derivation hashes a mebibyte; it is computed once per secret here
    try:
        from snmp.security.usm import auth
        classes = [getattr(auth, name) for name in auth.__all__]
    except (ImportError, AttributeError):
        classes = []
    for cls in classes:
        if isinstance(cls, type) \
                and hasattr(getattr(cls, "computeKey", None), "__func__"):
            memo(cls)
    stable_hash()
    late_generators()
    n = seams.install_monitoring()
    gc.collect()
    gc.freeze()
    return {"backend": got, "mux": mux, "codes": n}


def memo(cls):
    real = cls.computeKey.__func__
    cache = {}

    def computeKey(c, secret):
        try:
            return cache[(c, secret)]
        except KeyError:
            v = cache[(c, secret)] = real(c, secret)
            return v
    cls.computeKey = classmethod(computeKey)


def late_generators():
    """Number sequences may start close to where they wrap around.

    The generator is put where it would be after a few billion numbers."""
    try:
        from snmp.utils import NumberGenerator as G
        real = G.__init__
        probe = G(8)
        if not all(isinstance(getattr(probe, n, None), int)
                   for n in ("previous", "range", "step", "wrap")):
            return
    except (ImportError, AttributeError, TypeError):
        return
    from . import seams

    def __init__(self, *args, **kw):
        real(self, *args, **kw)
        k = seams.active()
        left = k.cfg.get("wrap") if k is not None else None
        if left:
            left = 2 + int(left * k.rand.random())
            self.previous = -left * self.step % self.range
            if self.previous > self.wrap:
                self.previous -= self.range
    G.__init__ = __init__


_hash = [0]


def reset_hash():
    _hash[0] = 0


def stable_hash():
    """Sets of handles iterate in creation order, not by address."""
    def __hash__(self):
        try:
            return self.__dict__["_sim_hash"]
        except KeyError:
            _hash[0] += 1
            self.__dict__["_sim_hash"] = v = _hash[0]
            return v
    try:
        from snmp.manager import v3
    except ImportError:
        return
    for name in ("RequestMessage", "Request"):
        cls = getattr(v3, name, None)
        if cls is not None and cls.__eq__ is object.__eq__ \
                and cls.__hash__ is object.__hash__:
            cls.__hash__ = __hash__
