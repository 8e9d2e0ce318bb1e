"""The simulated network: datagrams between the client and the agents."""

import errno
import os
import random
import weakref
import socket

from .kernel import MS, SEC, US, derive
from . import seams

CLIENT = {socket.AF_INET: "192.0.2.10", socket.AF_INET6: "2001:db8::10"}


class Packet:
    __slots__ = ("id", "data", "src", "dst", "t", "dir", "meta", "fate")

    def __init__(self, id, data, src, dst, t, dir, meta):
        self.id = id
        self.data = data
        self.src = src
        self.dst = dst
        self.t = t
        self.dir = dir
        self.meta = meta
        self.fate = None


def fam_of(addr):
    return socket.AF_INET6 if ":" in addr else socket.AF_INET


class Net:
    def __init__(self, kernel, cfg):
        self.k = kernel
        self.cfg = cfg
        self.lat_rng = derive(kernel.seed, "latency")
        self.port_rng = derive(kernel.seed, "ports")
        self.bound = {}             # (family, port) -> list of (host, sock)
        self.agents = {}            # (addr, port) -> Agent
        self.sent = []              # every datagram the client sent
        self.unsent = []            # those the system refused to send
        self.delivered = []         # (t, seq, packet) queued on a client socket
        self.read = []              # (t, seq, packet, tid) read by the client
        self.dropped = []
        self.kernel_lost = []
        self.dups = {}              # copy id -> original id
        self.cut = set()            # partitioned agent ids
        self.taps = []
        self.pid = 0
        self.rbuf = cfg.get("rbuf", 64)
        self.lat_lo, self.lat_hi = cfg.get("lat", (200 * US, 4 * MS))
        self.send_triggers = {}     # nth client datagram -> [fn]
        self.bind_log = []

    def packet(self, data, src, dst, dir, meta=None):
        self.pid += 1
        return Packet(self.pid, data, src, dst, self.k.now, dir, meta or {})

    # -- addresses
    def bind(self, sock, host, port):
        fam = sock.family
        try:
            socket.inet_pton(fam, host)
        except OSError:
            raise socket.gaierror(
                socket.EAI_ADDRFAMILY, "Address family for hostname not supported")
        wild = host in ("0.0.0.0", "::")
        if port == 0:
            while True:
                port = self.port_rng.randint(32768, 60999)
                if (fam, port) not in self.bound:
                    break
        else:
            for h, s in self.bound.get((fam, port), []):
                if wild or h == host or h in ("0.0.0.0", "::"):
                    raise OSError(errno.EADDRINUSE, os.strerror(errno.EADDRINUSE))
        # weakly, so that a socket nothing else refers to is collected (and closed)
        self.bound.setdefault((fam, port), []).append((host, weakref.ref(sock)))
        self.bind_log.append((self.k.now, host, port))
        return port

    def unbind(self, sock):
        for key, lst in list(self.bound.items()):
            keep = [(h, s) for h, s in lst if s() is not None and s() is not sock]
            if len(keep) != len(lst):
                if keep:
                    self.bound[key] = keep
                else:
                    del self.bound[key]

    def lookup(self, host, port):
        for h, s in self.bound.get((fam_of(host), port), []):
            if (h == host or h in ("0.0.0.0", "::")) and s() is not None:
                return s()
        return None

    # -- client to agent
    def client_send(self, sock, data, dst):
        k = self.k
        host, port = sock._addr
        fam = sock.family
        if fam_of(dst[0]) != fam:
            raise socket.gaierror(
                socket.EAI_ADDRFAMILY, "Address family for hostname not supported")
        local = self.lookup(dst[0], dst[1])
        if local is not None and dst[0] in ("127.0.0.1", "::1"):
            src = (dst[0] if host in ("0.0.0.0", "::") else host, port)
            pkt = self.packet(data, src, dst, "loop")
            k.note("loop", pkt.id, len(data))
            local._deliver(k, pkt)
            return
        src = (CLIENT[fam] if host in ("0.0.0.0", "::") else host, port)
        pkt = self.packet(data, src, dst, "out", {"tid": k.cur.tid})
        pkt.meta["seq"] = k.note("send", pkt.id, k.cur.tid, len(data))
        self.sent.append(pkt)
        for fn in self.send_triggers.pop(len(self.sent), []):
            fn()
        agent = self.agents.get(dst)
        for tap in self.taps:
            tap.on_out(pkt, agent)
        if agent is None:
            pkt.fate = "noroute"
            return
        self.carry(pkt, agent.id, "out", lambda p: agent.receive(p))

    def client_send_failed(self, data, dst):
        pkt = self.packet(data, None, dst, "failed", {"tid": self.k.cur.tid})
        pkt.meta["seq"] = self.k.note("send failed", pkt.id)
        self.unsent.append(pkt)

    def agent_send(self, agent, data, src, dst, meta):
        pkt = self.packet(data, src, dst, "in", meta)
        self.k.note("reply", agent.id, pkt.id, len(data))
        for tap in self.taps:
            if tap.on_in(pkt, agent):
                pkt.fate = "intercepted"
                return pkt
        self.carry(pkt, agent.id, "in", self.deliver)
        return pkt

    def inject(self, data, src, dst, delay, meta):
        """A datagram from somewhere else (attacker, noise): no faults apply."""
        pkt = self.packet(data, src, dst, "in", meta)
        self.k.after(delay, lambda: self.deliver(pkt))
        return pkt

    def latency(self):
        r = self.lat_rng.random()
        return int(self.lat_lo + (self.lat_hi - self.lat_lo) * r * r)

    def carry(self, pkt, aid, way, sink):
        k, cfg, f = self.k, self.cfg, self.k.faults
        lat = self.latency()
        if aid in self.cut:
            pkt.fate = "partition"
            self.dropped.append(pkt)
            k.note("drop", pkt.id, "partition")
            return
        if f.decide("loss_" + way, cfg.get("loss_" + way, cfg.get("loss", 0.0))) is not None:
            pkt.fate = "lost"
            self.dropped.append(pkt)
            k.note("drop", pkt.id, "loss")
            return
        p = f.decide("delay_" + way, cfg.get("delay", 0.0))
        if p is not None:
            hi = cfg.get("delay_hi", 3 * SEC)
            lo = 5 * MS
            lat += int(lo * (hi / lo) ** p)
            k.note("delay", pkt.id, lat)
        p = f.decide("trunc_" + way, cfg.get("trunc", 0.0))
        if p is not None and len(pkt.data) > 1:
            pkt.meta = dict(pkt.meta, damaged="trunc", orig=pkt.data)
            pkt.data = pkt.data[:int(p * len(pkt.data))]
        p = f.decide("corrupt_" + way, cfg.get("corrupt", 0.0))
        if p is not None and pkt.data:
            pkt.meta = dict(pkt.meta, damaged="corrupt",
                            orig=pkt.meta.get("orig", pkt.data))
            pkt.data = corrupt(pkt.data, p)
        k.after(lat, lambda: self._arrive(pkt, aid, sink))
        p = f.decide("dup_" + way, cfg.get("dup", 0.0))
        if p is not None:
            extra = int(1 * US * (2_000_000 ** p))     # 1us .. 2s later
            copy = self.packet(pkt.data, pkt.src, pkt.dst, pkt.dir,
                               dict(pkt.meta, dup_of=pkt.id))
            self.dups[copy.id] = pkt.id
            k.note("dup", pkt.id, copy.id, extra)
            k.after(lat + extra, lambda: self._arrive(copy, aid, sink))

    def _arrive(self, pkt, aid, sink):
        if aid in self.cut:
            pkt.fate = "partition"
            self.dropped.append(pkt)
            self.k.note("drop", pkt.id, "partition")
            return
        sink(pkt)

    def deliver(self, pkt):
        k = self.k
        host, port = pkt.dst
        found = self.lookup(host, port)
        if found is None:
            pkt.fate = "closed"
            k.note("drop", pkt.id, "closed")
            return
        if len(found._queue) >= self.rbuf:
            pkt.fate = "overflow"
            self.dropped.append(pkt)
            k.note("drop", pkt.id, "overflow")
            return
        pkt.fate = "queued"
        seq = k.note("deliver", pkt.id)
        self.delivered.append((k.now, seq, pkt))
        found._deliver(k, pkt)

    def received(self, sock, pkt):
        k = self.k
        if pkt.dir == "loop":
            return
        pkt.fate = "read"
        seq = k.note("recv", pkt.id, k.cur.tid)
        self.read.append((k.now, seq, pkt, k.cur.tid))

    def lost_in_kernel(self, pkt):
        pkt.fate = "kernel"
        self.kernel_lost.append(pkt)


def corrupt(data, p):
    rng = random.Random(int(p * (1 << 52)))
    b = bytearray(data)
    for _ in range(1 + int(rng.random() * 3)):
        how = rng.random()
        i = rng.randrange(len(b)) if b else 0
        if not b:
            break
        if how < 0.5:
            b[i] ^= 1 << rng.randrange(8)
        elif how < 0.7:
            b[i] = rng.choice((0, 1, 0x7f, 0x80, 0x82, 0x84, 0xff, 0x30, 0x1f))
        elif how < 0.8:
            del b[i]
        elif how < 0.9:
            b.insert(i, rng.randrange(256))
        else:
            j = rng.randrange(len(b))
            b[min(i, j):max(i, j)] = b""
    if b == data and b:
        b[rng.randrange(len(b))] ^= 1
    return bytes(b)
