"""Judge a recorded history.  One function per property; each yields
(signature, message).  The functions only use what was observable: what the
application called and got back, and the datagrams on the simulated wire."""

import bisect
import socket

from . import agent as A
from . import net
from . import wire
from .agent import tag_of
from .attacker import FORGED
from .kernel import MS, SEC, US

REPORT_CLASS = {
    A.UNSUPPORTED_LEVEL: "UnsupportedSecurityLevelReport",
    A.UNKNOWN_USER: "UnknownUserNameReport",
    A.WRONG_DIGEST: "WrongDigestReport",
    A.DECRYPTION: "DecryptionErrorReport",
}
INTERNAL = (A.NOT_IN_WINDOW, A.UNKNOWN_ENGINE)
BASE = 60 * MS


class Sent:
    __slots__ = ("pkt", "t", "seq", "version", "tag", "level", "m", "pdu", "req",
                 "user", "problem", "ns", "cred", "discovery", "tid")


class History:
    def __init__(self, w):
        self.w = w
        self.k = w.k
        self.cfg = w.plan["cfg"]
        self.reqs = [w.reqs[r] for r in w.reqs]
        self.by_tag = {r.tag: r for r in self.reqs}
        self.gran = max(w.k.gran, w.k.wall_gran)
        self.base = BASE + 3 * self.gran + 4 * w.k.wake_lat
        self.sent = [self.decode(p) for p in w.net.sent]
        self.by_req = {r.rid: [] for r in self.reqs}
        self.by_pkt = {}
        for s in self.sent:
            self.by_pkt[s.pkt.id] = s
            if s.req is not None:
                self.by_req[s.req.rid].append(s)
        # discovery probes belong to the request whose report triggered a resend;
        # they carry no tag
        self.end = w.k.now
        # intervals in which some thread was descheduled, merged, with running totals
        self._from, self._to, self._sum = [], [], [0]
        for a, b, _ in sorted(w.k.stalls):
            if self._to and a <= self._to[-1]:
                self._sum[-1] += max(0, b - self._to[-1])
                self._to[-1] = max(b, self._to[-1])
            else:
                self._from.append(a)
                self._to.append(b)
                self._sum.append(self._sum[-1] + b - a)
        self.reads = []         # (t, seq, pkt, resp or None)
        for t, seq, pkt, tid in w.net.read:
            rid = pkt.meta.get("resp")
            resp = w.responses[rid] if rid is not None else None
            if pkt.meta.get("damaged") or pkt.meta.get("forged", "replay") != "replay":
                resp = None
            self.reads.append((t, seq, pkt, resp))
        # without authentication, damage cannot be told from the agent's words
        self.damaged = any(p.meta.get("damaged") for p in
                           [x[2] for x in self.reads] + list(w.net.sent))
        self.answers = {r.rid: [] for r in self.reqs}
        self.reports = {r.rid: [] for r in self.reqs}
        for t, seq, pkt, resp in self.reads:
            if resp is None:
                continue
            if resp.kind == "response":
                r = self.by_tag.get(resp.tag)
                if r is not None and self.agent_of(r) == resp.agent:
                    self.answers[r.rid].append((t, seq, pkt, resp))
            else:
                s = self.by_pkt.get(self.origin(resp.req_pkt))
                if s is not None and s.req is not None:
                    self.reports[s.req.rid].append((t, seq, pkt, resp))

    def origin(self, pid):
        """The client datagram a (possibly duplicated) packet id stands for."""
        return self.w.net.dups.get(pid, pid)

    def decode(self, pkt):
        s = Sent()
        s.pkt, s.t, s.seq = pkt, pkt.t, pkt.meta["seq"]
        s.tid = pkt.meta["tid"]
        s.tag = s.req = s.pdu = s.m = s.cred = s.user = s.ns = None
        s.version = s.level = s.problem = None
        s.discovery = False
        data = pkt.meta.get("orig", pkt.data)
        try:
            s.version = wire.dec_version(data)
            if s.version in (0, 1):
                s.m = wire.dec_community(data)
                s.pdu = s.m["pdu"]
                s.level = 0
            elif s.version == 3:
                s.m = m = wire.dec_v3(data)
                s.level = m["flags"] & 3
                if s.level & 1:
                    for ns, user in self.w.creds:
                        if user.name == m["user"] and user.auth \
                                and wire.check_mac(m, user):
                            if s.level & 2:
                                if not user.priv:
                                    continue
                                try:
                                    wire.open_scoped(m, user)
                                except wire.WireError as err:
                                    s.problem = f"does not decrypt: {err}"
                                    continue
                            s.cred, s.ns, s.problem = user, ns, None
                            break
                    else:
                        if s.problem is None:
                            s.problem = "no configured credentials verify it"
                s.pdu = m.get("pdu")
                s.discovery = s.level == 0 and m["engine_id"] == b""
            else:
                s.problem = f"version {s.version}"
        except wire.WireError as err:
            s.problem = f"malformed: {err}"
        if s.pdu is not None:
            s.tag = tag_of(s.pdu["vbs"])
            s.req = self.by_tag.get(s.tag)
        return s

    # ---- vocabulary
    def info(self, r):
        return self.w.mgr_info[r.mid]

    def maxsize(self, r):
        return self.w.engine_spec[self.info(r).get("eng", 0)].get("maxsize", 1472)

    def oversized(self, r):
        """The agent's answer does not fit into what the application makes room for."""
        pkt_of = {i: s for i, s in self.by_pkt.items() if s.req is r}
        return any(resp.kind == "response" and len(resp.data) > self.maxsize(r)
                   and self.origin(resp.req_pkt) in pkt_of
                   for resp in self.w.responses)

    def agent_of(self, r):
        return self.info(r)["agent"]

    def version(self, r):
        return self.info(r)["version"]

    def user_of(self, r):
        """(ns, wire.User) this request must be made for, None for v1/v2c"""
        info = self.info(r)
        if info["version"] != 3:
            return None
        ns = info.get("ns", "") or ""
        name = r.spec.get("user") or info.get("user")
        spec = None
        if name is None:
            name = info.get("default_user_name")
        for n, u in self.w.creds:
            if n == ns and u.name == (name or "").encode():
                return n, u
        return ns, None

    def level_of(self, r):
        info = self.info(r)
        if info["version"] != 3:
            return 0
        if r.spec.get("level") is not None:
            return r.spec["level"]
        if info.get("level") is not None:
            return info["level"]
        return info.get("default_level")

    def timeout(self, r):
        return int(r.spec.get("timeout", 10.0) * SEC)

    def period(self, r):
        return int(r.spec.get("refreshPeriod", 1.0) * SEC)

    def expires(self, r):
        return r.t_call + self.timeout(r)

    def stalled(self, a, b):
        """Virtual time inside [a, b] during which some thread was descheduled."""
        return max(0, self.stalled_before(b) - self.stalled_before(a)) if b > a else 0

    def stalled_before(self, t):
        i = bisect.bisect_right(self._from, t)
        if not i:
            return 0
        return self._sum[i] - max(0, self._to[i - 1] - t)

    def slack(self, a, b):
        return self.base + self.stalled(a, b)

    def hung(self):
        return self.w.verdict in ("deadlock", "livelock")


def describe(out):
    if out is None:
        return "nothing"
    if out[0] == "ok":
        s = repr(out[1])
        return "values " + (s if len(s) < 200 else s[:200] + "...")
    return repr(out)


def fmt(h, t):
    return f"{(t - h.k.start) / 1e9:.6f}s"


def ctx(h, r):
    i = h.info(r)
    return (f"request {r.rid} (v{ {0: '1', 1: '2c', 3: '3'}[i['version']] } {r.spec['type']}"
            f" level {h.level_of(r)} to {i['agent']}, sent {fmt(h, r.t_call)})")


# --------------------------------------------------------------- matching
def error_matches(r, out, resp):
    if out[1] != resp.status:
        return False
    idx = resp.index
    what = out[2]
    if idx == 0:
        return what == ("pdu",)
    if idx <= len(r.sent_vbs):
        o, v = r.sent_vbs[idx - 1]
        return what == ("vb", tuple(o), v)
    return what == ("int", idx)


def matching(h, r, out, full):
    """Genuine answers this outcome could be."""
    hits = []
    for t, seq, pkt, resp in h.answers[r.rid]:
        if out[0] == "ok":
            if resp.status:
                continue
            if full:
                if tuple((tuple(o), tuple(v)) for o, v in resp.vbs) != out[1]:
                    continue
            elif (tuple(resp.vbs[0][0]), tuple(resp.vbs[0][1])) != out[1][0] \
                    if out[1] and resp.vbs else bool(out[1]) != bool(resp.vbs):
                continue
        else:
            if not resp.status or (full and not error_matches(r, out, resp)):
                continue
            if out[1] != resp.status:
                continue
        hits.append((t, seq, pkt, resp))
    return hits


def first_outcomes(h):
    for r in h.reqs:
        for call in r.wait_calls:
            yield r, call


def c01(h):
    """each request gets its own answer only"""
    damaged = h.damaged
    for r, (t0, t1, st, out, q0, q1, sync) in first_outcomes(h):
        if out[0] not in ("ok", "error"):
            continue
        if damaged and not h.level_of(r) & 1:
            continue
        hits = [x for x in matching(h, r, out, False) if x[1] < q1]
        if not hits:
            yield ("foreign-answer", f"{ctx(h, r)} completed with {describe(out)}, which its"
                   " agent never sent in answer to it (or not before it completed)")
            continue
        if not any(x[3].version == h.version(r) for x in hits):
            yield ("foreign-answer", f"{ctx(h, r)} completed with an answer of another version")
    # identifiers of messages awaiting an answer are never shared
    yield from idents(h)


def idents(h):
    eng = lambda r: h.info(r).get("eng", 0)
    spans = {}
    for r in h.reqs:
        stop = r.done_seq or getattr(r, "drop_seq", None) or float("inf")
        for s in h.by_req[r.rid]:
            if s.version == 3 and s.pdu:
                # a different request of the same manager
                spans.setdefault((r.mid, "pdu", s.pdu["reqid"]), []).append(
                    (s.seq, stop, r.rid, s.pkt.id))
            key = (eng(r), s.version, s.m["msgid"] if s.version == 3 else s.pdu["reqid"])
            spans.setdefault(key, []).append((s.seq, stop, r.rid, s.pkt.id))
    for key, lst in spans.items():
        lst.sort()
        for a, b in zip(lst, lst[1:]):
            if key[1] == 3:
                if b[0] < a[1] and a[3] != b[3]:
                    yield ("shared-id", f"message id {key[2]} used for two messages of"
                           f" {a[2]} and {b[2]} while the first awaited its answer")
            elif a[2] != b[2] and b[0] < a[1]:
                yield ("shared-id", f"request id {key[2]} shared by {a[2]} and {b[2]}"
                       " while the first awaited its answer")


def c02(h):
    """what is asked is what is sent; what is answered is what is returned"""
    for s in h.sent:
        if s.problem:
            yield ("malformed", f"datagram {s.pkt.id} sent at {fmt(h, s.t)}: {s.problem}")
            continue
        if s.version == 3 and s.m["model"] != 3:
            yield ("header", f"datagram {s.pkt.id}: security model {s.m['model']}")
        if s.version == 3 and not s.m["flags"] & 4:
            yield ("header", f"datagram {s.pkt.id} is not reportable")
        if s.tag is None:
            if not s.discovery:
                yield ("unasked", f"datagram {s.pkt.id} carries no application request")
            elif s.pdu["vbs"] or s.pdu["type"] != "get":
                yield ("discovery", f"discovery message {s.pkt.id} carries {s.pdu!r}")
            continue
        r = s.req
        if r is None:
            yield ("unasked", f"datagram {s.pkt.id} carries unknown tag {s.tag}")
            continue
        yield from compare(h, r, s)
    for r in h.reqs:
        ids = {s.pdu["reqid"] for s in h.by_req[r.rid] if s.pdu}
        if len(ids) > 1:
            yield ("reqid", f"{ctx(h, r)}: retransmissions used different request ids"
                   f" {sorted(ids)}")
    damaged = h.damaged
    for r, (t0, t1, st, out, q0, q1, sync) in first_outcomes(h):
        if out[0] not in ("ok", "error"):
            continue
        if damaged and not h.level_of(r) & 1:
            continue
        if not matching(h, r, out, True):
            near = [x[3] for x in h.answers[r.rid]]
            yield ("values", f"{ctx(h, r)} completed with {describe(out)}; the agent's"
                   f" answers were {[(x.status, x.index, x.vbs) for x in near][:2]!r}")
    # an answer that the library could not use although it was well formed
    for r in h.reqs:
        if r.outcome is not None and r.outcome[0] == "timeout" and accepted(h, r):
            yield ("unread", f"{ctx(h, r)} timed out although its well formed answer"
                   f" {usable(h, r)[0][3].data.hex()[:120]} arrived in time")


def source(h, r):
    """The local address the manager was made with."""
    loc = h.info(r).get("local")
    host, port = loc if isinstance(loc, (list, tuple)) else (loc, 0)
    if host in (None, "", "0.0.0.0", "::"):
        v6 = ":" in h.w.agents[h.agent_of(r)].addr[0]
        host = net.CLIENT[socket.AF_INET6 if v6 else socket.AF_INET]
    return host, port


def compare(h, r, s):
    spec = r.spec
    what = f"datagram {s.pkt.id} for {ctx(h, r)}"
    if s.version != h.version(r):
        yield ("version", f"{what}: version {s.version}")
    if s.pkt.dst != h.w.agents[h.agent_of(r)].addr:
        yield ("dest", f"{what} went to {s.pkt.dst}")
    host, port = source(h, r)
    if s.pkt.src[0] != host or port not in (0, s.pkt.src[1]):
        yield ("source", f"{what} left from {s.pkt.src}, the manager's local address is"
               f" {(host, port)}")
    if s.pdu["type"] != spec["type"]:
        yield ("pdu", f"{what}: PDU type {s.pdu['type']}")
    want = [(tuple(o), tuple(v)) for o, v in r.sent_vbs]
    got = [(tuple(o), tuple(v)) for o, v in s.pdu["vbs"]]
    if want != got:
        yield ("varbinds", f"{what}: asked {want!r}, sent {got!r}")
    if spec["type"] == "getBulk":
        if (s.pdu["a"], s.pdu["b"]) != (spec.get("nr", 0), spec.get("mr", 0)):
            yield ("bulk", f"{what}: non-repeaters/max-repetitions"
                   f" {(s.pdu['a'], s.pdu['b'])}")
    elif (s.pdu["a"], s.pdu["b"]) != (0, 0):
        yield ("pdu", f"{what}: error-status/index {(s.pdu['a'], s.pdu['b'])}")
    if s.version in (0, 1):
        comm = spec.get("community")
        if comm is None:
            comm = h.info(r).get("community")
        if comm is None:
            comm = h.w.engine_spec[h.info(r).get("eng", 0)].get("community", "")
        if s.m["community"] != comm.encode():
            yield ("community", f"{what}: community {s.m['community']!r},"
                   f" configured {comm!r}")
        return
    m = s.m
    if m["ctx_engine"] != m["engine_id"]:
        yield ("context", f"{what}: context engine {m['ctx_engine'].hex()} differs from"
               f" security engine {m['engine_id'].hex()}")
    if m["ctx_name"] != b"":
        yield ("context", f"{what}: context name {m['ctx_name']!r}")
    size = h.w.engine_spec[h.info(r).get("eng", 0)].get("maxsize", 1472)
    if m["maxsize"] != size:
        yield ("header", f"{what}: msgMaxSize {m['maxsize']}, configured {size}")
    ns, user = h.user_of(r)
    name = user.name if user else None
    if name is not None and m["user"] != name:
        yield ("user", f"{what}: user {m['user']!r} instead of {name!r}")
    if not 0 <= m["msgid"] <= A.MAXINT:
        yield ("header", f"{what}: msgID {m['msgid']}")


def answer_ok(h, r, resp, q1):
    return (resp.version == h.version(r) and
            (resp.version != 3 or (resp.level & h.level_of(r)) == h.level_of(r)))


def c03(h):
    """nothing forged is ever returned"""
    for r, (t0, t1, st, out, q0, q1, sync) in first_outcomes(h):
        lvl = h.level_of(r)
        if h.version(r) != 3 or not lvl & 1:
            continue
        if out[0] in ("ok", "error"):
            hits = [x for x in matching(h, r, out, True) if x[1] < q1]
            good = [x for x in hits if answer_ok(h, r, x[3], q1)]
            if not good:
                how = "forged or altered data" if not hits else \
                    "an answer below the requested security level"
                yield ("forged", f"{ctx(h, r)} returned {how}: {describe(out)}")
        elif out[0] == "report" and t1 < h.expires(r) - h.gran - MS:
            ok = any(resp.level & 1 and resp.oid == out[2]
                     for t, q, p, resp in h.reports[r.rid] if q < q1)
            if not ok:
                yield ("forged-report", f"{ctx(h, r)} was ended early at {fmt(h, t1)} by"
                       f" a report nobody authenticated: {out!r}")


def c04(h):
    """requests leave exactly as protected as asked"""
    for s in h.sent:
        if s.version != 3:
            if s.version is None:
                yield ("malformed", f"datagram {s.pkt.id}: {s.problem}")
            continue
        if s.problem:
            yield ("protection", f"datagram {s.pkt.id} sent at {fmt(h, s.t)} with"
                   f" user {s.m['user'] if s.m else b''!r} level {s.level}: {s.problem}")
            continue
        if s.discovery and s.req is not None and not h.level_of(s.req) \
                and h.w.plan.get("attack"):
            # without authentication anybody may say that the engine's name is empty
            continue
        if s.discovery:
            if s.pdu["vbs"] or s.m["user"] != b"" or s.m["ctx_name"] or s.m["salt"] \
                    or s.m["sig"]:
                yield ("discovery-leak", f"discovery datagram {s.pkt.id} reveals"
                       f" user {s.m['user']!r} variables {s.pdu['vbs']!r}")
            continue
        r = s.req
        if r is None:
            continue
        want = h.level_of(r)
        if s.level != want:
            yield ("level", f"datagram {s.pkt.id} for {ctx(h, r)} left at security level"
                   f" {s.level}, requested {want}")
        ns, user = h.user_of(r)
        if want & 1 and s.level & 1 and user is not None:
            if not (s.m["user"] == user.name and s.ns == ns):
                yield ("identity", f"datagram {s.pkt.id} for {ctx(h, r)} was signed as"
                       f" {s.m['user']!r} of namespace {s.ns!r}")
        if want & 2:
            for mark in secrets(h, r):
                if mark in s.pkt.data:
                    yield ("plaintext", f"datagram {s.pkt.id} for {ctx(h, r)} shows"
                           " its variables in the clear")
                    break
    # no datagram of a session may leak a confidential request's content
    for r in h.reqs:
        if h.version(r) == 3 and (h.level_of(r) or 0) & 2:
            marks = secrets(h, r)
            for s in h.sent:
                if s.level != 3 and any(m in s.pkt.data for m in marks):
                    yield ("plaintext", f"datagram {s.pkt.id} at level {s.level} contains"
                           f" the variables of confidential {ctx(h, r)}")
                    break


def secrets(h, r):
    """Byte strings only this request contains."""
    out = [wire.oid_body(A.TAG_PREFIX + (r.tag, 1))]
    return out


def c05(h):
    """no initialisation vector twice under one key"""
    seen = {}
    same = h.cfg.get("rand_edge")
    for s in h.sent:
        if s.version != 3 or s.level != 3 or s.cred is None:
            continue
        m = s.m
        eng = h.info(s.req).get("eng", 0) if s.req is not None else 0
        key = (s.cred.priv, s.cred.auth, s.cred.priv_secret, m["engine_id"])
        iv = (m["boots"], m["time"], m["salt"]) if s.cred.priv == "AesCfb128" \
            else (m["salt"],)
        if len(m["salt"]) != 8:
            yield ("salt", f"datagram {s.pkt.id}: salt of {len(m['salt'])} bytes")
        if same:
            key += (eng, s.user)
        old = seen.get((key, iv))
        if old is not None:
            yield ("iv-reuse", f"datagrams {old} and {s.pkt.id} were encrypted under the"
                   f" same key and initialisation vector {iv!r}")
        seen[(key, iv)] = s.pkt.id


def started(r):
    return r.t_call is not None and r.failed is None


def c06(h):
    """every request ends in time, and not before"""
    if h.hung():
        yield (h.w.verdict, f"execution never finished: {h.w.verdict}:"
               f" {h.w.k.verdict_detail}")
    for r in h.reqs:
        if r.t_call is None:
            continue
        if r.t_sent is not None and not r.wait:
            lim = h.slack(r.t_call, r.t_sent)
            if r.t_sent - r.t_call > lim:
                yield ("send-blocked", f"{ctx(h, r)}: sending took"
                       f" {(r.t_sent - r.t_call) / 1e9:.3f}s")
        if r.failed is not None and r.failed[0] == "exc":
            yield ("exception", f"{ctx(h, r)}: sending raised {r.failed!r}")
    for r, (t0, t1, st, out, q0, q1, sync) in first_outcomes(h):
        if out[0] == "interrupt":
            continue
        exp = h.expires(r)
        limit = max(t0, exp) + h.slack(r.t_call if sync else t0, t1)
        if not sync and r.t_sent is not None:
            limit = max(t0, exp + h.stalled(r.t_call, r.t_sent)) + h.slack(t0, t1)
        if t1 > limit:
            yield ("late", f"{ctx(h, r)}: timeout {h.timeout(r) / 1e9}s, wait() called at"
                   f" {fmt(h, t0)} returned only at {fmt(h, t1)} with {describe(out)}")
        if out[0] == "timeout" and t1 < exp - 2 * h.gran - MS:
            yield ("early", f"{ctx(h, r)}: Timeout raised at {fmt(h, t1)}, before"
                   f" {fmt(h, exp)}")
        if out[0] == "exc":
            yield ("exception", f"{ctx(h, r)}: wait() raised {out!r}")


def usable(h, r):
    """Genuine answers read while the library had to accept them."""
    out = []
    newest = {}
    level = h.level_of(r)
    for t, seq, pkt, resp in h.reads:
        if resp is None:
            continue
        if resp.version == 3 and resp.level & 1:
            key = resp.engine_id
            b = newest.get(key)
            if b is not None and (resp.boots, ) < (b[0], ):
                continue
            if b is not None and resp.boots == b[0] and \
                    resp.time < b[1] + (t - b[2]) // SEC - 140:
                continue
            if b is None or (resp.boots, resp.time) > (b[0], b[1]):
                newest[key] = (resp.boots, resp.time, t)
        if resp.kind != "response" or h.by_tag.get(resp.tag) is not r:
            continue
        if resp.agent != h.agent_of(r) or resp.version != h.version(r):
            continue
        if resp.version == 3 and resp.level != level:
            continue
        if len(resp.data) > h.maxsize(r):
            continue        # larger than the client said it can receive
        out.append((t, seq, pkt, resp))
    return out


def accepted(h, r):
    """The first answer that arrived early enough that it must be delivered."""
    if not started(r) or r.t_call is None:
        return None
    exp = h.expires(r)
    for t, seq, pkt, resp in usable(h, r):
        gone = min(x for x in (r.dropped, h.info(r).get("deleted"), float("inf"))
                   if x is not None)
        if t + h.slack(t, t + 5 * SEC) > gone:
            continue
        if t <= exp - h.slack(t - SEC, exp) and t >= r.t_call:
            return t, seq, pkt, resp
    return None


def c07(h):
    """an answer that arrived in time is delivered"""
    for r in h.reqs:
        a = accepted(h, r)
        if a is None or not r.wait_calls:
            continue
        t, seq, pkt, resp = a
        first = True
        for t0, t1, st, out, q0, q1, sync in r.wait_calls:
            if out[0] == "interrupt":
                continue
            if out[0] == "oserror":
                continue
            if out[0] == "report":
                if any(rep.level & 1 for _, q, _, rep in h.reports[r.rid] if q < q1):
                    continue
            if out[0] not in ("ok", "error"):
                yield ("lost-answer" if first else "second-wait",
                       f"{ctx(h, r)}: its answer was received at {fmt(h, t)}, before"
                       f" {fmt(h, h.expires(r))}, yet wait() called at {fmt(h, t0)} ended"
                       f" at {fmt(h, t1)} with {describe(out)}")
            elif t1 > max(t, t0) + h.slack(max(t, t0) - SEC, t1):
                yield ("slow-answer", f"{ctx(h, r)}: its answer was received at"
                       f" {fmt(h, t)} but wait() called at {fmt(h, t0)} returned only at"
                       f" {fmt(h, t1)}")
            first = False


def waits_on(h, mid):
    """Intervals during which some thread waits on a request of the manager."""
    out = []
    for r in h.reqs:
        if r.mid == mid:
            for t0, t1, st, o, q0, q1, sync in r.wait_calls:
                out.append((t0, t1))
    return sorted(out)


def ended(r):
    """When the request was over; a wait() that only failed does not end it."""
    for t0, t1, st, out, q0, q1, sync in r.wait_calls:
        if sync or out[0] not in ("oserror", "interrupt"):
            return t1
    return None


def c08(h):
    """unanswered requests are repeated once per period, no more, no less"""
    listeners = {tid for _, _, _, tid in h.w.net.read}
    refused = {r.rid: [] for r in h.reqs}
    for pkt in h.w.net.unsent:
        s = h.decode(pkt)
        if s.req is not None:
            refused[s.req.rid].append(s)
    ready = {}
    first = {}
    smooth = not h.cfg.get("send_err") and not any(
        op[0] == "cfg" and op[1].get("send_err")
        for ops in [h.w.plan["ops"], *h.w.plan["threads"].values()] for op in ops)
    for r in sorted((r for r in h.reqs if r.t_call is not None), key=lambda r: r.t_call):
        first.setdefault(r.mid, r)
    restarts = any(e["do"] == "restart" for e in h.w.plan["env"])
    # what reports about discovery messages said is not on record for each request
    forged = any(pkt.meta.get("forged") for _, _, pkt, _ in h.reads) or any(
        e["do"] == "engineid" for e in h.w.plan["env"])
    for r in h.reqs:
        if r.done_t is not None and r.outcome[0] in ("ok", "error"):
            ready[r.mid] = min(r.done_t, ready.get(r.mid, h.end))
        for t, q, pkt, resp in h.reports[r.rid][:1]:
            # the engine the application named has told its time
            s = h.by_pkt[h.origin(resp.req_pkt)]
            until = t + h.slack(t, t + SEC)
            if h.info(r).get("eid") and resp.oid[-2:] == (2, 0) and resp.level & 1 \
                    and s.m["engine_id"] == resp.engine_id and not restarts \
                    and len(resp.data) <= h.maxsize(r) and until < min(
                        x for x in (h.expires(r), r.done_t, r.dropped, h.end)
                        if x is not None):
                ready[r.mid] = min(until, ready.get(r.mid, h.end))
    for r in h.reqs:
        if not started(r):
            continue
        sends = sorted(h.by_req[r.rid] + refused[r.rid], key=lambda s: s.seq)
        v3 = h.version(r) == 3
        made = r.t_call
        if v3 and made < ready.get(r.mid, h.end):
            # what is made meanwhile goes out with the manager's first request
            f = first[r.mid]
            made = h.end
            if smooth and f is not r and h.by_req[f.rid]:
                t = h.by_req[f.rid][0].t
                told = max((x[0] for x in h.reads if x[0] <= t), default=0)
                if (r.t_sent or h.end) < told:
                    made = t
            if h.info(r).get("eid") and smooth:
                made = min(made, ready.get(r.mid, h.end))
        if made < h.end:
            # nothing (more) to find out first: it is sent as soon as it is made
            over = min(x for x in (h.expires(r), r.done_t, r.dropped, h.end)
                       if x is not None)
            # every delay up to the moment it was sent (or might have been)
            lim = made + h.slack(made - SEC, max(made + SEC,
                                                 min(sends[0].t, over) if sends else over))
            if lim < over and (not sends or sends[0].t > lim):
                yield ("not-sent", f"{ctx(h, r)} was not sent until "
                       + (fmt(h, sends[0].t) if sends else "its end"))
        if not sends:
            continue
        period, exp = h.period(r), h.expires(r)
        eps = 2 * h.gran + MS
        times = [s.t for s in sends]
        # after the end: silence
        stop = ended(r)
        if r.dropped is not None:
            stop = r.dropped if stop is None else min(stop, r.dropped)
        for s in sends:
            lim = exp if stop is None else min(stop, exp)
            if s.t > lim + h.slack(lim - SEC, s.t):
                yield ("after-end", f"{ctx(h, r)} was over at {fmt(h, lim)} but was sent"
                       f" again at {fmt(h, s.t)}")
                break
        got = accepted(h, r)
        if got is not None and v3 and r.done_t is not None and r.done_t <= got[0]:
            got = None          # its wait() failed and closed it before the answer
        if got is not None:
            lim = got[0] + h.slack(got[0] - SEC, got[0] + SEC)
            for s in sends:
                if s.t > lim + h.stalled(lim, s.t):
                    yield ("after-answer", f"{ctx(h, r)} was answered at {fmt(h, got[0])}"
                           f" but was sent again at {fmt(h, s.t)}")
                    break
        # a copy sent by the listener thread starts the periods anew
        starts = [0] + [i for i, s in enumerate(sends) if i and s.tid in listeners]
        for n, i0 in enumerate(starts):
            base_hi = times[i0]
            base_lo = base_hi - eps - MS - h.stalled(base_hi - SEC, base_hi) \
                if sends[i0].tid in listeners else r.t_call
            last = starts[n + 1] if n + 1 < len(starts) else len(times)
            for i, t in enumerate(times[i0 + 1:last], 1):
                if t < base_lo + i * period - eps:
                    yield ("burst", f"{ctx(h, r)}: copy {i} was sent at {fmt(h, t)}, period"
                           f" {period / 1e9}s: {[fmt(h, x) for x in times]}")
                    break
                prev = times[i0 + i - 1]
                lo = prev - eps - MS - h.stalled(prev - SEC, prev) if i > 1 else prev
                a = (lo - base_hi) // period if i > 1 else 0
                b = (t - base_lo + eps) // period
                if b <= a:
                    yield ("burst", f"{ctx(h, r)}: copies at {fmt(h, prev)} and {fmt(h, t)}"
                           f" fall into one period of {period / 1e9}s")
                    break
        # and is sent only because a report had something new to say
        extra = [s for s in sends[1:] if s.tid in listeners
                 and not (r.done_t is not None and s.t >= r.done_t)]
        if extra and not h.damaged and not forged:
            news = fresh_reports(h, r, listeners)
            if len(extra) > len(news):
                yield ("echo", f"{ctx(h, r)} was sent {len(extra)} times more because of"
                       f" {len(h.reports[r.rid])} reports of which only {len(news)} said"
                       f" something new: {[fmt(h, s.t) for s in extra]}")
        # while somebody waits on the manager, copies keep coming
        a = accepted_any(h, r)
        # an SNMPv3 request whose wait() failed goes back to discovery
        over = min(x for x in (exp, r.done_t if v3 else ended(r), r.dropped, a, h.end)
                   if x is not None)
        for t0, t1 in waits_on(h, r.mid):
            stop_at = min(t1, over)
            last = times[0]
            if times[0] > t1:
                continue
            pts = [t for t in times if t <= stop_at]
            for j, t in enumerate(pts):
                nxt = pts[j + 1] if j + 1 < len(pts) else None
                due = max(t0, t + period)
                if sends[j].tid in listeners:
                    # sent by the listener thread, while the waiting thread was
                    # already asleep until another request's next copy
                    due += max(h.period(x) for x in h.reqs if x.mid == r.mid)
                # every delay up to the moment it was sent (or might have been)
                lim = due + h.slack(t, max(due + period, nxt or stop_at))
                if lim >= stop_at:
                    continue
                if nxt is None or nxt > lim:
                    if nxt is not None and nxt <= t0:
                        continue
                    yield ("missing-copy", f"{ctx(h, r)} sent at {fmt(h, t)} with period"
                           f" {period / 1e9}s was not repeated by {fmt(h, lim)} although"
                           f" wait() was running from {fmt(h, t0)} to {fmt(h, t1)}")
                    return


def fresh_reports(h, r, listeners):
    """At most these reports told the request something it did not know: which engine to
    address, or, once per set of copies on their way, that its idea of the time was wrong.
    A copy sent because of such a report can tell no more until the next regular one.
    """
    out = []
    ids = {resp.engine_id for *_, resp in h.reports[r.rid]}
    one = len(ids) == 1
    regular = {s.pkt.id for s in h.by_req[r.rid] if s.tid not in listeners}
    if not any(resp.oid == A.NOT_IN_WINDOW for *_, resp in h.reports[r.rid]) or any(
            resp.oid == A.UNKNOWN_ENGINE for *_, resp in h.reports[r.rid]):
        regular = None
    elif h.by_req[r.rid]:
        regular.add(h.by_req[r.rid][0].pkt.id)
    eid = None
    since = -1
    for t, seq, pkt, resp in sorted(h.reports[r.rid], key=lambda x: x[1]):
        s = h.by_pkt[h.origin(resp.req_pkt)]
        if resp.oid == A.NOT_IN_WINDOW:
            if s.seq > since and (regular is None or s.pkt.id in regular):
                since = seq
                out.append(resp)
        elif resp.oid == A.UNKNOWN_ENGINE:
            if not one or resp.engine_id != eid:
                out.append(resp)
            eid = resp.engine_id
    return out


def accepted_any(h, r):
    ts = [t for t, *_ in h.answers[r.rid]]
    ts += [t for t, q, p, resp in h.reports[r.rid]]
    if h.version(r) == 3:
        # the outcome of discovery may delay what is sent
        pass
    return min(ts) if ts else None


def c09(h):
    """once faults stop, requests succeed"""
    q = h.w.plan.get("quiet")
    if q is None:
        return
    q += h.k.start
    if h.hung():
        yield (h.w.verdict, f"execution never finished: {h.w.k.verdict_detail}")
    for r in h.reqs:
        if r.t_call is None or not r.spec.get("must"):
            continue
        if r.t_call < q or not h.w.finished and r.outcome is None and r.failed is None:
            continue
        if h.oversized(r):
            continue
        if r.failed is not None:
            yield ("no-recovery", f"{ctx(h, r)}, made after faults ceased at {fmt(h, q)},"
                   f" could not be sent: {r.failed!r}")
        elif r.outcome is not None and r.outcome[0] not in ("ok", "error"):
            yield ("no-recovery", f"{ctx(h, r)}, made after faults ceased at {fmt(h, q)},"
                   f" ended with {describe(r.outcome)}")


def learned(h, t, seq, resp):
    """The library certainly knew the sender's keys when it read this message.

    They are there while a request or a manager holds the engine's registration."""
    s = h.by_pkt.get(h.origin(resp.req_pkt))
    r = s.req if s is not None else None
    if r is None:
        return False
    until = t + h.slack(t, t + SEC)
    if s.t < t and until < h.expires(r) and (r.dropped is None or until < r.dropped) \
            and not any(x[1] < seq for x in h.answers[r.rid] + h.reports[r.rid]) \
            and not any(x.seq > s.seq and x.t < until and
                        x.m["engine_id"] not in (b"", resp.engine_id)
                        for x in h.by_req[r.rid]):
        return True
    info = h.info(r)
    gone = info.get("deleted")
    if gone is not None and gone < until or h.w.agents[resp.agent].moved:
        return False
    if info.get("eid") is True:
        return True
    return any(x.mid == r.mid and h.level_of(x) & 1 and x.done_t is not None
               and x.done_t < t and x.outcome[0] in ("ok", "error") for x in h.reqs)


def c10(h):
    """nothing stale is accepted"""
    newest = {}             # engine id -> (boots, time, t) over accepted messages
    used = {}
    for r, (t0, t1, st, out, q0, q1, sync) in first_outcomes(h):
        if h.version(r) == 3 and h.level_of(r) & 1 and out[0] in ("ok", "error"):
            hits = [x for x in matching(h, r, out, True) if x[1] < q1]
            used[r.rid] = hits
    for t, seq, pkt, resp in h.reads:
        if resp is None or resp.version != 3 or not resp.level & 1:
            continue
        key = resp.engine_id
        b = newest.get(key)
        stale = None
        if b is not None:
            if resp.boots < b[0]:
                stale = f"its boots counter {resp.boots} is older than {b[0]}"
            elif resp.boots == b[0] and resp.time <= b[1]:
                lag = b[1] + (t - b[2]) / SEC - resp.time
                if lag > 150 + 2:
                    stale = f"it is {lag:.0f}s old"
        if resp.boots >= A.MAXINT:
            stale = "its boots counter is at the maximum"
        if stale is not None:
            resp_stale = (t, seq, stale)
            pkt.meta["stale"] = stale
            continue
        # everything else may be accepted and then advances the clock
        if (b is None or (resp.boots, resp.time) > (b[0], b[1])) \
                and learned(h, t, seq, resp):
            newest[key] = (resp.boots, resp.time, t)
    for rid, hits in used.items():
        if hits and all("stale" in x[2].meta for x in hits):
            r = h.w.reqs[rid]
            yield ("stale", f"{ctx(h, r)} accepted an authenticated answer although"
                   f" {hits[0][2].meta['stale']}")
    for behind, text in clock_errors(h):
        if behind:
            yield ("backwards", text)


def c11(h):
    """reports"""
    for r in h.reqs:
        if h.version(r) != 3 or not started(r):
            continue
        reports = h.reports[r.rid]
        exp = h.expires(r)
        for t0, t1, st, out, q0, q1, sync in r.wait_calls[:1]:
            if out[0] == "interrupt":
                continue
            seen = [x for x in reports if x[1] < q1 and x[3].oid not in INTERNAL]
            forged = any(p.meta.get("forged") for _, q, p, _ in h.reads if q < q1)
            if out[0] == "report":
                if out[2] in INTERNAL:
                    yield ("internal", f"{ctx(h, r)} surfaced {out!r}")
                want = REPORT_CLASS.get(out[2], "UnrecognizedReport")
                if out[1] != want:
                    yield ("class", f"{ctx(h, r)}: report {out[2]} surfaced as {out[1]}")
                same = [x for x in seen if x[3].oid == out[2]
                        and tuple(x[3].vbs[0][1]) == out[3]]
                if not same and not forged:
                    yield ("invented", f"{ctx(h, r)} raised {out!r}, which was never"
                           " received for it")
                if t1 < exp - h.gran * 2 - MS and not any(
                        x[3].level & 1 for x in same):
                    yield ("early", f"{ctx(h, r)} was ended at {fmt(h, t1)} by an"
                           f" unauthenticated report {out!r}")
            a = accepted(h, r)
            auth = [x for x in seen if x[3].level & 1 and fresh(h, r, x)]
            # a forged discovery points the request at an engine that is not there
            first = min([x[1] for x in auth[:1]] + [a[1]] if a else [x[1] for x in auth[:1]],
                        default=0)
            lured = any(p.meta.get("forged") == "fake_engine"
                        for _, q, p, _ in h.reads if q < first)
            if a is not None and out[0] not in ("ok", "error") and not lured and not (
                    out[0] == "report" and any(x[1] < a[1] or True for x in auth)):
                yield ("preempted", f"{ctx(h, r)} ended with {describe(out)} although its"
                       f" answer arrived at {fmt(h, a[0])}")
            if auth and a is None and not lured:
                t = auth[0][0]
                lim = max(t0, t) + h.slack(max(t0, t) - SEC, t1)
                if t <= exp - h.slack(t, exp):
                    if out[0] == "timeout" or t1 > lim:
                        yield ("ignored", f"{ctx(h, r)}: authenticated report"
                               f" {auth[0][3].oid} received at {fmt(h, t)}; wait() ended at"
                               f" {fmt(h, t1)} with {describe(out)}")
            if not auth and a is None and out[0] == "timeout" and seen:
                t = seen[0][0]
                if t <= exp - h.slack(t - SEC, exp):
                    yield ("hidden", f"{ctx(h, r)} raised Timeout although the agent had"
                           f" reported {seen[0][3].oid} at {fmt(h, t)}")


def fresh(h, r, x):
    t, seq, pkt, resp = x
    for t2, seq2, p2, other in h.reads:
        if other is not None and other.version == 3 and other.level & 1 \
                and other.engine_id == resp.engine_id and seq2 < seq \
                and other.boots > resp.boots:
            return False
    return True


def c12(h):
    """nothing accumulates"""
    if h.w.k.unraisable:
        yield ("finalizer", f"finalizer failed: {h.w.k.unraisable[:2]!r}")
    cs = [c for c in h.w.censuses]
    labels = {}
    for label, t, c in cs:
        labels.setdefault(label.split("#")[0], []).append(c)
    for label, lst in labels.items():
        if len(lst) < 3:
            continue
        grow = h.w.plan.get("grow", 6)
        a, b = lst[1], lst[-1]
        keys = (set(a) | set(b)) - set(h.w.plan.get("ignore", ()))
        bad = {}
        for key in sorted(keys):
            series = [c.get(key, 0) for c in lst[1:]]
            if series[-1] - series[0] > grow and all(
                    y >= x for x, y in zip(series, series[1:])):
                bad[key] = series
        if bad:
            yield ("growth", f"after identical rounds of requests the library keeps more"
                   f" and more objects: {dict(list(bad.items())[:4])!r}")


def c13(h):
    """start-up and shutdown"""
    w = h.w
    if w.verdict in ("deadlock", "livelock"):
        yield (w.verdict, f"execution never finished: {w.k.verdict_detail}")
    for idx, t0, t1, err, fds, alive in w.shutdowns:
        if err is not None:
            yield ("shutdown-error", f"shutting engine {idx} down at {fmt(h, t0)} raised"
                   f" {err!r}")
        if t1 - t0 > h.slack(t0 - SEC, t1):
            yield ("shutdown-slow", f"shutting engine {idx} down took"
                   f" {(t1 - t0) / 1e9:.3f}s")
    app = {fd for p in w.probes if p[0] == "openfd" for fd in p[2]}
    down = set()
    for idx, t0, t1, err, fds, alive in w.shutdowns:
        down.add(idx)
        if down != set(w.engines) or w.threads:
            continue
        # everything is down now, whichever way it was asked to
        if set(fds) - app:
            yield ("fd-leak", f"descriptors {sorted(set(fds) - app)} still open after"
                   f" engine {idx} was shut down at {fmt(h, t0)}")
            break
        if alive:
            yield ("thread-leak", f"threads {alive} still run after engine {idx} was shut"
                   f" down at {fmt(h, t0)}")
            break
    if w.finished and w.shutdowns and w.verdict == "ok":
        last = w.shutdowns[-1]
        left = [fd for fd in last[4] if fd not in app]
        if left:
            yield ("fd-leak", f"descriptors {left} ("
                   f"{[type(w.k.fds.open.get(f)).__name__ for f in left]}) still open after"
                   " every engine was shut down")
        if last[5]:
            yield ("thread-leak", f"threads {last[5]} still run after shutdown")
    for p in w.probes:
        if p[0] == "stolenfd":
            yield ("foreign-fd", f"descriptor {p[2]}, opened by the application, was"
                   " closed by the library")
        if p[0] == "connect" and p[2] is not None and p[2][0] != "ValueError":
            yield ("connect-failed", f"connectTransport{p[1]!r} raised {p[2]!r}")
        if p[0] == "mkbad" and p[2] is None and not p[1].get("may"):
            yield ("accepted-bad", f"Manager({p[1]!r}) did not fail")
        if p[0] == "mkbad" and p[2] is not None and p[1].get("expect") \
                and p[2] not in p[1]["expect"]:
            yield ("wrong-error", f"Manager({p[1]!r}) raised {p[2]}")
    if w.k.fds.bad_close:
        yield ("double-close", f"descriptor {w.k.fds.bad_close[0]} was closed twice")
    for name, err, tb in w.k.thread_errors:
        yield ("thread-died", f"thread {name} died: {err}")
    for mid, info in w.mgr_info.items():
        if info["error"] is not None and info.get("must"):
            yield ("mk-failed", f"creating manager {mid} failed: {info['error']!r}")
    yield from c09(h)


def c14(h):
    """the listener survives whatever arrives"""
    w = h.w
    for name, err, tb in w.k.thread_errors:
        if name not in w.threads:
            yield ("thread-died", f"listener thread {name} died: {err}")
    first_down = min([s[1] for s in w.shutdowns] or [h.end])
    for t, seq, pkt in w.net.delivered:
        if pkt.fate != "queued" and pkt.fate != "read":
            continue
        lim = t + h.slack(t, t + SEC) + SEC
        if pkt.fate == "queued" and lim < first_down:
            yield ("deaf", f"datagram {pkt.id} arrived at {fmt(h, t)} and was never read;"
                   f" the engine was open until {fmt(h, first_down)}")
            break
    if h.w.verdict == "livelock":
        yield ("livelock", f"{h.w.k.verdict_detail}")
    yield from c09(h)


def c15(h):
    """threads never block or disturb each other"""
    w = h.w
    if w.verdict in ("deadlock", "livelock"):
        yield (w.verdict, f"execution never finished: {w.k.verdict_detail}")
    for name, err, tb in w.k.thread_errors:
        yield ("thread-died", f"thread {name} died: {err}")
    for op, err, tb in w.errors:
        yield ("exception", f"{op[0]} raised {err}")
    for t, what, name, err in w.mk_errors:
        if what == "user":
            yield ("exception", f"adding user {name!r} at {fmt(h, t)} raised {err}")
    if w.k.unraisable:
        yield ("finalizer", f"finalizer failed: {w.k.unraisable[:2]!r}")
    for sig, msg in c06(h):
        if sig not in ("deadlock", "livelock"):
            yield (sig, msg)
    yield from c09(h)


def clock_errors(h):
    """Authenticated datagrams whose clock does not follow from what was learned."""
    known = {}
    ev = []
    for t, seq, pkt, resp in h.reads:
        if resp is not None and resp.version == 3 and resp.level & 1:
            ev.append((seq, 0, t, (resp, learned(h, t, seq, resp))))
    for s in h.sent:
        if s.version == 3 and s.level & 1 and not s.problem:
            ev.append((s.seq, 1, s.t, s))
    ev.sort(key=lambda e: (e[0], e[1]))
    pend = {}
    for seq, kind, t, x in ev:
        if kind == 0:
            x, certain = x
            key = x.engine_id
            b = known.get(key)
            if b is None or (x.boots, x.time) > (b[0], b[1]):
                # in force once the listener has finished with the message
                pend.setdefault(key, []).append((x.boots, x.time, t, certain))
                if certain:
                    known[key] = (x.boots, x.time, t)
            continue
        m = x.m
        lst = pend.get(m["engine_id"])
        if not lst:
            continue
        # any knowledge from "surely processed" to "just read" is acceptable
        sure = [i for i, b in enumerate(lst)
                if b[3] and t > b[2] + h.slack(b[2] - SEC, t)]
        if not sure:
            continue
        last = lst[sure[-1]]
        cands = lst[sure[-1]:] + [b for b in lst[:sure[-1]]
                                  if not b[3] and b[0] >= last[0]]
        ok = False
        for boots, time, at, _ in cands:
            est = min(time + (t - at) / SEC, A.MAXINT)
            tol = 1.2 + 2 * h.gran / SEC + h.slack(t - SEC, t) / SEC \
                + h.slack(at - SEC, at + SEC) / SEC
            # a slow remote clock is followed, at the latest, when the local notion
            # has run ahead of it by the size of the time window
            ahead = max(b[1] + (t - b[2]) / SEC for b in lst if b[0] == boots)
            ahead = min(ahead, max(est, time + 150 + (t - at) / SEC))
            if m["boots"] == boots and est - tol - 1 <= m["time"] <= ahead + tol:
                ok = True
        if not ok:
            boots, time, at, _ = lst[sure[-1]]
            low = min((b[0], min(b[1] + (t - b[2]) / SEC, A.MAXINT - 2)) for b in cands)
            yield ((m["boots"], m["time"]) < low, f"datagram {x.pkt.id} sent at {fmt(h, t)} claims boots"
                   f" {m['boots']} time {m['time']}; the remote engine last said"
                   f" {boots}/{time} at {fmt(h, at)}")
            return


def c16(h):
    """outgoing messages carry the remote clock"""
    for _, text in clock_errors(h):
        yield ("clock", text)
    for r, call in first_outcomes(h):
        if call[3][0] == "exc":
            yield ("exception", f"{ctx(h, r)}: wait() raised {call[3]!r}")
    for r in h.reqs:
        if r.failed is not None and r.failed[0] == "exc":
            yield ("exception", f"{ctx(h, r)}: sending raised {r.failed!r}")


def c17(h):
    """credentials stay inside their namespace, and only while registered"""
    for s in h.sent:
        if s.version == 3 and s.req is not None:
            r = s.req
            ns, user = h.user_of(r)
            if s.level & 1 and user is not None and s.m["user"] != user.name:
                yield ("user", f"datagram {s.pkt.id} for {ctx(h, r)} in namespace {ns!r} was"
                       f" sent for user {s.m['user']!r} instead of {user.name!r}")
            if s.level & 1 and not s.problem and s.ns != ns and (
                    user is not None or r.spec.get("user")):
                same = any(n == ns and u.keys(b"x") == s.cred.keys(b"x")
                           and u.name == s.cred.name for n, u in h.w.creds)
                if not same:
                    yield ("namespace", f"datagram {s.pkt.id} for {ctx(h, r)} in namespace"
                           f" {ns!r} was signed with credentials of {s.ns!r}")
        if s.version == 3 and s.level & 1 and s.problem:
            yield ("credentials", f"datagram {s.pkt.id} sent at {fmt(h, s.t)}: {s.problem}")
    for p in h.w.probes:
        if p[0] == "user" and p[2] == "replaced":
            yield ("replaced", f"user {p[1]!r} was added again with other secrets or"
                   " algorithms and not refused")
    for t, what, name, err in h.w.mk_errors:
        if what == "user":
            yield ("add-user", f"adding user {name!r} at {fmt(h, t)} raised {err}")
    for mid, info in h.w.mgr_info.items():
        exp = info.get("expect")
        if exp == "ok" and info["error"] is not None:
            yield ("refused", f"manager {mid} for engine of {info['agent']} in namespace"
                   f" {info.get('ns', '')!r} was refused: {info['error']!r}")
        elif exp == "fail" and info["error"] is None:
            yield ("shared-engine", f"manager {mid} was allowed to use engine of"
                   f" {info['agent']} under namespace {info.get('ns', '')!r} while another"
                   " namespace owned it")
    for r, (t0, t1, st, out, q0, q1, sync) in first_outcomes(h):
        if r.spec.get("must") and out[0] not in ("ok", "error"):
            yield ("unusable", f"{ctx(h, r)} ended with {describe(out)}")
        if r.spec.get("never") and out[0] in ("ok", "error"):
            yield ("crossed", f"{ctx(h, r)} succeeded with {describe(out)} although its"
                   " namespace does not own the engine")
    for r in h.reqs:
        if r.spec.get("must") and r.failed is not None:
            yield ("unusable", f"{ctx(h, r)} could not be sent: {r.failed!r}")
    if h.w.k.unraisable:
        yield ("finalizer", f"finalizer failed: {h.w.k.unraisable[:2]!r}")


ORACLES = {name.upper(): fn for name, fn in list(globals().items())
           if len(name) == 3 and name[0] == "c" and name[1:].isdigit()}


def judge(w, prop):
    h = History(w)
    return h, list(ORACLES[prop](h))


# ------------------------------------------------------------ reach
def probes(h, prop):
    """How often the situations each property is about really came up."""
    out = {}

    def add(name, n=1):
        if n:
            out[name] = out.get(name, 0) + int(n)
    w, k = h.w, h.k
    add("requests", len(h.reqs))
    add("datagrams the client sent", len(h.sent))
    add("datagrams the client read", len(h.reads))
    add("library threads", sum(1 for t in k.threads if t.name.startswith("thread-")))
    inflight = 0
    live = 0
    evs = sorted([(r.seq_call, 1) for r in h.reqs if r.seq_call]
                 + [(r.done_seq, -1) for r in h.reqs if r.done_seq])
    for _, d in evs:
        live += d
        inflight = max(inflight, live)
    add("runs with several requests in flight", inflight > 1)
    for r in h.reqs:
        n = len(h.answers[r.rid])
        add("requests answered more than once", n > 1)
        add("requests retransmitted", len(h.by_req[r.rid]) > 1)
        if r.outcome is not None:
            late = [x for x in h.answers[r.rid] if r.done_seq and x[1] > r.done_seq]
            add("answers after completion", len(late))
    if prop in ("C03", "C04", "C10", "C11", "C14", "C09"):
        add("attacker datagrams read", sum(
            1 for x in h.reads if x[2].meta.get("forged")))
    if prop in ("C03", "C10", "C16", "C09"):
        add("authenticated datagrams read", sum(
            1 for x in h.reads if x[3] is not None and x[3].level & 1))
    if prop == "C10":
        add("stale datagrams read", sum(1 for x in h.reads if x[2].meta.get("stale")))
        add("remote restarts", sum(1 for e in w.events if e[1] == "restart"))
    if prop in ("C02", "C04", "C17"):
        for s in h.sent:
            add({0: "sent as v1", 1: "sent as v2c"}.get(s.version, f"sent at level {s.level}"))
        add("discovery datagrams", sum(1 for s in h.sent if s.discovery))
    if prop == "C05":
        for s in h.sent:
            if s.cred is not None and s.level == 3:
                add("encrypted with " + s.cred.priv)
    if prop in ("C11", "C09", "C15"):
        for r in h.reqs:
            for x in h.reports[r.rid]:
                add("authenticated reports read" if x[3].level & 1
                    else "unauthenticated reports read")
    if prop in ("C06", "C07", "C08"):
        add("waits", sum(len(r.wait_calls) for r in h.reqs))
        add("waits after the deadline", sum(
            1 for r in h.reqs for c in r.wait_calls if c[0] > h.expires(r)))
        add("answers that had to be delivered", sum(
            1 for r in h.reqs if accepted(h, r) is not None) if prop == "C07" else 0)
    if prop == "C12":
        add("censuses", len(w.censuses))
    if prop == "C13":
        add("shutdowns", len(w.shutdowns))
        add("managers that could not be created", sum(
            1 for p in w.probes if p[0] == "mkbad" and p[2]))
    if prop == "C14":
        add("damaged datagrams read", sum(1 for x in h.reads if x[2].meta.get("damaged")))
    if prop == "C16":
        add("authenticated datagrams sent", sum(
            1 for s in h.sent if s.version == 3 and s.level & 1))
    if prop == "C17":
        add("managers refused", sum(1 for i in w.mgr_info.values() if i["error"]))
    if h.w.plan.get("quiet") is not None:
        add("requests that had to succeed", sum(
            1 for r in h.reqs if r.spec.get("must") and r.t_call is not None))
    return out
