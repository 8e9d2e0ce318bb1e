"""Seeded generation of plans: workload, environment and fault rates."""

from . import agent as A
from .agent import gen_oid, gen_value
from .kernel import MS, SEC, US, derive

AUTHS = ("HmacMd5", "HmacSha", "HmacSha224", "HmacSha256", "HmacSha384", "HmacSha512")
PRIVS = ("AesCfb128", "DesCbc")
SECRETS = ("maplesyrup", "correct horse battery")
V = (0, 1, 3)
PARTS = (("snmp.message", "snmp.utils"), ("snmp.manager",), ("snmp.security",),
         ("snmp.security.usm.timekeeper", "snmp.security.usm.users"),
         ("snmp.dispatcher", "snmp.transport"), ("snmp.engine", "snmp.security"))


HURRIED = (("snmp.security.usm.users", "snmp.security.usm.implementation"),
           ("snmp.security.usm.users",), ("snmp.security.usm", "snmp.manager"))


def freeze(v):
    if v[0] in ("str", "ip", "opq"):
        return [v[0], v[1].decode("latin-1")]
    if v[0] == "oid":
        return ["oid", list(v[1])]
    return list(v)


class Gen:
    def __init__(self, prop, seed):
        self.prop = prop
        self.seed = seed
        self.rng = derive(seed, "plan", prop)
        self.cfg = {}
        self.env = []
        self.tags = {}
        self.tag = 0
        self.rid = 0
        self.mid = 0
        self.ops = []
        self.threads = {}
        self.agents = []
        self.engines = []
        self.mgr = {}
        self.extra = {}
        self.prefs = False
        self.cyclic = 0

    # ---- small helpers
    def chance(self, p):
        return self.rng.random() < p

    def pick(self, *xs):
        return self.rng.choice(xs)

    def logu(self, lo, hi):
        return lo * (hi / lo) ** self.rng.random()

    def plan(self):
        p = {"seed": self.seed, "property": self.prop, "cfg": self.cfg,
             "engines": self.engines, "agents": self.agents, "tags": self.tags,
             "ops": self.ops, "threads": self.threads, "env": self.env}
        p.update(self.extra)
        return p

    # ---- configuration
    def schedule(self, weight=1.0):
        """How adversarial thread scheduling is in this run."""
        c = self.cfg
        c["cost"] = self.pick((1 * US, 3 * US), (1 * US, 6 * US), (2 * US, 40 * US))
        if self.chance(.85 * weight):
            c["switch"] = self.pick(0, .02, .1, .4)
            c["pick"] = self.pick(0, 0, .3)
        if self.chance(.55 * weight):
            c["line"] = self.pick(.001, .004, .02, .08)
            c["line_stall"] = self.pick(0, .2, .5, .8)
            if self.chance(.4):
                self.focus()
        if self.chance(.35 * weight):
            c["stall"] = self.pick(.001, .005, .03)
        c["stall_hi"] = int(self.pick(200 * US, 5 * MS, 40 * MS, 200 * MS))
        if self.chance(.3):
            c["wake_lat"] = int(self.pick(50 * US, 1 * MS, 4 * MS))
        if self.chance(.2):
            c["wrap"] = self.pick(2, 6, 40)

    def focus(self, *where):
        """Preempt over and over in one part of the library."""
        c = self.cfg
        c["focus"] = self.pick(.02, .1, .3)
        if self.chance(.6) or where:
            c["focus_in"] = list(self.pick(*(where or PARTS)))

    def clock(self, coarse=.25):
        if self.chance(coarse):
            self.cfg["gran"] = int(self.pick(1 * US, 1 * MS, 10 * MS, 15.625 * MS))

    def network(self, heavy=.5):
        c = self.cfg
        c["lat"] = self.pick((100 * US, 400 * US), (200 * US, 4 * MS), (5 * MS, 80 * MS),
                             (1 * US, 2 * MS))
        if self.chance(heavy):
            c["loss"] = self.pick(.02, .1, .3, .5)
        if self.chance(heavy):
            c["dup"] = self.pick(.05, .2, .6)
        if self.chance(heavy):
            c["delay"] = self.pick(.05, .2, .4)
            c["delay_hi"] = int(self.pick(100 * MS, 1 * SEC, 3 * SEC, 12 * SEC))
        if self.chance(.2):
            c["ready_order"] = .5

    def spurious(self, p=.3):
        if self.chance(p):
            self.cfg["spurious"] = self.pick(.02, .2)

    # ---- people
    def users(self, n, level=None, names=("alice", "bob", "carol", "dave", "erin"),
              priv=None, auth=None):
        out = []
        for name in self.rng.sample(names, n):
            lvl = level if level is not None else self.pick(0, 1, 3, 3)
            u = {"name": name}
            if lvl & 1:
                u["auth"] = auth or self.pick(*AUTHS)
                s = self.pick(*SECRETS)
                if self.chance(.3):
                    u["authSecret"] = s
                    u["privSecret"] = self.pick(*SECRETS)
                else:
                    u["secret"] = s
            if lvl & 2:
                u["priv"] = priv or self.pick(*PRIVS)
            out.append(u)
        return out

    def agent(self, users=(), **kw):
        i = len(self.agents) + 1
        v6 = kw.pop("v6", False)
        spec = {"id": f"a{i}",
                "addr": f"2001:db8::{i:x}" if v6 else f"198.51.100.{i}",
                "port": self.pick(161, 161, 10161 + i),
                "engine_id": (b"\x80\0\x1f\x88" + bytes((i,)) +
                              self.rng.randbytes(self.pick(1, 7, 12, 27))).hex(),
                "boots": self.pick(1, 1, 2, 7, 300, 70000), "time": self.pick(
                    0, 1, 100, 5000, 40000, 3000000),
                "users": list(users), "communities": ["public", "private"]}
        spec["proc"] = self.pick((10 * US, 100 * US), (50 * US, 800 * US), (1 * MS, 30 * MS))
        q = {}
        if self.chance(.2):
            q["longform"] = self.pick(1, 1, 2)
        if self.chance(.15):
            q["reply_from"] = ["198.51.100.200" if not v6 else "2001:db8::c8", spec["port"]]
        if self.chance(.2):
            q["noreqid"] = 0
        if self.chance(.2):
            q["hint0"] = True
        if self.chance(.2):
            q["pad"] = self.pick(1, 7, 255)
        spec["quirks"] = q
        spec.update(kw)
        self.agents.append(spec)
        return spec

    def preferences(self, users):
        """What is left to the engine's defaults: users, their levels, versions, domains."""
        self.prefs = True
        for u in users:
            if self.chance(.3):
                u["default"] = self.chance(.6)
            top = (1 if u.get("auth") else 0) | (2 if u.get("priv") else 0)
            if self.chance(.4):
                u["level"] = self.pick(*[x for x in (0, 1, 3) if x & top == x])

    def default_user(self, users, ns=""):
        mine = [u for u in users if u.get("ns", "") == ns]
        chosen = [u for u in mine if u.get("default")]
        return chosen[-1] if chosen else mine[0]

    def engine(self, users=(), **kw):
        if self.prefs:
            if self.chance(.4):
                kw.setdefault("version", self.pick(0, 1, 3))
            if self.chance(.2):
                kw.setdefault("v6", True)
        spec = {"id": len(self.engines), "users": [dict(u) for u in users]}
        spec.update(kw)
        self.engines.append(spec)
        return spec

    def manager(self, agent, version, ops=None, **kw):
        self.mid += 1
        mid = f"m{self.mid}"
        spec = {"agent": agent["id"], "version": version}
        if version == 3:
            users = agent["users"]
            default = kw.pop("default", None)
            u = kw.pop("u", None) or default or self.pick(*users)
            spec["user"] = u["name"]
            top = (1 if u.get("auth") else 0) | (2 if u.get("priv") else 0)
            spec["default_level"] = u.get("level", top)
            spec["top"] = top
            if default is u and self.chance(.5):
                # the application names no user
                spec["default_user_name"] = spec.pop("user")
            if self.chance(.3) and "level" not in kw:
                spec["level"] = spec["default_level"] = top
            if self.chance(.4) and "eid" not in kw:
                spec["eid"] = True
        elif self.chance(.8):
            spec["community"] = self.pick("public", "private")
        else:
            spec["community"] = "public"
        spec.update(kw)
        if self.prefs:
            eng = self.engines[spec.get("eng", 0)]
            if eng.get("version", 3) == version and self.chance(.6):
                spec["default_version"] = True
            if bool(eng.get("v6")) == (":" in agent["addr"]) and self.chance(.6):
                spec["default_domain"] = True
        self.mgr[mid] = spec
        (self.ops if ops is None else ops).append(["mk", mid, spec])
        return mid

    def newtag(self, behaviour=None):
        self.tag += 1
        if behaviour:
            self.tags[str(self.tag)] = behaviour
        return self.tag

    def request(self, mid, ops, behaviour=None, **kw):
        self.rid += 1
        rid = f"r{self.rid}"
        spec = self.mgr[mid]
        v = spec["version"]
        kinds = ["get", "get", "getNext", "set"] + (["getBulk"] if v else [])
        req = {"tag": self.newtag(behaviour), "type": self.pick(*kinds)}
        req.update({k: x for k, x in kw.items() if x is not None})
        if req["type"] == "getBulk":
            req.setdefault("mr", self.pick(0, 1, 2, 5))
            req.setdefault("nr", self.pick(0, 0, 1, 2))
        if req["type"] == "set":
            n = self.pick(0, 1, 2)
            req.setdefault("oids", [list(gen_oid(self.rng)) for _ in range(n)])
            req.setdefault("vals", [freeze(gen_value(self.rng, True, 40))
                                    for _ in req["oids"]])
            req["vals"] = [v if v[0] != "null" else ["int", 0] for v in req["vals"]]
        else:
            req.setdefault("oids", [list(gen_oid(self.rng))
                                    for _ in range(self.pick(0, 0, 1, 3))])
        if self.chance(.2):
            req["text"] = True
        ops.append(["req", rid, mid, req])
        return rid

    def timing(self):
        """(timeout, refreshPeriod)"""
        r = self.rng.random()
        if r < .3:
            return {}
        if r < .8:
            return {"timeout": self.pick(.05, .5, 1.0, 2.0, 3.0, 5.0, 10.0),
                    "refreshPeriod": self.pick(.01, .05, .2, .5, 1.0, 2.0)}
        return {"timeout": round(self.logu(.01, 20), 6),
                "refreshPeriod": round(self.logu(.02, 10), 6)}

    def batch(self, mids, ops, n, behave=None, timing=None, drop=.1, sleep=.2, late=.1,
              must=False, sync=.3, mixed=0, **kw):
        """n requests, some together in flight, waited for in any order."""
        open_ = []
        for _ in range(n):
            mid = self.pick(*mids)
            t = timing() if timing else self.timing()
            b = behave() if behave else None
            extra = {k: (v() if callable(v) else v) for k, v in kw.items()}
            if must:
                extra["must"] = True
            if mixed and self.mgr[mid]["version"] == 3 and self.chance(mixed):
                top = self.mgr[mid]["top"]
                extra["level"] = self.pick(*[x for x in (0, 1, 3) if x & top == x])
            if self.chance(sync):
                self.request(mid, ops, b, wait=True, **t, **extra)
            else:
                open_.append((self.request(mid, ops, b, wait=False, **t, **extra), t))
            if self.chance(sleep):
                ops.append(["sleep", int(self.logu(10 * US, 3 * SEC))])
            if open_ and self.chance(.3):
                self.finish(ops, open_, drop, late)
        self.rng.shuffle(open_)
        while open_:
            self.finish(ops, open_, drop, late)

    def finish(self, ops, open_, drop, late):
        rid, t = open_.pop(self.rng.randrange(len(open_)))
        if self.chance(drop):
            ops.append(["drop", rid] + ([True] if self.chance(self.cyclic) else []))
            return
        if self.chance(late):
            ops.append(["sleep", int(max(0, t.get("timeout", 10.0) + self.rng.random() - .2)
                                     * SEC)])
        ops.append(["wait", rid])
        if self.chance(.7):
            ops.append(["drop", rid] + ([True] if self.chance(self.cyclic) else []))

    def quiet(self, at):
        self.extra["quiet"] = int(at)

    def sys_faults(self, p=.3):
        c = self.cfg
        if self.chance(p):
            c["recv_err"] = self.pick(.01, .1, .3)
        if self.chance(p * .5):
            c["corrupt"] = self.pick(.02, .15)
        if self.chance(p * .5):
            c["trunc"] = self.pick(.02, .15)
        self.spurious(p)

    def spread(self, mgrs, build, nthreads):
        """Give each manager to one thread; build(ops, mids) fills the ops."""
        owners = [self.ops] + []
        groups = [[] for _ in range(nthreads + 1)]
        for m in mgrs:
            groups[self.rng.randrange(nthreads + 1)].append(m)
        names = []
        for i in range(nthreads):
            if groups[i + 1]:
                name = f"app{i + 1}"
                ops = []
                build(ops, groups[i + 1])
                self.threads[name] = ops
                names.append(name)
                self.ops.append(["spawn", name])
        if groups[0]:
            build(self.ops, groups[0])
        for n in names:
            self.ops.append(["join", n])

    def std_world(self, nagents=None, versions=V, level=None, engines=1, v6=.15,
                  users=None):
        """Agents and one manager per agent and version at most (v3: exactly one)."""
        nagents = nagents or self.pick(1, 1, 2, 3)
        users = users or self.users(self.pick(1, 2, 3), level)
        for _ in range(engines):
            self.engine(users, **({"maxsize": self.pick(484, 700, 1472, 4000, 65507)}
                                  if self.chance(.15) else {}))
        for _ in range(nagents):
            mine = list(users)
            self.agent(mine, v6=self.chance(v6))
        mids = []
        for a in self.agents:
            vs = [v for v in versions if self.chance(.6)] or [self.pick(*versions)]
            for v in vs:
                eng = self.rng.randrange(engines)
                kw = {"eng": eng} if engines > 1 else {}
                if self.chance(.15):
                    kw["local"] = ["::" if ":" in a["addr"] else "0.0.0.0",
                                   self.rng.randrange(20000, 30000)]
                mids.append(self.manager(a, v, **kw))
        return mids


def storm(g, versions=V):
    """Several threads send at once; every thread switch may fall anywhere."""
    c = g.cfg
    c["cost"] = (1 * US, 3 * US)
    c["switch"] = g.pick(.1, .4)
    c["line"] = g.pick(.004, .02)
    c["line_stall"] = g.pick(0, 0, .3)
    g.focus(*g.pick(PARTS[:1], PARTS[:3]))
    c["stall_hi"] = int(g.pick(100 * US, MS, 10 * MS))
    c["lat"] = (g.pick(100 * US, 5 * MS), 20 * MS)
    users = g.users(g.pick(1, 2))
    g.engine(users)
    n = g.pick(2, 2, 3, 4)
    v = g.pick(*versions)
    mids = []
    for _ in range(n):
        a = g.agent(users)
        mids.append(g.manager(a, v if g.chance(.8) else g.pick(*versions)))
    kw = {"timeout": g.pick(1.0, 3.0), "refreshPeriod": g.pick(.05, .5, 1.0)}
    for i, m in enumerate(mids):
        ops = g.ops
        if i:
            ops = g.threads[f"app{i}"] = []
            g.ops.insert(n + i - 1, ["spawn", f"app{i}"])
        rids = [g.request(m, ops, None, wait=False, type="get", oids=[], **kw)
                for _ in range(g.pick(3, 6, 10))]
        for r in rids:
            ops.append(["wait", r])
            ops.append(["drop", r])
    for i in range(1, n):
        g.ops.append(["join", f"app{i}"])


# ------------------------------------------------------------------ profiles
def p01(g):
    if g.chance(.25):
        return storm(g)
    g.schedule()
    g.clock(.15)
    g.network(.7)
    g.spurious()
    mids = g.std_world(nagents=g.pick(1, 2, 2, 3), engines=g.pick(1, 1, 1, 2))
    if g.chance(.2):
        g.cfg["recv_err"] = g.pick(.02, .1)
    if g.chance(.3):
        g.cfg["corrupt"] = g.pick(.05, .2)

    def behave():
        r = g.rng.random()
        if r < .15:
            return {"silent": True, "first": g.pick(1, 2), "then": {}}
        if r < .25:
            return {"silent": True}
        if r < .4:
            return {"error": 1.0}
        return None
    def timing():
        p = g.pick(.005, .02, .1, .4, 1.0)
        return {"timeout": min(g.pick(.02, .1, .5, 2.0, 4.0), 40 * p), "refreshPeriod": p}
    env_restart(g, .2)

    def build(ops, ms):
        for _ in range(g.pick(1, 2)):
            g.batch(ms, ops, g.pick(3, 6, 10), behave, timing, drop=.15, late=.15)
    g.spread(mids, build, g.pick(0, 0, 1, 2))


def env_restart(g, p, n=1):
    for a in g.agents:
        for _ in range(n):
            if g.chance(p):
                ev = {"do": "restart", "agent": a["id"],
                      "gap": int(g.pick(0, 10 * MS, 2 * SEC)), "time0": g.pick(0, 0, 3)}
                if g.chance(.5):
                    ev["pkt"] = g.rng.randrange(1, 16)
                else:
                    ev["at"] = int(g.logu(MS, 20 * SEC))
                g.env.append(ev)


def p02(g):
    g.schedule(.4)
    g.cfg["lat"] = (100 * US, 2 * MS)
    if g.chance(.4):
        g.cfg["loss"] = g.pick(.1, .3)
    if g.chance(.3):
        g.cfg["dup"] = .2
    users = g.users(g.pick(2, 3))
    if g.chance(.4):
        g.preferences(users)
    g.engine(users, **({"maxsize": g.pick(484, 600, 1472, 2000, 8192, 65507)}
                       if g.chance(.4) else {}),
             **({"community": g.pick("public", "private")} if g.chance(.3) else {}))
    jumbo = g.chance(.05)
    if jumbo:
        # values and messages as large as a datagram can be
        g.engines[0]["maxsize"] = 65507
    big = g.engines[0].get("maxsize", 1472)
    mids = []
    for _ in range(g.pick(1, 2)):
        a = g.agent(users, v6=g.chance(.25))
        a["limit"] = g.pick(484, 1472, 1472, 8000, 65000) if not jumbo else 65000
        a["limit"] = min(a["limit"], big)
        if g.chance(.4):
            a["quirks"]["longform"] = g.pick(1, 2)
        if g.chance(.1):
            a["time"] = g.pick(A.MAXINT - 5000, 1 << 24, 127, 128, 65535)
        if g.chance(.1):
            a["boots"] = g.pick(A.MAXINT - 1, 127, 128, 32768, 1 << 24)
        for v in V:
            if g.chance(.6):
                kw = {}
                if v != 3 and g.engines[0].get("community") and g.chance(.5):
                    kw["community"] = None
                if v == 3 and g.prefs and g.chance(.4):
                    kw["default"] = g.default_user(users)
                mids.append(g.manager(a, v, **kw))
    if not mids:
        mids.append(g.manager(g.agents[0], 3))

    def behave():
        b = {"budget": g.pick(0, 10, 60, 130, 300, 600, 1200)}
        if jumbo and g.chance(.5):
            b["budget"] = g.pick(5000, 40000, 64000)
        if g.chance(.15):
            b["error"] = 1.0
        return b
    for _ in range(g.pick(6, 10, 16)):
        mid = g.pick(*mids)
        spec = g.mgr[mid]
        kw = {"timeout": 8.0, "refreshPeriod": g.pick(.5, 1.0)}
        a = next(x for x in g.agents if x["id"] == spec["agent"])
        if spec["version"] == 3:
            # another user or a lower level for one request
            if g.chance(.25):
                u = g.pick(*a["users"])
                kw["user"] = u["name"]
                kw["level"] = (1 if u.get("auth") else 0) | (2 if u.get("priv") else 0)
            elif g.chance(.2):
                top = spec["top"]
                kw["level"] = g.pick(*[x for x in (0, 1, 3) if x & top == x])
        elif g.chance(.2):
            kw["community"] = g.pick("public", "private")
        n = g.pick(0, 1, 2, 4, 8, 12) if not jumbo else g.pick(0, 1, 1)
        long = g.chance(.1)
        kind = g.pick("get", "getNext", "set", "set") if spec["version"] == 0 else \
            g.pick("get", "getNext", "set", "set", "getBulk")
        oids = [list(gen_oid(g.rng, long)) for _ in range(n)]
        if kind == "set":
            room = max(10, (min(big, a["limit"]) - 250) // (n + 1) - 40)
            vals = []
            for o in oids:
                top = 600 if not jumbo or g.chance(.5) else 50000
                v = gen_value(g.rng, spec["version"] == 0, min(room, top))
                while v[0] in ("nso", "nsi", "eom", "null"):
                    v = gen_value(g.rng, spec["version"] == 0, min(room, top))
                vals.append(freeze(v))
            kw["vals"] = vals
        if kind == "getBulk":
            kw["mr"] = g.pick(0, 1, 5, 10, 127, 128, 1000, A.MAXINT)
            kw["nr"] = g.pick(0, 0, 1, 3, 128, A.MAXINT)
        rid = g.request(mid, g.ops, behave(), type=kind, oids=oids,
                        wait=g.chance(.6), **kw)
        if not g.ops[-1][3]["wait"]:
            g.ops.append(["wait", rid])


ATTACKS = ("forge_plain", "forge_mac", "forge_zero", "forge_empty", "forge_short",
           "wrong_key", "insider_user", "insider_engine", "forge_report",
           "forge_window", "fake_engine", "replay", "swap_msgid", "reflect", "poison",
           "privonly", "forge_discovery", "forge_nokey", "tamper", "strip", "suppress",
           "tamper_hdr", "prefix_mac", "downgrade")

# what a client that gets real answers must not be put off by
NOISE = ("forge_plain", "forge_mac", "forge_zero", "forge_empty", "forge_short",
         "wrong_key", "insider_engine", "replay", "swap_msgid", "reflect", "privonly",
         "forge_nokey", "prefix_mac", "forge_community", "downgrade")


def attack(g, names=None, rate=None, k=None):
    names = names or ATTACKS
    n = k or g.pick(1, 2, 4, 8)
    chosen = g.rng.sample(names, min(n, len(names)))
    insiders = [{"name": "mallory", "auth": g.pick(*AUTHS), "priv": g.pick(*PRIVS),
                 "secret": "the secret of mallory"}]
    return {"rate": {c: rate or g.pick(.2, .5, 1.0) for c in chosen},
            "peek": g.chance(.7), "insiders": insiders, "hostile": [],
            "budget": g.pick(20, 60, 200)}


def with_attack(g, names=None, **kw):
    at = attack(g, names, **kw)
    mal = at["insiders"][0]
    for e in g.engines:
        e["users"].append(dict(mal))
    for a in g.agents:
        a["users"].append(dict(mal))
    hostile = "80001f8866" + g.rng.randbytes(6).hex()
    at["hostile"] = [hostile]
    g.extra["attack"] = at
    return mal, hostile


def p03(g):
    g.schedule(.5)
    g.network(.2)
    users = g.users(g.pick(1, 2), level=g.pick(1, 3, 3))
    if g.chance(.3):
        users += g.users(1, level=0, names=("zoe",))
    g.engine(users)
    for _ in range(g.pick(1, 1, 2)):
        g.agent(list(users))
    mal, hostile = with_attack(g)
    victims = [u for u in users if u.get("auth")]
    mids = []
    for a in g.agents:
        mids.append(g.manager(a, 3, u=g.pick(*victims)))
    if g.chance(.5):
        # the client also talks to the hostile engine
        h = g.agent(list(g.agents[0]["users"]), engine_id=hostile)
        hm = g.manager(h, 3, u=g.pick(*victims))
        g.request(hm, g.ops, timeout=1.0, refreshPeriod=.3, wait=True)
    env_restart(g, .15)
    slow = g.chance(.4)

    def behave():
        r = g.rng.random()
        if r < .2:
            return {"silent": True}
        if r < .3:
            return {"error": 1.0}
        return None
    if slow:
        for a in g.agents:
            a["proc"] = (5 * MS, 60 * MS)
    g.batch(mids, g.ops, g.pick(3, 6, 10), behave,
            lambda: {"timeout": g.pick(.5, 1.0, 2.0), "refreshPeriod": g.pick(.1, .3, 1.0)},
            level=lambda: g.pick(None, None, None, 1), late=.05)
    if g.chance(.4):
        g.ops.insert(2 + g.rng.randrange(max(1, len(g.ops) - 2)),
                     ["sleep", int(g.logu(SEC, 400 * SEC))])


def p04(g):
    g.schedule(.6)
    g.network(.4)
    users = g.users(g.pick(1, 2), level=g.pick(None, 1, 3, 3))
    ns, decoys = "", []
    if g.chance(.4):
        g.preferences(users)
        if g.chance(.4):
            # another namespace has users of the same names with other preferences
            ns = "lab"
            decoys = [{k: v for k, v in u.items() if k not in ("authSecret", "privSecret")}
                      for u in users]
            for u in decoys:
                u["secret"] = "the decoy of " + u["name"]
            g.preferences(decoys)
            for u in users:
                u["ns"] = ns
    g.engine(decoys + users)
    for _ in range(g.pick(1, 2)):
        g.agent(list(users))
    if g.chance(.6):
        mal, hostile = with_attack(
            g, ("fake_engine", "forge_window", "forge_report", "poison", "forge_plain",
                "replay", "forge_discovery"))
    kw = {"ns": ns} if ns else {}
    mids = [g.manager(a, 3, default=g.default_user(users, ns), **kw)
            if g.prefs and g.chance(.5)
            else g.manager(a, 3, u=g.pick(*users), **kw) for a in g.agents]
    env_restart(g, .4)
    for a in g.agents:
        if g.chance(.25):
            g.env.append({"do": "engineid", "agent": a["id"],
                          "pkt": g.rng.randrange(1, 10),
                          "engine_id": "80001f88aa" + g.rng.randbytes(5).hex()})

    def level():
        return None
    by = {u["name"]: (1 if u.get("auth") else 0) | (2 if u.get("priv") else 0)
          for u in users}
    n = g.pick(4, 8)
    open_ = []
    for _ in range(n):
        mid = g.pick(*mids)
        kw = {"timeout": g.pick(.5, 2.0), "refreshPeriod": g.pick(.1, .5)}
        if g.chance(.3):
            u = g.pick(*users)
            kw["user"] = u["name"]
            kw["level"] = by[u["name"]]
        elif g.chance(.4):
            top = g.mgr[mid]["top"]
            kw["level"] = g.pick(*[x for x in (0, 1, 3) if x & top == x])
        open_.append((g.request(mid, g.ops, None, wait=False, **kw), kw))
        while open_ and g.chance(.5):
            g.finish(g.ops, open_, .05, .05)
    while open_:
        g.finish(g.ops, open_, .05, .05)


def p05(g):
    g.schedule(.8)
    if g.chance(.3):
        g.cfg.update(line=.02, line_stall=g.pick(0, .2))
        g.focus(("snmp.security",), ("snmp.manager", "snmp.security"))
    g.network(.4)
    pr = g.pick(*PRIVS)
    users = g.users(g.pick(1, 2), level=3, priv=pr if g.chance(.7) else None)
    if g.chance(.3):
        g.cfg["rand_edge"] = g.pick(1, 1, 2, 3)
        engines = 1
    else:
        engines = g.pick(1, 1, 2)
    mids = []
    for _ in range(engines):
        g.engine(users)
    for i in range(g.pick(1, 2)):
        a = g.agent(users)
        if engines == 2:
            # the same remote engine, from two engines of one process
            for e in range(2):
                mids.append(g.manager(a, 3, eng=e))
        else:
            mids.append(g.manager(a, 3))
    env_restart(g, .3)

    def behave():
        if g.chance(.4):
            return {"silent": True, "first": g.pick(1, 2, 5), "then": {}}
        return None

    def build(ops, ms):
        g.batch(ms, ops, g.pick(5, 10, 20), behave,
                lambda: {"timeout": g.pick(.5, 2.0), "refreshPeriod": g.pick(.02, .1, .3)},
                drop=.05, late=0)
    g.spread(mids, build, g.pick(0, 1))
    if g.chance(.3) and not g.cfg.get("rand_edge"):
        # credentials registered again while in use
        u = dict(g.pick(*users))
        g.ops.insert(len(g.ops) // 2, ["user", 0, u])


def p06(g):
    if g.chance(.1):
        return churn(g, *HURRIED)
    g.schedule()
    g.clock(.4)
    g.network(.5)
    g.spurious(.3)
    mids = g.std_world(nagents=g.pick(1, 1, 2))
    for a in g.agents:
        r = g.rng.random()
        if r < .25:
            g.env.append({"do": "partition", "agent": a["id"],
                          "at": int(g.logu(US, 5 * SEC)), "for": int(g.logu(MS, 30 * SEC))})
        elif r < .4:
            g.env.append({"do": "agent_stall", "agent": a["id"],
                          "at": int(g.logu(US, 5 * SEC)), "for": int(g.logu(MS, 30 * SEC)),
                          "keep": g.chance(.5)})
    env_restart(g, .15)
    if g.chance(.35):
        for _ in range(g.pick(1, 2)):
            g.env.append({"do": "wall", "at": int(g.logu(MS, 10 * SEC)),
                          "by": int(g.pick(-3600, -30, -2, -.5, .5, 2, 30, 3600,
                                           -10 ** 9) * SEC)})
    if g.chance(.15):
        g.env.append({"do": "sigint", "at": int(g.logu(MS, 5 * SEC))})

    def behave():
        r = g.rng.random()
        if r < .3:
            return {"silent": True}
        if r < .4:
            return {"silent": True, "first": g.pick(1, 3), "then": {}}
        return None

    def timing():
        r = g.rng.random()
        if r < .5:
            return {"timeout": g.pick(0.0, .001, .05, .5, 1.0, 2.0, 3.0),
                    "refreshPeriod": g.pick(.01, .1, .25, .5, 1.0, 3.0, 20.0)}
        if r < .6:
            return {}
        p = round(g.logu(.02, 4), 4)
        return {"timeout": round(p * g.pick(1, 1, 2, 3, .5), 6), "refreshPeriod": p}

    def build(ops, ms):
        for _ in range(g.pick(1, 2)):
            g.batch(ms, ops, g.pick(1, 2, 4, 6), behave, timing, drop=.1, late=.1)
    g.spread(mids, build, g.pick(0, 0, 1, 2))


def p07(g):
    if g.chance(.03):
        return crowd(g)
    g.schedule()
    g.clock(.3)
    g.network(.4)
    mids = g.std_world(nagents=g.pick(1, 2))
    if g.chance(.3):
        for a in g.agents:
            a["proc"] = (5 * MS, int(g.pick(50 * MS, 400 * MS)))
    if g.chance(.3):
        # others answer as well, and are not believed
        with_attack(g, NOISE)
        if not g.rng.randrange(2):
            g.extra["attack"]["rate"]["forge_community"] = 1.0

    def timing():
        return {"timeout": g.pick(.2, .3, .5, 1.0, 2.0, 4.0),
                "refreshPeriod": g.pick(.05, .1, .5, 1.0, 5.0)}

    def behave():
        r = g.rng.random()
        if r < .15:
            return {"error": 1.0}
        if r < .25:
            return {"silent": True, "first": 1, "then": {}}
        if r < .3:
            return {"silent": True}
        return None

    def build(ops, ms):
        for _ in range(g.pick(1, 2, 3)):
            g.batch(ms, ops, g.pick(1, 3, 5), behave, timing, drop=.05, late=.45, sleep=.3)
    g.spread(mids, build, g.pick(0, 0, 1))
    # waiting twice
    for ops in [g.ops] + list(g.threads.values()):
        for i in range(len(ops) - 1, -1, -1):
            if ops[i][0] == "wait" and g.chance(.2):
                ops.insert(i + 1, list(ops[i]))


def crowd(g):
    """Many requests are queued for an engine that is not known, or not in step, yet."""
    g.schedule(.4)
    g.clock(.8)
    g.network(.9)
    g.cfg["stall_hi"] = min(g.cfg["stall_hi"], 2 * MS)
    users = g.users(1)
    g.engine(users)
    g.agent(list(users))
    m = g.manager(g.agents[0], 3)
    if g.chance(.5):
        g.mgr[m]["eid"] = True
    ops = g.ops
    hold = int(g.pick(.3, 1, 2, 4) * SEC)
    g.env.append({"do": "partition", "agent": g.agents[0]["id"], "at": 0, "for": hold})
    first = g.pick(.2, .5, 1.0, 8.0)
    lead = g.request(m, ops, None, wait=False, timeout=first,
                     refreshPeriod=g.pick(.1, .25, .5))
    hurt = g.chance(.3)
    if hurt:
        ops.append(["cfg", {"send_err": g.pick(.2, .6, 1.0)}])
    n = g.pick(2, 5, 9, 12, 20, 40)
    rest = []
    for _ in range(n):
        rest.append(g.request(m, ops, None, wait=False, timeout=hold / SEC + g.pick(4, 8),
                              refreshPeriod=g.pick(.25, .5, 1.0)))
        if g.chance(.1):
            ops.append(["sleep", int(g.logu(10 * US, 50 * MS))])
    order = [lead] + rest
    if g.chance(.5):
        order = rest + [lead]
        if g.chance(.5):
            g.rng.shuffle(order)
    k = 0
    if hurt:
        # whoever waits meets the failure; then the network interface works again
        k = g.pick(1, 2)
        for rid in order[:k]:
            ops.append(["wait", rid])
        ops.append(["cfg", {"send_err": 0}])
    for rid in order[k:] + (order[:k] if hurt else []):
        ops.append(["wait", rid])
        if g.chance(.5):
            ops.append(["drop", rid])


def p08(g):
    if g.chance(.08):
        return crowd(g)
    g.schedule(.5)
    g.clock(.5)
    g.network(.3)
    g.cfg["stall_hi"] = min(g.cfg["stall_hi"], 20 * MS)
    mids = g.std_world(nagents=g.pick(1, 1, 2))
    if g.chance(.15):
        g.cfg["send_err"] = g.pick(.05, .2, .4)

    def behave():
        r = g.rng.random()
        if r < .1:
            # refused, by nobody in particular, and answered
            return {"report": [list(g.pick(*REPORTS)), g.pick(0, 0, 1)], "first": 99,
                    "then": {}, "also_answer": g.chance(.6)}
        if r < .16:
            # a clock nobody can follow
            return {"report": [list(A.NOT_IN_WINDOW), g.pick(0, 1)],
                    "first": g.pick(1, 3, 99), "then": {}}
        if r < .5:
            return {"silent": True}
        if r < .8:
            return {"silent": True, "first": g.pick(1, 2, 4), "then": {}}
        return None

    def timing():
        return {"timeout": g.pick(.5, 1.0, 2.0, 4.0, 10.0),
                "refreshPeriod": g.pick(.1, .2, .25, .5, 1.0, 1.0, 2.0, .3, 3.0)}

    mixed = g.pick(0, 0, .6)
    for m in mids:
        if mixed and g.mgr[m]["version"] == 3 and g.chance(.6):
            g.mgr[m]["eid"] = True

    def build(ops, ms):
        for m in ms:
            # one exchange first, and a request that nobody waits on at once
            if mixed and g.mgr[m]["version"] == 3 and g.chance(.5):
                if g.chance(.5):
                    g.request(m, ops, None, wait=True, level=0)
                else:
                    # the engine tells its time but never answers
                    g.request(m, ops, {"silent": True}, wait=False, **timing())
                    ops.append(["sleep", int(g.pick(.1, .3, .6) * SEC)])
                rid = g.request(m, ops, behave(), wait=False, **timing())
                ops.append(["sleep", int(g.pick(.1, .3, 1.0, 2.5) * SEC)])
                ops.append(["wait", rid])
        for _ in range(g.pick(1, 2)):
            g.batch(ms, ops, g.pick(1, 2, 3, 5), behave, timing, drop=.1, late=.05,
                    sleep=.4, sync=.2, mixed=mixed)
    g.spread(mids, build, g.pick(0, 0, 1))
    if g.chance(.3):
        # answers and reports that come when other requests' copies are due
        for a in g.agents:
            a["slow"] = [g.pick(.3, .7, 1.0), int(g.pick(300 * MS, SEC, 4 * SEC))]
    if g.chance(.45):
        env_restart(g, .6, g.pick(1, 2, 3, 6))


def chaos(g, until):
    """Environment faults that all stop by `until`."""
    for a in g.agents:
        for _ in range(g.pick(0, 1, 2)):
            r = g.rng.random()
            at = int(g.logu(US, until))
            dur = int(g.logu(MS, until))
            if r < .3:
                g.env.append({"do": "partition", "agent": a["id"], "at": at, "for": dur})
            elif r < .5:
                g.env.append({"do": "agent_stall", "agent": a["id"], "at": at,
                              "for": min(dur, max(MS, until - at)), "keep": g.chance(.5)})
            elif r < .8:
                g.env.append({"do": "restart", "agent": a["id"], "at": at,
                              "gap": min(int(g.pick(0, MS, SEC)), max(0, until - at)),
                              "time0": g.pick(0, 0, 7)})
            else:
                ev = {"do": "restart", "agent": a["id"], "pkt": g.rng.randrange(1, 12),
                      "gap": int(g.pick(0, MS))}
                g.env.append(ev)


def recovery(g, mids, at, per=2, threads=0, timeout=10.0, lazy=0):
    """After the quiet point every manager must answer again."""
    g.quiet(at)
    # with lazy, nothing is repeated: each datagram has to do
    once = [3 * timeout] if g.chance(lazy) else [.5, 1.0]

    def tail(ops, ms):
        ops.append(["until", int(at + g.pick(MS, 100 * MS, 2 * SEC))])
        open_ = []
        for m in ms:
            for _ in range(g.pick(1, per) if per < 9 else per):
                if g.chance(.6 if per < 9 else .02):
                    g.request(m, ops, None, wait=True, must=True, timeout=timeout,
                              refreshPeriod=g.pick(*once))
                else:
                    rid = g.request(m, ops, None, wait=False, must=True, timeout=timeout,
                                    refreshPeriod=g.pick(*once))
                    open_.append(rid)
        for rid in open_:
            ops.append(["wait", rid])
    return tail


def p09(g):
    g.schedule(.7)
    g.clock(.2)
    g.network(.8)
    g.sys_faults(.3)
    at = g.pick(1, 3, 8, 20) * SEC
    mids = g.std_world(nagents=g.pick(1, 1, 2, 3))
    chaos(g, at)
    if g.chance(.2):
        # the remote clock lags behind by more than the time window
        a = g.pick(*g.agents)
        if g.chance(.5):
            hold = int(g.pick(140, 160, 300, 1000) * SEC)
            g.env.append({"do": "agent_stall", "agent": a["id"], "at": int(g.logu(MS, at)),
                          "for": hold, "keep": g.chance(.5), "clock": True})
            at += hold
        else:
            a["rate"] = g.pick(.1, .5, .9, .999)
            at += int(g.pick(200, 2000, 500000) * SEC)
    if g.chance(.3):
        g.cfg["send_err"] = g.pick(.05, .3)
    if g.chance(.25):
        g.env.append({"do": "wall", "at": int(g.logu(MS, at)),
                      "by": int(g.pick(-3600, -5, 5, 3600, -10 ** 9, 10 ** 8) * SEC)})
    if g.chance(.3):
        with_attack(g, ("poison", "fake_engine", "forge_window", "forge_report",
                        "suppress", "tamper", "forge_plain", "forge_discovery"))
        g.extra["attack"]["until"] = int(at)
    for a in g.agents:
        if g.chance(.15):
            g.env.append({"do": "engineid", "agent": a["id"], "at": int(g.logu(MS, at)),
                          "engine_id": "80001f88aa" + g.rng.randbytes(5).hex()})
            for m in mids:
                if g.mgr[m]["agent"] == a["id"]:
                    g.mgr[m].pop("eid", None)
        if g.chance(.15):
            # the remote clock stops for a while, or runs fast
            g.env.append({"do": "clockskip", "agent": a["id"], "at": int(g.logu(MS, at)),
                          "by": g.pick(10, 200, 100000)})

    def behave():
        r = g.rng.random()
        if r < .2:
            return {"silent": True}
        if r < .3:
            return {"silent": True, "first": g.pick(1, 3), "then": {}}
        return None
    timing = lambda: {"timeout": g.pick(.2, .5, 1.0, 2.0, 5.0),
                      "refreshPeriod": g.pick(.05, .2, .5, 1.0)}
    # sometimes a crowd, and sometimes the first word to that engine
    many = g.chance(.06)
    if many:
        tail = recovery(g, mids, at, per=g.pick(12, 20), timeout=30.0)
    else:
        tail = recovery(g, mids, at, lazy=.4)

    def build(ops, ms):
        g.batch(ms, ops, g.pick(0, 0, 1, 3) if many else g.pick(1, 3, 6), behave, timing, drop=.15, late=.05)
        tail(ops, ms)
    g.spread(mids, build, g.pick(0, 0, 1, 2))


def p10(g):
    g.schedule(.3)
    g.cfg["lat"] = (200 * US, 20 * MS)
    users = g.users(1, level=g.pick(1, 3, 3))
    g.engine(users)
    a = g.agent(users)
    a["quirks"].pop("hint0", None)
    m = g.manager(a, 3, u=users[0])
    c = g.cfg
    c["delay"] = g.pick(.2, .5)
    c["delay_hi"] = int(g.pick(100, 300, 700, 2000) * SEC)
    c["dup"] = g.pick(0, .2)
    for _ in range(g.pick(0, 0, 1, 1, 2)):
        ev = {"do": "restart", "agent": "a1", "gap": 0, "time0": g.pick(0, 0, 500)}
        if g.chance(.5):
            ev["at"] = int(g.logu(SEC, 900 * SEC))
        else:
            ev["pkt"] = g.rng.randrange(3, 20)
        g.env.append(ev)
    if g.chance(.3):
        g.extra["attack"] = {"rate": {"replay": g.pick(.3, 1.0)}, "insiders": [],
                             "hostile": []}
        for name in ("flood_engines", "poison"):
            if g.chance(.3):
                g.extra["attack"]["rate"][name] = g.pick(.1, .5)
    if g.chance(.15):
        a["boots"] = A.MAXINT - 1
    g.request(m, g.ops, None, wait=True, timeout=2000.0, refreshPeriod=g.pick(5.0, 30.0),
              type="get")
    churn = g.chance(.3)
    open_ = []
    for _ in range(g.pick(3, 6, 10)):
        kw = {"timeout": g.pick(200.0, 1000.0, 2500.0),
              "refreshPeriod": g.pick(100.0, 400.0, 3000.0)}
        rid = g.request(m, g.ops, {"silent": True} if g.chance(.1) else None,
                        wait=False, type="get", **kw)
        open_.append(rid)
        if g.chance(.6):
            g.ops.append(["sleep", int(g.logu(SEC, 300 * SEC))])
        if g.chance(.5):
            # keeps the notion of remote time fresh
            g.request(m, g.ops, None, wait=True, timeout=5.0, refreshPeriod=1.0, type="get")
        if churn and g.chance(.5):
            # another manager takes over from the last one
            for rid in open_:
                g.ops.append(["drop", rid])
            open_ = []
            g.ops.append(["delm", m])
            if g.chance(.5):
                g.ops.append(["sleep", int(g.logu(MS, 100 * SEC))])
            m = g.manager(a, 3, u=users[0])
    g.rng.shuffle(open_)
    for rid in open_:
        g.ops.append(["wait", rid])
        g.ops.append(["drop", rid])


REPORTS = (A.UNSUPPORTED_LEVEL, A.UNKNOWN_USER, A.WRONG_DIGEST, A.DECRYPTION,
           A.UNKNOWN_CONTEXT, (1, 3, 6, 1, 6, 3, 11, 2, 1, 1, 0), (1, 3, 6, 1, 6, 3, 11, 2, 1, 3, 0))


def p11(g):
    g.schedule(.7)
    g.clock(.2)
    g.network(.3)
    users = g.users(g.pick(1, 2))
    g.engine(users)
    for _ in range(g.pick(1, 2)):
        g.agent(list(users))
    mids = [g.manager(a, 3, u=g.pick(*users)) for a in g.agents]
    env_restart(g, .2)
    r = g.rng.random()
    if r < .2:
        # credentials the agent does not share
        u = g.agents[0]["users"] = [dict(x) for x in g.agents[0]["users"]]
        kind = g.pick("secret", "priv", "gone", "level")
        v = u[0]
        if kind == "secret":
            for f in ("secret", "authSecret", "privSecret"):
                if f in v:
                    v[f] = "something else"
        elif kind == "priv" and v.get("priv"):
            v["authSecret"] = v.get("authSecret") or v.get("secret")
            v["privSecret"] = "something else"
        elif kind == "gone":
            del u[0]
            if not u:
                u.append({"name": "nobodyelse"})
        elif kind == "level":
            v.pop("priv", None)
    if g.chance(.3):
        with_attack(g, ("forge_report", "forge_window", "poison", "fake_engine"))

    def behave():
        if g.chance(.55):
            return {"report": [list(g.pick(*REPORTS)), g.pick(0, 0, 1, 3)],
                    "first": g.pick(1, 1, 2, 99), "then": {},
                    "also_answer": g.chance(.2)}
        if g.chance(.2):
            return {"silent": True, "first": 1, "then": {}}
        return None
    timing = lambda: {"timeout": g.pick(.5, 1.0, 2.0, 3.0),
                      "refreshPeriod": g.pick(.1, .4, 1.0, 5.0)}

    def build(ops, ms):
        g.batch(ms, ops, g.pick(1, 2, 4, 6), behave, timing, drop=.05, late=.1, sync=.5)
    g.spread(mids, build, g.pick(0, 0, 1))


def p12(g):
    g.schedule(.3)
    g.cfg["gc"] = 0
    g.cfg["lat"] = (100 * US, 2 * MS)
    kind = g.pick("sync", "async", "drop", "timeout", "managers", "mixed", "errors",
                  "late", "reports", "sendfail", "attack", "refused", "deaf", "restarts",
                  "moved", "churn")
    users = g.users(1)
    g.engine(users)
    versions = [g.pick(0, 1, 3, 3)]
    if g.chance(.3):
        versions = [0, 1, 3]
    if kind == "moved":
        versions = [3]
        # clocks of engines are remembered, by design
        g.extra["ignore"] = ["EngineTime", "dict", "__elements__"]
    a = g.agent(users)
    if kind == "churn":
        hurry(g, ("snmp.manager",), ("snmp.manager.v3",), ("snmp.manager", "snmp.message"))
        a["proc"] = (1 * US, int(g.pick(5 * US, 50 * US)))
        versions = [3]
    if kind == "late":
        g.cfg["delay"] = .4
        g.cfg["delay_hi"] = SEC
    if g.chance(.3):
        g.cfg["dup"] = .3
    if kind in ("refused", "deaf"):
        b = g.agent(users)
        if kind == "refused":
            # another agent claiming to be the first one
            b["engine_id"] = a["engine_id"]
        else:
            g.env.append({"do": "agent_stall", "agent": b["id"], "at": 1,
                          "for": 1000 * SEC, "keep": False})
    mids = [g.manager(a, v, **({"eid": False} if kind == "churn" else {})) for v in versions]
    n = g.pick(4, 6, 8)
    rounds = 6
    g.fail_rate = g.pick(.3, 1.0)
    if kind == "attack":
        # what names no new engines
        with_attack(g, ("forge_plain", "forge_mac", "forge_report", "forge_window", "replay",
                        "swap_msgid", "reflect", "tamper", "strip", "wrong_key", "malform",
                        "privonly", "forge_nokey", "suppress"), k=3)
        g.extra["attack"]["budget"] = 10000
    if kind == "restarts":
        for i in range(20):
            g.env.append({"do": "restart", "agent": a["id"], "at": int(g.logu(MS, 20 * SEC))})
    for i in range(rounds):
        ops = g.ops
        if kind == "managers":
            for v in versions:
                m = g.manager(a, v)
                for _ in range(2):
                    g.request(m, ops, None, wait=True, timeout=3.0, refreshPeriod=.5)
                ops.append(["delm", m])
        if kind in ("refused", "deaf"):
            for v in versions:
                m = g.manager(b, v)
                for j in range(n):
                    g.request(m, ops, None, wait=j % 2 == 0, timeout=.3, refreshPeriod=.1)
                    if j % 2:
                        ops.append(["wait", f"r{g.rid}"])
                        ops.append(["drop", f"r{g.rid}"])
                ops.append(["delm", m])
        if kind == "sendfail":
            ops.append(["cfg", {"send_err": g.fail_rate}])
        for m in mids:
            open_ = []
            if kind == "churn":
                pairs(g, m, ops, 16, g.pick({"silent": True}, None))
            for j in range(0 if kind == "churn" else n):
                k = kind
                if k in ("sendfail", "attack", "restarts", "refused", "deaf", "moved"):
                    k = ("sync", "async", "drop", "sync")[j % 4]
                if kind == "moved" and g.chance(.7):
                    ops.append(["move", a["id"], (b"\x80\0\x1f\x88\5" +
                                                  g.rng.randbytes(8)).hex()])
                if k == "mixed":
                    k = ("sync", "async", "drop", "timeout")[j % 4]
                if k in ("sync", "managers"):
                    g.request(m, ops, None, wait=True, timeout=3.0, refreshPeriod=.5)
                elif k == "errors":
                    g.request(m, ops, {"error": 1.0}, wait=True, timeout=3.0,
                              refreshPeriod=.5)
                elif k == "timeout":
                    rid = g.request(m, ops, {"silent": True}, wait=False, timeout=.3,
                                    refreshPeriod=.1)
                    open_.append(rid)
                elif k == "reports":
                    g.request(m, ops, {"report": [list(A.UNKNOWN_CONTEXT), g.pick(0, 1)]},
                              wait=True, timeout=.3, refreshPeriod=.1)
                elif k == "late":
                    g.request(m, ops, None, wait=True, timeout=.1, refreshPeriod=.02)
                else:
                    rid = g.request(m, ops, None, wait=False, timeout=3.0,
                                    refreshPeriod=.5)
                    if k == "drop":
                        if g.chance(.5):
                            ops.append(["sleep", int(g.logu(US, 50 * MS))])
                        ops.append(["drop", rid])
                    else:
                        open_.append(rid)
            for rid in open_:
                ops.append(["wait", rid])
                ops.append(["drop", rid])
            if kind == "sendfail" and m == mids[-1]:
                ops.append(["cfg", {"send_err": 0}])
            # one plain request lets the manager tidy its queue
            g.request(m, ops, None, wait=True, timeout=5.0, refreshPeriod=.5)
        ops.append(["sleep", 3500 * MS if kind in ("drop", "late", "churn") else 400 * MS])
        for m in mids:
            g.request(m, ops, None, wait=True, timeout=5.0, refreshPeriod=.5)
        ops.append(["census", f"round#{i}"])
    if g.chance(.3):
        g.env.append({"do": "garbage", "at": int(SEC), "n": 1, "count": 10})


def p13(g):
    g.schedule()
    g.network(.3)
    g.spurious(.2)
    users = g.users(g.pick(1, 2))
    engines = g.pick(1, 1, 2)
    for _ in range(engines):
        g.engine(users)
    n = g.pick(1, 2, 3, 4)
    for i in range(n):
        g.agent(users, v6=g.chance(.4))
    mids = []
    ops = g.ops
    at = 40 * SEC
    bad = ([{"addr": "not an address"}, {"addr": ["198.51.100.1", 0]},
            {"addr": ["198.51.100.1", 70000]},
            {"addr": "198.51.100.1", "kw": {"localAddress": ["198.51.100.77x", 0]}},
            {"addr": "198.51.100.1", "kw": {"version": 7}}])
    if g.chance(.5):
        ops.append(["openfd", "x0"])
    own = g.chance(.3)
    for i, a in enumerate(g.agents):
        kw = {}
        if own and g.chance(.5):
            ops.append(["connect", g.rng.randrange(engines), g.chance(.4),
                        g.pick(0, 23000 + i)])
        if engines == 2:
            kw["eng"] = g.rng.randrange(2)
        if g.chance(.5):
            kw["local"] = ["::" if ":" in a["addr"] else "0.0.0.0", 20000 + i]
        m = g.manager(a, g.pick(*V), must=True, **kw)
        mids.append(m)
        if g.chance(.3):
            # another one on the same socket
            mids.append(g.manager(a, g.pick(0, 1), must=True, **kw))
        if g.chance(.7):
            g.batch(mids, ops, g.pick(1, 3), None,
                    lambda: {"timeout": 3.0, "refreshPeriod": .3}, drop=.1, late=0,
                    sync=.2)
        if g.chance(.4):
            ops.append(["mkbad", dict(g.pick(*bad))])
        if g.chance(.4):
            ops.append(["mkbad", {
                "addr": a["addr"], "may": True, "kw": {"version": 1},
                "fault": {g.pick("fd_err", "fd_err", "bind_err"): g.pick(.4, 1.0)}}])
        if g.chance(.25):
            ops.append(["openfd", f"x{i + 1}"])
        if g.chance(.3):
            # another datagram endpoint while answers are on their way
            rid = g.request(g.pick(*mids), ops, None, wait=False, timeout=6.0,
                            refreshPeriod=2.0)
            m2 = g.manager(g.agents[0], g.pick(0, 1), must=True,
                           local=["::" if ":" in g.agents[0]["addr"] else "0.0.0.0",
                                  21000 + i])
            mids.append(m2)
            ops.append(["wait", rid])
    if g.chance(.25):
        # a local address that cannot be bound
        spec = {"addr": "198.51.100.1", "kw": {"localAddress": ["0.0.0.0", 20000]}}
        g.cfg["bind_err"] = 0
        ops.append(["mkbad", dict(spec, may=True)])
    if g.chance(.25):
        ops.append(["mkbad", {"addr": "198.51.100.1", "kw": {"version": 1, "localAddress":
                                                             ["203.0.113.77", 0]},
                              "may": True}])
    if g.chance(.3):
        # another process on this host
        g.env.append({"do": "local", "pkt": g.rng.randrange(1, 6), "n": 1,
                      "count": g.pick(1, 2, 5)})
        if g.chance(.5):
            g.env.append({"do": "local", "at": int(g.logu(MS, 4 * SEC)), "n": 2,
                          "count": g.pick(1, 2)})
    if g.chance(.6):
        g.extra["quiet"] = 0
        for m in mids:
            g.request(m, ops, None, wait=True, must=True, timeout=10.0, refreshPeriod=1.0)
    # leave requests in flight, then go away
    if g.chance(.5):
        for m in mids:
            g.request(m, ops, {"silent": True} if g.chance(.5) else None, wait=False,
                      timeout=5.0, refreshPeriod=1.0)
    if g.chance(.2):
        # no thread to be had: all that is left to do is to shut down
        ops.append(["mkbad", {
            "addr": "198.51.100.1", "may": True, "fault": {"thread_err": 1.0},
            "kw": {"version": 1, "localAddress": ["0.0.0.0", 29999]}}])
    order = list(range(engines))
    for e in order:
        how = g.pick("shutdown", "exit", "twice", "none", "mgrfirst")
        if how == "none":
            continue
        if how == "mgrfirst":
            for m in mids:
                ops.append(["delm", m])
        ops.append(["shutdown", e, g.pick("exit", "raise") if how == "exit" else "shutdown"])
        if how == "twice" or g.chance(.3):
            if g.chance(.6):
                ops.append(["openfd", "late"])
            ops.append(["shutdown", e, "exit"])
    for i in range(n + 1):
        ops.append(["checkfd", f"x{i}"])
    ops.append(["checkfd", "late"])


def p14(g):
    g.schedule(.7)
    g.network(.4)
    at = g.pick(1, 2, 4) * SEC
    mids = g.std_world(nagents=g.pick(1, 2))
    c = g.cfg
    if g.chance(.6):
        c["recv_err"] = g.pick(.01, .1, .4)
    if g.chance(.5):
        c["spurious"] = g.pick(.05, .3)
    if g.chance(.4):
        c["corrupt"] = g.pick(.05, .3)
    if g.chance(.4):
        c["trunc"] = g.pick(.05, .3)
    for i in range(g.pick(0, 2, 6)):
        g.env.append({"do": "garbage", "at": int(g.logu(MS, at)), "n": i,
                      "count": g.pick(1, 5, 30)})
    if g.chance(.4):
        g.env.append({"do": "garbage", "pkt": g.rng.randrange(1, 8), "n": 99, "count": 10})
    if g.chance(.4):
        # another process on this host
        for i in range(g.pick(1, 3)):
            g.env.append({"do": "local", "at": int(g.logu(MS, at)), "n": i,
                          "count": g.pick(1, 2, 5)})
    if g.chance(.4):
        # a holder of valid keys can always lie about the engine's clock
        with_attack(g, [a for a in ATTACKS if a != "insider_user"])
        g.extra["attack"]["until"] = int(at)
        if g.chance(.6):
            g.extra["attack"]["rate"]["malform"] = g.pick(.3, 1.0)
    tail = recovery(g, mids, at)

    def build(ops, ms):
        g.batch(ms, ops, g.pick(2, 5), None,
                lambda: {"timeout": g.pick(.3, 1.0), "refreshPeriod": g.pick(.05, .2)},
                drop=.1, late=.05)
        tail(ops, ms)
    g.spread(mids, build, g.pick(0, 0, 1))


def p15(g):
    if g.chance(.2):
        return churn(g, *HURRIED)
    g.schedule(1.2)
    g.network(.4)
    g.cfg["gc"] = g.pick(0, .002, .01, .05)
    g.cyclic = g.pick(0, .3, .8)
    g.cfg["line"] = g.pick(.002, .01, .05)
    at = g.pick(1, 3) * SEC
    mids = g.std_world(nagents=g.pick(2, 3, 4), engines=1)
    env_restart(g, .3)

    def behave():
        r = g.rng.random()
        if r < .2:
            return {"silent": True}
        if r < .35:
            return {"report": [list(g.pick(*REPORTS)), g.pick(0, 1, 3)], "first": 1,
                    "then": {}}
        return None
    timing = lambda: {"timeout": g.pick(.05, .3, 1.0, 2.0),
                      "refreshPeriod": g.pick(.01, .05, .3)}
    tail = recovery(g, mids, at, per=1)

    def build(ops, ms):
        g.batch(ms, ops, g.pick(2, 4, 8), behave, timing, drop=.3, late=.05, sleep=.2)
        if g.chance(.4):
            # a manager that comes and goes; its handles form garbage cycles
            v = g.pick(0, 1)
            m = g.manager(g.pick(*g.agents), v, ops)
            g.batch([m], ops, 2, behave, timing, drop=.5)
            ops.append(["delm", m] + ([True] if g.chance(g.cyclic) else []))
        if ops is g.ops and g.chance(.5):
            # the engine goes on being configured; engines are let go meanwhile
            for i in range(g.pick(1, 3)):
                m = None
                if g.chance(.7):
                    a = g.agent(list(g.agents[0]["users"]))
                    m = g.manager(a, 3, ops, eid=True)
                    g.batch([m], ops, 1, None, timing, drop=.5)
                    ops.append(["delm", m] + ([True] if g.chance(g.cyclic) else []))
                for _ in range(2):
                    u = g.users(1, names=(f"late{g.rng.randrange(10 ** 6)}",))[0]
                    ops.append(["user", 0, u])
        tail(ops, ms)
    g.spread(mids, build, g.pick(1, 2, 3))


def restless(g):
    """The engine restarts again and again while requests are being sent."""
    c = g.cfg
    hurry(g, ("snmp.security.usm.timekeeper", "snmp.security.usm.implementation"),
          ("snmp.security.usm.timekeeper",))
    c["lat"] = (g.pick(20 * US, 200 * US), MS)
    users = g.users(1, level=g.pick(1, 3))
    g.engine(users)
    mids = []
    for _ in range(g.pick(1, 1, 2)):
        a = g.agent(users, time=g.pick(5000, 40000), proc=(10 * US, 100 * US))
        mids.append(g.manager(a, 3, u=users[0]))
        for _ in range(g.pick(2, 5, 8)):
            g.env.append({"do": "restart", "agent": a["id"], "gap": 0,
                          "time0": g.pick(0, 3, 300), "pkt": g.rng.randrange(3, 40)})
    for _ in range(g.pick(2, 4)):
        rids = []
        for _ in range(g.pick(4, 8, 12)):
            rids.append(g.request(g.pick(*mids), g.ops, None, wait=False, type="get", oids=[],
                                  timeout=3.0, refreshPeriod=g.pick(.2, 1.0)))
            if g.chance(.5):
                g.ops.append(["sleep", int(g.logu(10 * US, 2 * MS))])
        for r in rids:
            g.ops.append(["wait", r])
            g.ops.append(["drop", r])


def hurry(g, *where):
    """Everything happens within microseconds, and threads stop inside one part."""
    c = g.cfg
    c["cost"] = (1 * US, 3 * US)
    c["switch"] = g.pick(.1, .4)
    c["line"] = .002
    c["line_stall"] = g.pick(.5, .8)
    g.focus(*where)
    c["focus_min"] = 2
    c["stall_hi"] = int(g.pick(100 * US, MS))
    c["lat"] = (5 * US, int(g.pick(20 * US, 100 * US)))


def pairs(g, m, ops, n, behave, moving=False):
    """Requests that end while others begin."""
    open_ = []
    for _ in range(n):
        if moving and g.chance(.5):
            ops.append(["move", g.mgr[m]["agent"], (b"\x80\0\x1f\x88\5" +
                                                    g.rng.randbytes(8)).hex()])
        open_.append(g.request(m, ops, dict(behave) if behave else None, wait=False,
                               type="get", oids=[], timeout=g.pick(.001, .002, .01 if moving else 1.0),
                               refreshPeriod=g.pick(.0002, .001) if moving else .5))
        if moving:
            ops.append(["wait", open_[-1]])
            continue
        if len(open_) < 2:
            ops.append(["sleep", int(g.logu(50 * US, MS))])
            continue
        if g.chance(.6):
            ops.append(["sleep", int(g.logu(1 * US, 100 * US))])
        while len(open_) > 1 and not g.chance(.1):
            r = open_.pop(0)
            if g.chance(.3):
                ops.append(["wait", r])
            ops.append(["drop", r])
        if g.chance(.5):
            ops.append(["sleep", int(g.logu(20 * US, 500 * US))])
    for r in open_:
        ops.append(["drop", r])


def churn(g, *where):
    """One request lets go of the remote engine while another learns of it from the
    listener."""
    hurry(g, *where)
    users = g.users(1, level=g.pick(0, 1, 3))
    g.engine(users)
    for _ in range(g.pick(1, 2)):
        a = g.agent(users, proc=(1 * US, int(g.pick(5 * US, 50 * US))))
        m = g.manager(a, 3, u=users[0], eid=False)
        pairs(g, m, g.ops, g.pick(20, 40), g.pick({"silent": True}, {"silent": True}, None),
              g.chance(.3))
        for _ in range(2):
            g.request(m, g.ops, None, wait=True, must=True, timeout=3.0, refreshPeriod=.2)


def p16(g):
    if g.chance(.2):
        return restless(g)
    g.schedule(.4)
    g.clock(.2)
    users = g.users(1, level=g.pick(1, 3))
    g.engine(users)
    g.cfg["lat"] = (200 * US, 20 * MS)
    mids = []
    for _ in range(g.pick(1, 2)):
        a = g.agent(users)
        if g.chance(.3):
            a["rate"] = g.pick(.5, .9, 1.0001, 1.1, 2.0)
        if g.chance(.3):
            a["time"] = g.pick((1 << 24) - 20, 1 << 25, 1 << 30, A.MAXINT - 200,
                               A.MAXINT - 3)
        if g.chance(.2):
            a["boots"] = g.pick(1 << 16, 1 << 24, A.MAXINT - 3)
        mids.append(g.manager(a, 3, u=users[0]))
    if g.chance(.3):
        g.cfg["loss"] = .1
    env_restart(g, .4, 2)
    span = g.pick(10, 1000, 100000, 3000000)
    for _ in range(g.pick(0, 1, 2)):
        g.env.append({"do": "wall", "at": int(g.logu(MS, span * SEC)),
                      "by": int(g.pick(-10 ** 9, -3600, -200, -5, 5, 200, 3600, 10 ** 8)
                                * SEC)})
    if g.chance(.3):
        g.env.append({"do": "clockskip", "agent": "a1", "at": int(g.logu(MS, span * SEC)),
                      "by": g.pick(5, 140, 160, 100000)})
    if g.chance(.3):
        with_attack(g, ("poison", "forge_window", "fake_engine", "replay", "flood_engines",
                        "reflect", "swap_msgid", "tamper_hdr"))
    ops = g.ops
    for _ in range(g.pick(3, 6, 10)):
        g.batch(mids, ops, g.pick(1, 2), None,
                lambda: {"timeout": g.pick(2.0, 5.0), "refreshPeriod": g.pick(.3, 1.0)},
                drop=0, late=.05, sleep=0)
        ops.append(["sleep", int(g.logu(.1, span) * SEC / 3)])


def readd(g, ops, u):
    """A user the engine has already, as it was or with something changed."""
    u = {k: v for k, v in u.items() if k != "default"}
    how = ["same"]
    if u.get("auth"):
        how += ["secret", "auth"]
    if u.get("priv"):
        how += ["privSecret", "privSecret", "authSecret", "priv"]
    how = g.pick(*how)
    if how == "same":
        u["expect"] = "same"
    else:
        u["expect"] = "refused"
        if how in ("auth", "priv"):
            u[how] = g.pick(*[x for x in (AUTHS if how == "auth" else PRIVS) if x != u[how]])
        else:
            u[how] = "another secret altogether"
    ops.append(["user", 0, u])


def p17(g):
    if g.chance(.1):
        return churn(g, *HURRIED)
    g.schedule(.5)
    g.cfg["lat"] = (100 * US, 3 * MS)
    if g.chance(.3):
        g.cfg["loss"] = .1
    ops = g.ops
    space = ("", "red", "blue")
    names = ("alice", "bob", "carol")
    users = []
    for i, ns in enumerate(space):
        for n in g.rng.sample(names, 2):
            u = g.users(1, level=g.pick(1, 3), names=(n,))[0]
            u["secret"] = ("maplesyrup", "correct horse battery", "third secret!")[i]
            u.pop("authSecret", None)
            u.pop("privSecret", None)
            u["ns"] = ns
            users.append(u)
    if g.chance(.5):
        g.preferences(users)
    early = [u for u in users if g.chance(.6)]
    # each namespace needs at least one user before managers are made in it
    for ns in space:
        if not any(u["ns"] == ns for u in early):
            early.append(next(u for u in users if u["ns"] == ns))
    g.engine(early)
    late = [u for u in users if u not in early]
    n = g.pick(2, 3)
    home = {}
    for i in range(n):
        ns = g.pick(*space)
        mine = [u for u in users if u["ns"] == ns]
        a = g.agent([dict(u) for u in mine])
        home[a["id"]] = (ns, mine)
    kw = {"timeout": 8.0, "refreshPeriod": .5}
    own = {}
    for a in g.agents:
        ns, mine = home[a["id"]]
        ok = [u for u in mine if u in early]
        u = g.pick(*ok)
        explicit = g.chance(.6)
        kw2 = {"u": u}
        if g.chance(.4):
            kw2 = {"default": g.default_user(early, ns)}
        m = g.manager(a, 3, ns=ns, eid=explicit, expect="ok", **kw2)
        own[a["id"]] = (m, ns, explicit)
        g.request(m, ops, None, wait=True, must=True, **kw)

    def foreign(b):
        """A user that only other namespaces have (so far)."""
        bm, bns, _ = own[b["id"]]
        here = {x["name"] for x in early if x["ns"] == bns}
        there = [x for x in users if x["name"] not in here]
        if bm is not None and there:
            x = g.pick(*there)
            g.request(bm, ops, None, wait=True, never=True, user=x["name"], timeout=1.0,
                      refreshPeriod=.3,
                      level=(1 if x.get("auth") else 0) | (2 if x.get("priv") else 0))

    if g.chance(.3):
        foreign(g.pick(*g.agents))
    again = g.chance(.4)
    if again and g.chance(.5):
        readd(g, ops, g.pick(*early))
    for _ in range(g.pick(1, 2, 3, 4)):
        a = g.pick(*g.agents)
        m, ns, explicit = own[a["id"]]
        other = g.pick(*[s for s in space if s != ns])
        r = g.rng.random()
        if r < .35 and m is not None:
            # an engine belongs to one namespace at a time
            u = g.pick(*[x for x in early if x["ns"] == other])
            g.manager(a, 3, u=u, ns=other, eid=True, expect="fail")
        elif r < .5 and m is not None:
            # discovered later under another namespace: must not work either
            u = g.pick(*[x for x in early if x["ns"] == other])
            m2 = g.manager(a, 3, u=u, ns=other, eid=False, expect="ok")
            g.request(m2, ops, None, wait=True, never=True, timeout=1.0, refreshPeriod=.3)
            ops.append(["delm", m2])
            ops.append(["settle"])
        elif r < .75 and m is not None:
            ops.append(["delm", m])
            # its last answer may still be going through the listener
            ops.append(["settle"])
            if g.chance(.5):
                # same namespace again
                kw2 = {"u": g.pick(*[x for x in early if x["ns"] == ns])}
                if g.chance(.4):
                    kw2 = {"default": g.default_user(early, ns)}
                m = g.manager(a, 3, ns=ns, eid=True, expect="ok", **kw2)
                own[a["id"]] = (m, ns, True)
                g.request(m, ops, None, wait=True, **dict(
                    kw, **({"must": True} if ns == home[a["id"]][0]
                           else {"timeout": 1.0})))
            else:
                # another namespace may take it over (with that namespace's users)
                u = g.pick(*[x for x in early if x["ns"] == other])
                m = g.manager(a, 3, u=u, ns=other, eid=True, expect="ok")
                own[a["id"]] = (m, other, True)
                g.request(m, ops, None, wait=True, timeout=1.0, refreshPeriod=.3)
        elif again and g.chance(.6):
            readd(g, ops, g.pick(*early))
        elif late:
            u = late.pop()
            ops.append(["user", 0, u])
            early.append(u)
            for b in g.agents:
                if g.chance(.3):
                    foreign(b)
                bm, bns, _ = own[b["id"]]
                if bns == u["ns"] and home[b["id"]][0] == u["ns"] and bm is not None:
                    g.request(bm, ops, None, wait=True, must=True, user=u["name"],
                              level=(1 if u.get("auth") else 0) | (2 if u.get("priv") else 0),
                              **kw)
        for b in g.agents:
            bm, bns, _ = own[b["id"]]
            if g.chance(.25):
                foreign(b)
            if g.chance(.5):
                g.request(bm, ops, None, wait=True,
                          **dict(kw, **({"must": True} if bns == home[b["id"]][0] else
                                        {"timeout": 1.0})))


PROFILES = {name[1:]: fn for name, fn in list(globals().items())
            if len(name) == 3 and name[0] == "p" and name[1:].isdigit()}
PROPS = sorted("C" + n for n in PROFILES)


def generate(prop, seed):
    g = Gen(prop, seed)
    PROFILES[prop[1:]](g)
    p = g.plan()
    autowait(p, derive(seed, "autowait", prop))
    spelling(p, derive(seed, "spelling", prop))
    if prop in ("C01", "C02", "C06", "C09", "C13", "C15"):
        locals_(p, derive(seed, "locals", prop))
    return p


def spelling(p, rng):
    """Arguments that say the same in another way."""
    if rng.random() > .2:
        return
    for ops in [p["ops"]] + list(p["threads"].values()):
        for op in ops:
            if op[0] == "mk":
                if rng.random() < .5:
                    op[2]["numbers"] = True
                if rng.random() < .5:
                    op[2]["model"] = rng.choice(("number", "name"))


def locals_(p, rng):
    """The same plan from several of the host's addresses, written in several ways."""
    if rng.random() > .3:
        return
    if any(op[0] == "mk" for ops in p["threads"].values() for op in ops):
        return          # only one thread at a time may have an engine open sockets
    agents = {a["id"]: a for a in p["agents"]}
    dense = rng.choice((.4, 1.0))
    for ops in [p["ops"]]:
        for op in ops:
            if op[0] != "mk" or op[2].get("local") is not None or rng.random() > dense:
                continue
            spec = op[2]
            port = 31000 + 10 * spec.get("eng", 0)
            if ":" in agents[spec["agent"]]["addr"]:
                hosts = ("2001:db8::11", "2001:db8::12")
                wild = "::"
            else:
                hosts = ("192.0.2.11", "192.0.2.12")
                wild = "0.0.0.0"
            host = rng.choice(hosts)
            spec["local"] = rng.choice((
                host, [host, 0], [host, port], [host, port], [host, port + 1],
                "", ["", 0], wild, ["", port + 2], [wild, port + 2]))


def autowait(p, rng):
    """The same plan, in part through the engine's and the managers' own default."""
    if rng.random() > .4:
        return
    lists = [p["ops"]] + list(p["threads"].values())
    for e in p["engines"]:
        if rng.random() < .5:
            e["autowait"] = rng.random() < .5
    eff = {}
    for ops in lists:
        for op in ops:
            if op[0] == "mk":
                spec = op[2]
                if rng.random() < .4:
                    spec["autowait"] = rng.random() < .5
                e = spec.get("eng", 0)
                eff[op[1]] = spec.get("autowait", p["engines"][e].get("autowait", True))
    for ops in lists:
        for op in ops:
            if op[0] != "req" or op[2] not in eff:
                continue
            if op[3].setdefault("wait", True) == eff[op[2]] and rng.random() < .8:
                del op[3]["wait"]
