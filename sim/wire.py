"""An independent SNMP codec and USM implementation (shares nothing with snmp).

Values are tuples: ("int", n) ("str", b) ("null",) ("oid", (..)) ("ip", b4)
("c32", n) ("g32", n) ("tt", n) ("opq", b) ("c64", n) ("nso",) ("nsi",) ("eom",)
"""

import hashlib
import hmac

from Crypto.Cipher import AES, DES


class WireError(Exception):
    pass


# ------------------------------------------------------------------ BER
class Enc:
    """BER writer; longform selects legal but non-minimal length encodings."""

    def __init__(self, longform=0):
        self.longform = longform

    def length(self, n, constructed):
        if self.longform and (constructed or self.longform > 1):
            # net-snmp style: always 0x82 hi lo for constructed values
            if n > 0xffff:
                return bytes((0x83, n >> 16, n >> 8 & 0xff, n & 0xff))
            return bytes((0x82, n >> 8, n & 0xff))
        if n < 0x80:
            return bytes((n,))
        body = n.to_bytes((n.bit_length() + 7) // 8, "big")
        return bytes((0x80 | len(body),)) + body

    def tlv(self, tag, body):
        return bytes((tag,)) + self.length(len(body), bool(tag & 0x20)) + body

    def integer(self, n, tag=2):
        size = 1
        while not -(1 << (8 * size - 1)) <= n < (1 << (8 * size - 1)):
            size += 1
        return self.tlv(tag, n.to_bytes(size, "big", signed=True))

    def octets(self, b, tag=4):
        return self.tlv(tag, bytes(b))

    def oid(self, o, tag=6):
        return self.tlv(tag, oid_body(o))

    def seq(self, *parts, tag=0x30):
        return self.tlv(tag, b"".join(parts))

    def value(self, v):
        kind = v[0]
        if kind == "int":
            return self.integer(v[1])
        if kind == "str":
            return self.octets(v[1])
        if kind == "null":
            return self.tlv(5, b"")
        if kind == "oid":
            return self.oid(v[1])
        if kind == "ip":
            return self.octets(v[1], 0x40)
        if kind in UINT_TAGS:
            return self.integer(v[1], UINT_TAGS[kind])
        if kind == "opq":
            return self.octets(v[1], 0x44)
        if kind in EXC_TAGS:
            return self.tlv(EXC_TAGS[kind], b"")
        raise WireError(f"cannot encode {v!r}")

    def varbinds(self, vbs):
        return self.seq(*[self.seq(self.oid(o), self.value(v)) for o, v in vbs])

    def pdu(self, tag, reqid, a, b, vbs):
        return self.seq(self.integer(reqid), self.integer(a), self.integer(b),
                        self.varbinds(vbs), tag=tag)


UINT_TAGS = {"c32": 0x41, "g32": 0x42, "tt": 0x43, "c64": 0x46}
EXC_TAGS = {"nso": 0x80, "nsi": 0x81, "eom": 0x82}
GET, GETNEXT, RESPONSE, SET, TRAP1, BULK, INFORM, TRAP2, REPORT = range(0xa0, 0xa9)
PDU_NAMES = {GET: "get", GETNEXT: "getNext", RESPONSE: "response", SET: "set",
             BULK: "getBulk", INFORM: "inform", TRAP2: "trap", REPORT: "report"}


def base128(n):
    out = [n & 0x7f]
    n >>= 7
    while n:
        out.append(0x80 | (n & 0x7f))
        n >>= 7
    return bytes(reversed(out))


def oid_body(o):
    o = tuple(o)
    if len(o) < 2:
        o = o + (0,) * (2 - len(o))
    return base128(o[0] * 40 + o[1]) + b"".join(base128(n) for n in o[2:])


class Dec:
    """Strict definite-length BER reader."""

    def __init__(self, data, start=0, stop=None):
        self.data = data
        self.pos = start
        self.stop = len(data) if stop is None else stop

    def tlv(self, want=None):
        d, p, stop = self.data, self.pos, self.stop
        if p + 2 > stop:
            raise WireError("truncated")
        tag = d[p]
        if tag & 0x1f == 0x1f:
            raise WireError("high tag")
        n = d[p + 1]
        p += 2
        if n & 0x80:
            k = n & 0x7f
            if k == 0 or p + k > stop:
                raise WireError("bad length")
            n = int.from_bytes(d[p:p + k], "big")
            p += k
        if p + n > stop:
            raise WireError("truncated value")
        if want is not None and tag != want:
            raise WireError(f"tag {tag:#x} instead of {want:#x}")
        self.pos = p + n
        return tag, p, p + n

    def sub(self, want=0x30):
        _, a, b = self.tlv(want)
        return Dec(self.data, a, b)

    def end(self):
        if self.pos != self.stop:
            raise WireError("trailing bytes")

    def more(self):
        return self.pos < self.stop

    def octets(self, want=4):
        _, a, b = self.tlv(want)
        return bytes(self.data[a:b])

    def int_body(self, a, b):
        if a == b:
            raise WireError("empty integer")
        body = self.data[a:b]
        if len(body) > 1 and (
                (body[0] == 0 and body[1] < 0x80) or (body[0] == 0xff and body[1] >= 0x80)):
            raise WireError("integer is not minimally encoded")
        return int.from_bytes(body, "big", signed=True)

    def integer(self, want=2):
        _, a, b = self.tlv(want)
        return self.int_body(a, b)

    def oid(self, want=6):
        _, a, b = self.tlv(want)
        return self.oid_body(a, b)

    def oid_body(self, a, b):
        if a == b:
            raise WireError("empty oid")
        nums = []
        n = 0
        fresh = True
        for byte in self.data[a:b]:
            if fresh and byte == 0x80:
                raise WireError("padded sub-identifier")
            n = n << 7 | byte & 0x7f
            fresh = not byte & 0x80
            if fresh:
                nums.append(n)
                n = 0
        if not fresh:
            raise WireError("oid ended early")
        first = nums[0]
        if first < 80:
            return (first // 40, first % 40) + tuple(nums[1:])
        return (2, first - 80) + tuple(nums[1:])

    def value(self):
        tag, a, b = self.tlv()
        body = bytes(self.data[a:b])
        if tag == 2:
            return ("int", self.int_body(a, b))
        if tag == 4:
            return ("str", body)
        if tag == 5:
            return ("null",)
        if tag == 6:
            return ("oid", self.oid_body(a, b))
        if tag == 0x40:
            return ("ip", body)
        if tag == 0x44:
            return ("opq", body)
        for kind, t in UINT_TAGS.items():
            if tag == t:
                n = self.int_body(a, b)
                if n < 0:
                    raise WireError("negative unsigned value")
                return (kind, n)
        for kind, t in EXC_TAGS.items():
            if tag == t:
                return (kind,)
        raise WireError(f"unknown value tag {tag:#x}")

    def pdu(self):
        tag, a, b = self.tlv()
        if tag not in PDU_NAMES:
            raise WireError(f"unknown PDU tag {tag:#x}")
        d = Dec(self.data, a, b)
        reqid, x, y = d.integer(), d.integer(), d.integer()
        vbs = []
        lst = d.sub()
        d.end()
        while lst.more():
            vb = lst.sub()
            o = vb.oid()
            v = vb.value()
            vb.end()
            vbs.append((o, v))
        return {"tag": tag, "type": PDU_NAMES[tag], "reqid": reqid, "a": x, "b": y,
                "vbs": vbs}


def enc_community(version, community, pdu, enc):
    return enc.seq(enc.integer(version), enc.octets(community), pdu)


def dec_version(data):
    d = Dec(data).sub()
    return d.integer()


def dec_community(data):
    top = Dec(data)
    d = top.sub()
    top.end()
    version = d.integer()
    community = d.octets()
    pdu = d.pdu()
    d.end()
    return {"version": version, "community": community, "pdu": pdu}


# ------------------------------------------------------------------ USM
AUTH = {
    "HmacMd5": ("md5", 12), "HmacSha": ("sha1", 12), "HmacSha224": ("sha224", 16),
    "HmacSha256": ("sha256", 24), "HmacSha384": ("sha384", 32),
    "HmacSha512": ("sha512", 48),
}
_key_cache = {}
_local_cache = {}


def password_key(auth, secret):
    """RFC 3414 A.2: hash of one mebibyte of repeated password"""
    try:
        return _key_cache[(auth, secret)]
    except KeyError:
        algo = AUTH[auth][0]
        n = 1 << 20
        stream = (secret * (n // len(secret) + 1))[:n]
        key = _key_cache[(auth, secret)] = hashlib.new(algo, stream).digest()
        return key


def localized(auth, secret, engine_id):
    k = (auth, secret, engine_id)
    try:
        return _local_cache[k]
    except KeyError:
        key = password_key(auth, secret)
        if len(_local_cache) > 5000:
            _local_cache.clear()
        v = _local_cache[k] = hashlib.new(
            AUTH[auth][0], key + engine_id + key).digest()
        return v


def mac(auth, key, data):
    algo, n = AUTH[auth]
    return hmac.new(key, data, algo).digest()[:n]


def aes_iv(boots, time, salt):
    return boots.to_bytes(4, "big") + time.to_bytes(4, "big") + salt


def des_iv(key, salt):
    return bytes(a ^ b for a, b in zip(key[8:16], salt))


def encrypt(priv, key, boots, time, salt, data, pad=0):
    if priv == "AesCfb128":
        return AES.new(key[:16], AES.MODE_CFB, iv=aes_iv(boots, time, salt),
                       segment_size=128).encrypt(data)
    if len(data) % 8:
        data += bytes([pad]) * (8 - len(data) % 8)
    return DES.new(key[:8], DES.MODE_CBC, iv=des_iv(key, salt)).encrypt(data)


def decrypt(priv, key, boots, time, salt, data):
    if len(salt) != 8:
        raise WireError("salt length")
    if priv == "AesCfb128":
        return AES.new(key[:16], AES.MODE_CFB, iv=aes_iv(boots, time, salt),
                       segment_size=128).decrypt(data)
    if len(data) % 8:
        raise WireError("DES length")
    return DES.new(key[:8], DES.MODE_CBC, iv=des_iv(key, salt)).decrypt(data)


class User:
    """Credentials of one user: auth/priv protocol names and passwords."""

    def __init__(self, name, auth=None, priv=None, auth_secret=None, priv_secret=None):
        self.name = name
        self.auth = auth
        self.priv = priv
        self.auth_secret = auth_secret
        self.priv_secret = priv_secret

    def keys(self, engine_id):
        ak = localized(self.auth, self.auth_secret, engine_id) if self.auth else None
        pk = localized(self.auth, self.priv_secret, engine_id) if self.priv else None
        return ak, pk

    @property
    def level(self):
        return (1 if self.auth else 0) | (2 if self.priv else 0)


# level: 0 noAuthNoPriv, 1 authNoPriv, 3 authPriv
def enc_scoped(enc, ctx_engine, ctx_name, pdu):
    return enc.seq(enc.octets(ctx_engine), enc.octets(ctx_name), pdu)


def enc_v3(enc, msgid, maxsize, flags, engine_id, boots, time, username, scoped,
           user=None, salt=b"", model=3, forge_mac=None, key_engine=None,
           mac_len=None, pad=0):
    """Build an SNMPv3/USM message; user supplies keys when flags ask for them."""
    level = flags & 3
    key_engine = engine_id if key_engine is None else key_engine
    ak = pk = None
    if user is not None:
        ak, pk = user.keys(key_engine)
    body = scoped
    if level & 2:
        body = enc.octets(encrypt(user.priv, pk, boots, time, salt, scoped, pad))
    n = 0
    if level & 1:
        n = AUTH[user.auth][1] if user is not None and user.auth else 12
        if mac_len is not None:
            n = mac_len

    def build(sig):
        sp = enc.seq(enc.octets(engine_id), enc.integer(boots), enc.integer(time),
                     enc.octets(username), enc.octets(sig),
                     enc.octets(salt if level & 2 else b""))
        return enc.seq(
            enc.integer(3),
            enc.seq(enc.integer(msgid), enc.integer(maxsize),
                    enc.octets(bytes((flags,))), enc.integer(model)),
            enc.octets(sp), body)
    if not level & 1:
        return build(b"")
    if forge_mac is not None:
        return build(forge_mac)
    sig = mac(user.auth, ak, build(bytes(AUTH[user.auth][1])))
    if mac_len is not None:
        sig = (sig + bytes(64))[:mac_len]
    return build(sig)


def dec_v3(data):
    """Parse the envelope; scoped PDU is parsed only when it is in the clear."""
    top = Dec(data)
    d = top.sub()
    top.end()
    if d.integer() != 3:
        raise WireError("not SNMPv3")
    h = d.sub()
    msgid, maxsize, flags, model = h.integer(), h.integer(), h.octets(), h.integer()
    h.end()
    if len(flags) != 1:
        raise WireError("msgFlags")
    _, a, b = d.tlv(4)
    spd = Dec(data, a, b)
    sp = spd.sub()
    spd.end()
    engine_id = sp.octets()
    boots, time = sp.integer(), sp.integer()
    username = sp.octets()
    _, sa, sb = sp.tlv(4)
    salt = sp.octets()
    sp.end()
    m = {"version": 3, "msgid": msgid, "maxsize": maxsize, "flags": flags[0],
         "model": model, "engine_id": engine_id, "boots": boots, "time": time,
         "user": username, "sig": bytes(data[sa:sb]), "sig_at": (sa, sb),
         "salt": salt, "raw": data}
    if flags[0] & 2:
        m["encrypted"] = d.octets()
    else:
        dec_scoped(d, m)
    d.end()
    return m


def dec_scoped(d, m):
    s = d.sub()
    m["ctx_engine"] = s.octets()
    m["ctx_name"] = s.octets()
    m["pdu"] = s.pdu()
    s.end()


def check_mac(m, user):
    ak, _ = user.keys(m["engine_id"])
    n = AUTH[user.auth][1]
    a, b = m["sig_at"]
    if b - a != n:
        return False
    data = m["raw"]
    return mac(user.auth, ak, data[:a] + bytes(n) + data[b:]) == m["sig"]


def open_scoped(m, user):
    """Decrypt and parse the scoped PDU in place."""
    _, pk = user.keys(m["engine_id"])
    plain = decrypt(user.priv, pk, m["boots"], m["time"], m["salt"], m["encrypted"])
    d = Dec(plain)
    dec_scoped(d, m)
    m["plain"] = plain
    m["padding"] = plain[d.pos:]
    return m
