"""Camera (SSL AES) transport: mutual proof, fallbacks, tags, sequence, error statuses."""

from __future__ import annotations

import base64
import hashlib
import json
import secrets

import aessim as A
import sim
from engine.ctx import And, Implies, Not, Or, acatch, sym_eq
from httpsim import FakeSession

BOUNDS = (
    "proof: any 96-character device proof for each way of giving credentials; first handshake message: any error_code and "
    "inner code in [-70000, 2000], with and without nonce, with encrypt types 1/2, 3 or none, for the caller's and the default "
    "user name; second message: any status 100..599 and error_code; plain login: any status and code; commands: histories of K "
    "(quick 2, thorough 3) with any status, error_code, first sequence number and encrypted/plain/unreadable/absent answers, "
    "resets and changes of the device between secure and plain login"
)
OUTSIDE = "TLS; SHA, MD5 and AES are run, not encoded; more than K commands"
WITNESSES = ["secure-ok", "md5-ok", "rejected", "default-user", "plain-login", "blocked", "hs2-refused", "ok", "plain-answer", "retryable-500", "auth", "switch"]
QUICK_S, THOROUGH_S = 90, 800
USER = ("camuser", "pa55wörd")
ADMIN = ("admin", "admin")

RETRYABLE = {1002, 1112, -1001, 9999, -40401, -40413}
AUTH = {-1501, 1111, -1005, 1100, 1003, -40412}
NONCE, EXPIRED, BADUSER, BLOCKED = -40413, -40401, -40411, -40404


def isin(e, s):
    return Or(*[e == x for x in sorted(s)])


def sha(s):
    return hashlib.sha256(s.encode()).hexdigest().upper()


def md5(s):
    return hashlib.md5(s.encode()).hexdigest().upper()


def confirm(cn, sn, ph):
    return sha(cn + ph + sn) + sn + cn


def digest(cn, sn, ph):
    return sha(ph + cn + sn) + cn + sn


def key(kind, cn, sn, ph):
    return hashlib.sha256((kind + cn + sn + sha(cn + ph + sn)).encode()).digest()[:16]


def tag(text, cn, ph, seq):
    return sha(sha(ph + cn) + text + str(seq))


def build(who):
    from kasa import Credentials

    if who == "creds":
        return {"credentials": Credentials(*USER)}, USER
    if who == "hash":
        h = base64.b64encode(json.dumps({"un": USER[0], "pwd": USER[1]}).encode()).decode()
        return {"credentials_hash": h}, USER
    return {}, (None, ADMIN[1])


def transport(fs, kw):
    from kasa import DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
    from kasa.transports.sslaestransport import SslAesTransport

    cfg = DeviceConfig(
        "127.0.0.1",
        http_client=fs,
        connection_type=DeviceConnectionParameters(DeviceFamily.SmartIpCamera, DeviceEncryptionType.Aes, 2, https=True),
        **kw,
    )
    return SslAesTransport(config=cfg)


def nonces(c):
    n = []

    def tb(k=None):
        n.append(len(n) + 1)
        return bytes([len(n)]) * (k or 8)

    c.patch(secrets, "token_bytes", tb)
    return n


class Cam:
    """hs1(user, cnonce), hs2(params), md5login(user, pw), cmd(secure, dict) decide the answers."""

    def __init__(self):
        self.log: list = []
        self.problems: list = []
        self.user = USER[0]
        self.ph = sha(USER[1])
        self.sn = "5E44E7"
        self.cn = self.asked = None
        self.aes = None
        self.stok = None
        self.seq = None
        self.start = 100
        self.n = 0
        self.hs1 = self.std_hs1
        self.hs2 = self.std_hs2
        self.plain = lambda u, p: (200, {"error_code": -1})
        self.cmd = lambda q: (200, {"error_code": 0})

    def std_hs1(self, user, cn):
        if user != self.user:
            return 200, {"error_code": EXPIRED, "result": {"data": {"code": -60502}}}
        return 200, {"error_code": NONCE, "result": {"data": {"code": NONCE, "encrypt_type": ["3"], "nonce": self.sn, "device_confirm": confirm(cn, self.sn, self.ph)}}}

    def std_hs2(self, p):
        if p["digest_passwd"] != digest(p["cnonce"], self.sn, self.ph) or p["cnonce"] != self.cn:
            return 200, {"error_code": NONCE, "result": {"data": {"code": EXPIRED}}}
        return 200, self.establish()

    def establish(self):
        self.n += 1
        self.stok = f"stok{self.n}"
        self.seq = self.start
        self.aes = A.Aes(key("lsk", self.cn, self.sn, self.ph), key("ivb", self.cn, self.sn, self.ph))
        return {"error_code": 0, "result": {"stok": self.stok, "user_group": "root", "start_seq": self.start}}

    def handle(self, r):
        raw = r.json if r.json is not None else r.data
        j = sim.loads(raw) if isinstance(raw, (str, bytes)) else raw
        txt = raw.decode() if isinstance(raw, bytes) else raw
        if j.get("method") == "login" and r.path == "/":
            p = j["params"]
            if ("digest_passwd" in p or p.get("hashed")) and p["username"] != self.asked:
                self.problems.append(f"login of {p['username']} after a handshake for {self.asked}")
            if "digest_passwd" in p:
                self.log.append(("hs2", p))
                return self.hs2(p)
            if p.get("hashed"):
                self.log.append(("plain-login", p))
                return self.plain(p["username"], p["password"])
            self.log.append(("hs1", p))
            self.cn = p["cnonce"]
            self.asked = p["username"]
            return self.hs1(p["username"], p["cnonce"])
        if self.stok is None or r.path != f"/stok={self.stok}/ds":
            self.problems.append(f"path {r.path} instead of stok={self.stok}")
        if j.get("method") == "securePassthrough":
            q = self.aes.dec(j["params"]["request"]) if self.aes else None
            if q is None:
                self.problems.append("not encrypted for the current session")
                return 200, {"error_code": -1}
            h = r.headers
            if not sym_eq(h.get("Seq"), str(self.seq)) is True and h.get("Seq") != str(self.seq):
                self.problems.append(f"sequence {h.get('Seq')} instead of {self.seq}")
            if h.get("Tapo_tag") != tag(txt, self.cn, self.ph, self.seq):
                self.problems.append("wrong tag")
            self.seq += 1
            self.log.append(("cmd", json.loads(q)))
            return self.cmd(json.loads(q))
        self.log.append(("clear", j))
        return self.cmd(j)

    def kinds(self, log=None):
        return [k for k, _ in (self.log if log is None else log)]


CMD = {"method": "getSecret", "n": 1}


def proof(c, who, length):
    """Any device proof."""
    from kasa import exceptions as E

    nonces(c)
    d = Cam()
    kw, (user, pw) = build(who)
    d.user = user or ADMIN[0]
    cand = {"sha": sha(pw), "md5": md5(pw)}
    sym = c.str("proof", length)
    want = {}

    def hs1(u, cn):
        want.update({k: confirm(cn, d.sn, ph) for k, ph in cand.items()})
        return 200, {"error_code": NONCE, "result": {"data": {"code": NONCE, "encrypt_type": ["3"], "nonce": d.sn, "device_confirm": sym}}}

    def hs2(p):
        for ph in cand.values():
            if p["digest_passwd"] == digest(p["cnonce"], d.sn, ph):
                d.ph = ph
                return 200, d.establish()
        return 200, {"error_code": NONCE, "result": {}}

    d.hs1, d.hs2 = hs1, hs2
    d.cmd = lambda q: (200, {"error_code": 0, "result": {"response": d.aes.enc(json.dumps({"v": 1}))}})
    fs = FakeSession(d.handle)

    async def go():
        t = transport(fs, kw)
        return await acatch(t.send(json.dumps(CMD)))

    o = c.run(go())
    c.check(not d.problems, "every message fits the session", lambda: d.problems)
    good = {k: sym_eq(sym, w) for k, w in want.items()}
    c.check(d.log[0][0] == "hs1" and d.log[0][1]["username"] == d.user, "the handshake names the caller's user", lambda: d.log[0])
    if o.ok:
        c.check(Or(*good.values()), "only a peer that proves the password is talked to", lambda: d.kinds())
        c.check(d.kinds() == ["hs1", "hs2", "cmd"], "handshake, proof, command", lambda: d.kinds())
        c.check(o.value == {"v": 1} and d.log[2][1] == CMD, "the exchange is encrypted for that session", lambda: repr(o))
        c.check(And(Implies(good["sha"], d.ph == cand["sha"]), Implies(And(good["md5"], Not(good["sha"])), d.ph == cand["md5"])), "both proofs use the same hash")
        c.reach("secure-ok" if d.ph == cand["sha"] else "md5-ok")
    else:
        c.check(Not(Or(*good.values())), "a peer with the right proof is accepted", lambda: (repr(o), d.kinds()))
        c.check(o.raised(E.AuthenticationError), "a wrong proof is an authentication error", lambda: repr(o))
        c.check(d.kinds() == ["hs1"], "nothing is sent to an unproven peer", lambda: d.kinds())
        c.reach("rejected")


SHAPES = ["nonce", "no-nonce", "no-data", "no-result", "blocked-root", "empty"]


def first(c, who, shape, etype, both):
    """Any first answer: code, inner code, shape."""
    from kasa import exceptions as E

    nonces(c)
    d = Cam()
    kw, (user, pw) = build(who)
    code = c.int("code", -70000, 2000)
    inner = c.int("inner", -70000, 2000)
    d.user = ADMIN[0] if both == "default-ok" else (user or "nobody")
    d.ph = sha(pw)
    plain_ok = c.bool("plain_ok")

    def hs1(u, cn):
        if both == "default-ok" and u == ADMIN[0] and not (user is None and both == "x"):
            return d.std_hs1(u, cn)
        dt = {"code": inner}
        if etype:
            dt["encrypt_type"] = etype
        if shape == "nonce":
            dt.update(nonce=d.sn, device_confirm=confirm(cn, d.sn, d.ph))
        r = {"error_code": code}
        if shape == "no-data":
            r["result"] = {}
        elif shape == "blocked-root":
            r["data"] = {"code": inner, "sec_left": 1685}
        elif shape == "empty":
            r = {}
        elif shape != "no-result":
            r["result"] = {"data": dt}
        return 200, r

    def plain(u, p):
        d.plain_user = u
        if plain_ok and p == md5(pw):
            d.n += 1
            d.stok = f"stok{d.n}"
            return 200, {"error_code": 0, "result": {"stok": d.stok}}
        return 200, {"error_code": EXPIRED, "result": {"data": {"code": EXPIRED}}}

    d.hs1, d.plain = hs1, plain

    def cmd(q):
        if d.kinds()[-1] == "clear":
            return 200, {"error_code": 0, "v": 2}
        return 200, {"error_code": 0, "result": {"response": d.aes.enc(json.dumps({"v": 2}))}}

    d.cmd = cmd
    fs = FakeSession(d.handle)

    async def go():
        t = transport(fs, kw)
        return await acatch(t.send(json.dumps(CMD)))

    o = c.run(go())
    k = d.kinds()
    c.check(not d.problems, "every message fits the session", lambda: d.problems)
    users = [p["username"] for kk, p in d.log if kk == "hs1"]
    c.check(users in ([user or ADMIN[0]], [user, ADMIN[0]]), "the caller's user first, then the default", lambda: users)
    direct = And(code == NONCE, shape == "nonce")
    if o.ok:
        if k[-1] == "cmd":
            c.check(Or(direct, both == "default-ok"), "a secure command needs a secure handshake", lambda: (k, repr(o)))
            c.check(k[-2] == "hs2", "a secure command needs a secure handshake", lambda: k)
            if users[-1] == ADMIN[0]:
                c.reach("default-user")
        else:
            c.check(k[-2] == "plain-login" and plain_ok, "a clear command needs a plain login", lambda: k)
            c.check(And(code == EXPIRED, etype not in (None, ["3"])), "the plain login is only used when the device offers no secure one", lambda: (k, repr(o)))
            c.reach("plain-login")
        c.check(o.value.get("v") == 2 and d.log[-1][1] == CMD, "the command is sent and answered once", lambda: repr(o))
        c.check(k.count("cmd") + k.count("clear") == 1, "the command is sent and answered once", lambda: k)
        return
    c.check("cmd" not in k and "clear" not in k, "no command without a login", lambda: k)
    c.check(Not(direct), "a valid handshake is used", lambda: (k, repr(o)))
    c.check(o.raised(E.KasaException), "a refused handshake is a library error", lambda: (shape, etype, repr(o)))
    isblk = And(shape in ("nonce", "no-nonce", "blocked-root"), inner == BLOCKED)
    ec = getattr(o.exc, "error_code", None)
    if o.raised(E.DeviceError) and not o.raised(E.AuthenticationError) and ec == BLOCKED:
        c.check(isblk, "only a blocked device is reported as blocked", lambda: repr(o))
        c.reach("blocked")
    elif user is not None and both == "same":
        c.check(Not(isblk), "a blocked device is reported as blocked", lambda: repr(o))
        c.check(o.raised(E.AuthenticationError), "a refused handshake is an authentication error", lambda: repr(o))


def second(c, who):
    """Any status and code of the second handshake message."""
    from kasa import exceptions as E

    nonces(c)
    d = Cam()
    kw, (user, pw) = build(who)
    d.user = user or ADMIN[0]
    d.ph = sha(pw)
    st = c.int("status", 100, 599)
    code = c.int("code", -70000, 2000)

    def hs2(p):
        if code == 0:
            s, r = d.std_hs2(p)
            return st, r
        return st, {"error_code": code, "result": {"data": {"code": EXPIRED}}}

    d.hs2 = hs2
    d.cmd = lambda q: (200, {"error_code": 0, "result": {"response": d.aes.enc(json.dumps({"v": 1}))}})
    fs = FakeSession(d.handle)

    async def go():
        t = transport(fs, kw)
        o = await acatch(t.send(json.dumps(CMD)))
        n = len(d.log)
        await acatch(t.send(json.dumps(CMD)))
        return o, d.log[:n], d.log[n:]

    o, log, log2 = c.run(go())
    k = d.kinds(log)
    if o.ok:
        c.check(And(st == 200, code == 0), "a refused login is an error", lambda: repr(o))
        return
    c.check(k == ["hs1", "hs2"], "no command after a refused login", lambda: k)
    c.check(Not(And(st == 200, code == 0)), "an accepted login is used", lambda: repr(o))
    c.check(o.raised(E.KasaException), "a refused login is a library error", lambda: repr(o))
    c.check(log2[0][0] == "hs1", "a refused login is started over", lambda: d.kinds(log2))
    c.reach("hs2-refused")
    if st == 200:
        c.check(o.raised(E.AuthenticationError) if isin(code, AUTH | {NONCE}) else not o.raised(E.AuthenticationError), "credential codes are authentication errors", lambda: repr(o))
        c.check(o.raised(E._RetryableError) if isin(code, RETRYABLE - {NONCE}) else not o.raised(E._RetryableError), "session codes are retryable", lambda: repr(o))


def history(c, k, first_body):
    from kasa import exceptions as E

    nc = nonces(c)
    d = Cam()
    kw, _ = build("creds")
    d.start = c.choice("start", [0, 1, 100, 2**31 - 2])
    cur: dict = {}
    mode = {"secure": c.choice("secure0", [True, False])}

    def hs1(u, cn):
        if mode["secure"]:
            return d.std_hs1(u, cn)
        return 200, {"error_code": EXPIRED, "result": {"data": {"code": EXPIRED, "encrypt_type": ["1", "2"], "nonce": "xyz"}}}

    def plain(u, p):
        if u == USER[0] and p == md5(USER[1]):
            d.n += 1
            d.stok = f"stok{d.n}"
            return 200, {"error_code": 0, "result": {"stok": d.stok}}
        return 200, {"error_code": -1}

    d.hs1, d.plain = hs1, plain

    def cmd(q):
        c.check(q == {"n": cur["i"], "method": "m"}, "the command is the caller's", lambda: q)
        c.check((d.kinds()[-1] == "cmd") == mode["secure"], "commands are encrypted unless the device only has the plain login", lambda: d.kinds())
        b, ans = cur["body"], {"error_code": cur["code"], "r": cur["i"]}
        if not mode["secure"] or b == "absent":
            return cur["status"], ans
        if b == "none":
            return cur["status"], None
        resp = {"valid": lambda: d.aes.enc(json.dumps({"r": cur["i"]})), "plain": lambda: json.dumps({"r": cur["i"]}), "corrupt": lambda: "AAAA", "notjson": lambda: d.aes.enc("{nope")}[b]()
        return cur["status"], {"error_code": cur["code"], "result": {"response": resp}}

    d.cmd = cmd
    fs = FakeSession(d.handle)

    async def go():
        t = transport(fs, kw)
        need = True
        for i in range(k):
            if i and c.bool(f"reset{i}"):
                await t.reset()
                need = True
                if c.bool(f"switch{i}"):
                    mode["secure"] = not mode["secure"]
                    c.reach("switch")
            body = first_body if i == 0 else c.choice(f"body{i}", ["valid", "corrupt", "code", "status"])
            cur.update(i=i, body="valid" if body in ("code", "status") else body, status=200, code=0)
            if body == "code":
                cur["code"] = c.int(f"code{i}", -70000, 2000)
            if body == "status":
                cur["status"] = c.int(f"status{i}", 100, 599)
            n0, l0 = d.n, len(d.log)
            o = await acatch(t.send(json.dumps({"n": i, "method": "m"})))
            new = d.kinds(d.log[l0:])
            c.check(not d.problems, "every message fits the session", lambda: d.problems)
            c.check((d.n - n0 == 1) if need else new in (["cmd"], ["clear"]), "a session is kept until reset or refused, then renewed", lambda: new)
            c.check(new.count("cmd") + new.count("clear") == 1, "a command is sent exactly once", lambda: new)
            need = False
            secure = mode["secure"]
            b = cur["body"]
            if o.ok:
                c.check(not secure or b not in ("corrupt", "notjson", "none"), "an unreadable answer is an error", lambda: repr(o))
                c.check(And(cur["status"] == 200, cur["code"] == 0), "only a successful answer is a result", lambda: repr(o))
                c.check(sym_eq(o.value.get("r"), i), "the answer is returned", lambda: repr(o))
                c.reach("plain-answer" if b in ("plain", "absent") or not secure else "ok")
                continue
            c.check(o.raised(E.KasaException), "failures are library errors", lambda: (b, repr(o)))
            if body == "code":
                code = cur["code"]
                c.check(not code == 0, "code 0 is a success", lambda: repr(o))
                c.check(o.raised(E.DeviceError), "a code is a device error", lambda: repr(o))
                c.check(o.raised(E._RetryableError) if isin(code, RETRYABLE) else not o.raised(E._RetryableError), "session codes are retryable", lambda: repr(o))
                if isin(code, AUTH):
                    c.check(o.raised(E.AuthenticationError), "credential codes are authentication errors", lambda: repr(o))
                    need = True
                    c.reach("auth")
                else:
                    c.check(not o.raised(E.AuthenticationError), "credential codes are authentication errors", lambda: repr(o))
            elif body == "status":
                st = cur["status"]
                c.check(Not(st == 200), "status 200 is a success", lambda: repr(o))
                if secure:
                    c.check(o.raised(E._RetryableError) if st == 500 else not o.raised(E._RetryableError), "a lost session is retryable", lambda: repr(o))
                    if st == 500:
                        c.reach("retryable-500")
            else:
                c.check(secure and b in ("corrupt", "notjson", "none"), "a readable answer is returned", lambda: repr(o))
        c.check(len(set(p["cnonce"] for kk, p in d.log if kk == "hs1")) == len([1 for kk, _ in d.log if kk == "hs1"]), "every handshake uses a fresh nonce")

    c.run(go())


def chash(c, who):
    """The stored hash logs in as the same user."""
    kw, (user, pw) = build(who)
    fs = FakeSession(lambda r: (200, {}))

    async def go():
        t = transport(fs, kw)
        return t.credentials_hash

    h = c.run(go())
    if who == "none":
        c.check(h is None, "no hash without credentials", lambda: h)
    else:
        c.check(json.loads(base64.b64decode(h)) == {"un": user, "pwd": pw}, "the hash identifies the caller", lambda: h)


def scenarios(tier):
    k = 2 if tier == "quick" else 3
    out = [(f"proof-{w}-{n}", proof, {"who": w, "length": n}) for w in ("creds", "hash", "none") for n in (86, 0, 85)]
    whos = ("creds", "none") if tier == "quick" else ("creds", "hash", "none")
    for w in whos:
        for s in SHAPES:
            for et in (None, ["3"], ["1", "2"]):
                if et and s not in ("nonce", "no-nonce"):
                    continue
                for b in ("same", "default-ok"):
                    if w == "none" and b == "default-ok":
                        continue
                    out.append((f"first-{w}-{s}-{et}-{b}", first, {"who": w, "shape": s, "etype": et, "both": b}))
    out += [(f"second-{w}", second, {"who": w}) for w in ("creds", "hash", "none")]
    out += [(f"history-{b}", history, {"k": k, "first_body": b}) for b in ("valid", "plain", "corrupt", "notjson", "absent", "none", "code", "status")]
    out += [(f"hash-{w}", chash, {"who": w}) for w in ("creds", "hash", "none")]
    return out
