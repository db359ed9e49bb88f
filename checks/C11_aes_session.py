"""AES transport: handshake, login with fallback, session lifetime, error codes."""

from __future__ import annotations

import json
import time

import aessim as A
import sim
from engine.ctx import And, Not, Or, acatch, sym_eq
from httpsim import FakeSession

BOUNDS = (
    "login: any HTTP status 100..599 and any error_code in [-50000, 50000] at the handshake, the login envelope, the login "
    "answer and the same three of the fallback login, for credentials given as name and password, as a stored hash or not at "
    "all, login versions 1 and 2; session: histories of K commands (quick K=2, thorough K=3) with any elapsed time, announced "
    "lifetime, reset, status, error code and valid/plain/corrupt answer per command"
)
OUTSIDE = "RSA and AES are run with a fixed key pair, not encoded; more than K commands"
WITNESSES = ["own-login", "default-login", "handshake-refused", "login-refused", "retryable-login", "no-fallback", "expired", "kept", "auth-reset", "plain", "undecodable", "ok"]
QUICK_S, THOROUGH_S = 90, 800
USER = ("user@example.com", "pa55wörd")

RETRYABLE = {1002, 1112, -1001, 9999, -40401, -40413}
AUTH = {-1501, 1111, -1005, 1100, 1003, -40412}
LOGIN_ERROR = -1501


def isin(e, s):
    return Or(*[e == x for x in sorted(s)])


class Dev:
    """The device side; hooks decide codes."""

    def __init__(self, version):
        self.version = version
        self.log = []
        self.n_hs = 0
        self.n_login = 0
        self.aes = None
        self.cookie = None
        self.token = None
        self.cookies = lambda n: {}
        self.hs = lambda n: (200, 0)
        self.login = lambda n: (200, 0, 0, "enc")
        self.cmd = lambda text: (200, 0, json.dumps({"error_code": 0}))
        self.problems = []

    def handle(self, r):
        j = sim.loads(r.data) if r.json is None else (sim.loads(r.json) if isinstance(r.json, (str, bytes)) else r.json)
        if j["method"] == "handshake":
            self.n_hs += 1
            self.log.append("handshake")
            st, code = self.hs(self.n_hs)
            if r.params or r.url.query:
                self.problems.append("handshake with a token")
            if not (st == 200):
                return st, {}
            if not (code == 0):
                return st, {"error_code": code}
            ki = bytes([self.n_hs]) * 16 + bytes([64 + self.n_hs]) * 16
            self.aes = A.Aes(ki[:16], ki[16:])
            self.cookie = f"sess{self.n_hs}"
            self.token = None
            return st, {"error_code": code, "result": {"key": A.wrap_key(j["params"]["key"], ki)}}, {"TP_SESSIONID": self.cookie, **self.cookies(self.n_hs)}
        if j["method"] != "securePassthrough":
            self.problems.append(f"clear text {j['method']}")
            return 200, {"error_code": -1}
        if r.cookies != {"TP_SESSIONID": self.cookie}:
            self.problems.append(f"cookie {r.cookies} instead of {self.cookie}")
        txt = self.aes.dec(j["params"]["request"])
        if txt is None:
            self.problems.append("not encrypted for the current session")
            return 200, {"error_code": -1}
        q = json.loads(txt)
        if q["method"] == "login_device":
            self.n_login += 1
            self.log.append(("login", q["params"]))
            if r.url.query:
                self.problems.append("login with a token")
            st, outer, inner, how = self.login(self.n_login)
            if not (st == 200):
                return st, {}
            if not (outer == 0):
                return st, {"error_code": outer}
            self.token = f"tok{self.n_login}"
            ans = {"error_code": inner, "result": {"token": self.token}}
            if how == "plain":
                return st, {"error_code": outer, "result": {"response": sim.dumps(ans)}}
            return st, {"error_code": outer, "result": {"response": self.aes.enc(json.dumps(ans))}}
        self.log.append(("cmd", q))
        if r.url.query.get("token") != self.token or self.token is None:
            self.problems.append(f"command with token {r.url.query} instead of {self.token}")
        st, outer, resp = self.cmd(q)
        if not (st == 200):
            return st, {}
        if not (outer == 0):
            return st, {"error_code": outer}
        return st, {"error_code": outer, "result": {"response": resp}}

    def commands(self):
        return [x for x in self.log if x[0] == "cmd"]


def build(who, version):
    import base64

    from kasa import Credentials

    if who == "creds":
        return {"credentials": Credentials(*USER)}, A.login_params(version, *USER)
    if who == "hash":
        p = A.login_params(version, *USER)
        return {"credentials_hash": base64.b64encode(json.dumps(p).encode()).decode()}, p
    return {}, A.login_params(version, "", "")


def transport(fs, kw, version):
    from kasa import DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
    from kasa.transports import AesTransport

    cfg = DeviceConfig(
        "127.0.0.1",
        http_client=fs,
        connection_type=DeviceConnectionParameters(DeviceFamily.SmartTapoBulb, DeviceEncryptionType.Aes, version),
        aes_keys=A.keypair(),
        **kw,
    )
    return AesTransport(config=cfg)


def classify(c, o, code, E):
    """The exception of a refused exchange fits its code."""
    c.check(o.raised(E._RetryableError) if isin(code, RETRYABLE) else not o.raised(E._RetryableError), "session codes are retryable", lambda: repr(o))
    c.check(o.raised(E.AuthenticationError) if isin(code, AUTH) else not o.raised(E.AuthenticationError), "credential codes are authentication errors", lambda: repr(o))
    c.check(o.raised(E.DeviceError), "a code is a device error", lambda: repr(o))


def login(c, who, version, part):
    from kasa import exceptions as E

    d = Dev(version)
    kw, own = build(who, version)
    hs_st = c.int("hs_status", 100, 599) if part == "handshake" else 200
    hs_code = c.int("hs_code", -50000, 50000) if part == "handshake" else 0
    out_st = c.int("login_status", 100, 599) if part == "outer" else 200
    out_code = c.int("login_code", -50000, 50000) if part == "outer" else 0
    in_code = c.int("inner_code", -50000, 50000) if part == "inner" else 0
    second = part.startswith("second")
    s_hs = (c.int("hs2_status", 100, 599), c.int("hs2_code", -50000, 50000)) if part == "second-handshake" else (200, 0)
    s_out = (c.int("login2_status", 100, 599), c.int("login2_code", -50000, 50000)) if part == "second-outer" else (200, 0)
    s_in = c.int("inner2_code", -50000, 50000) if part == "second-inner" else 0
    enc = "plain"
    if part == "encrypted":
        enc = "enc"
        in_code = c.choice("inner_code", [0, -1501, 1111, 9999, -1003, -20601, 31337])
    if second:
        in_code = LOGIN_ERROR
    d.hs = lambda n: (hs_st, hs_code) if n == 1 else s_hs
    d.login = lambda n: (out_st, out_code, in_code, enc) if n == 1 else (s_out[0], s_out[1], s_in, enc)
    d.cmd = lambda q: (200, 0, d.aes.enc(json.dumps({"error_code": 0, "result": {"v": 7}})))
    fs = FakeSession(d.handle)

    async def go():
        t = transport(fs, kw, version)
        o = await acatch(t.send(json.dumps({"method": "secret"})))
        n1 = list(d.log)
        o2 = await acatch(t.send(json.dumps({"method": "secret"}))) if not o.ok and o.raised(E.AuthenticationError) else None
        return o, n1, o2

    o, log, o2 = c.run(go())
    c.check(not d.problems, "every message fits the session", lambda: d.problems)
    logins = [x[1] for x in log if x[0] == "login"]
    cmds = [x for x in log if x[0] == "cmd"]
    first_ok = And(hs_st == 200, hs_code == 0, out_st == 200, out_code == 0, in_code == 0)
    fallback = And(hs_st == 200, hs_code == 0, out_st == 200, Or(And(out_code == 0, in_code == LOGIN_ERROR), out_code == LOGIN_ERROR))
    second_ok = And(s_hs[0] == 200, s_hs[1] == 0, s_out[0] == 200, s_out[1] == 0, s_in == 0)
    c.check(len(logins) <= 2, "at most two logins", lambda: log)
    if logins:
        c.check(And(hs_st == 200, hs_code == 0), "no login over a refused handshake", lambda: log)
        c.check(logins[0] == own, "the caller's credentials are tried first", lambda: logins)
    if len(logins) == 2 or log.count("handshake") > 1:
        c.check(fallback, "the vendor default is only tried when the login was refused", lambda: log)
    if len(logins) == 2:
        c.check(logins[1] == A.login_params(version, *A.TAPO_DEFAULT), "the fallback is the vendor default account", lambda: logins)
        c.check(log[2] == "handshake", "the fallback login uses a new handshake", lambda: log)
    if o.ok:
        c.check(Or(first_ok, And(fallback, second_ok)), "a command needs a successful login", lambda: (repr(o), log))
        c.check(o.value == {"error_code": 0, "result": {"v": 7}}, "the answer is decrypted")
        c.check(len(cmds) == 1 and cmds[0][1] == {"method": "secret"}, "the command is sent once", lambda: log)
        c.reach("own-login" if len(logins) == 1 else "default-login")
        return
    c.check(not cmds, "no command without a session", lambda: log)
    c.check(Not(first_ok), "an accepted login is used", lambda: (repr(o), log))
    c.check(Not(And(fallback, second_ok)), "an accepted fallback login is used", lambda: (repr(o), log))
    c.check(o.raised(E.KasaException), "a refused login is a library error", lambda: repr(o))
    if part == "handshake":
        c.reach("handshake-refused")
        if hs_st == 200:
            classify(c, o, hs_code, E)
        else:
            c.check(not o.raised(E.DeviceError), "a bad status is a plain error", lambda: repr(o))
    elif part in ("outer", "inner", "encrypted"):
        code = out_code if part == "outer" else in_code
        c.reach("login-refused")
        if out_st == 200:
            c.reach("no-fallback")
            classify(c, o, code, E)
            if o.raised(E._RetryableError):
                c.reach("retryable-login")
        else:
            c.check(not o.raised(E.DeviceError), "a bad status is a plain error", lambda: repr(o))
    if o2 is not None:
        c.check(d.log[len(log)] == "handshake", "after a refused login the next attempt starts over", lambda: d.log)


def history(c, k, first):
    from kasa import exceptions as E

    clock = {"t": 1000.0}
    c.patch(time, "time", lambda: clock["t"])
    d = Dev(2)
    kw, own = build("creds", 2)
    st = {"exp": None}

    def cookies(n):
        life = 86400
        out = {}
        if c.bool("lifetime-given"):
            life = c.int("lifetime", 0, 200000)
            out["TIMEOUT"] = str(life)
        st["exp"] = clock["t"] + life - 1200
        return out

    d.cookies = cookies
    cur = {}

    def cmd(q):
        c.check(q == {"n": cur["i"], "method": "m"}, "the command is the caller's", lambda: q)
        b = cur["body"]
        ans = {"r": cur["i"]}
        if b == "valid":
            resp = d.aes.enc(json.dumps(ans))
        elif b == "plain":
            resp = json.dumps(ans)
        elif b == "corrupt":
            resp = "AAAA"
        elif b == "notjson":
            resp = d.aes.enc("{nope")
        else:
            resp = ""
        return cur["status"], cur["code"], resp

    d.cmd = cmd
    fs = FakeSession(d.handle)

    async def go():
        t = transport(fs, kw, 2)
        need = True
        for i in range(k):
            clock["t"] = clock["t"] + c.real(f"gap{i}", 0, 200000, 4)
            if i and c.bool(f"reset{i}"):
                await t.reset()
                need = True
            body = ["valid", "plain", "corrupt", "notjson", "empty", "code", "status"][first] if i == 0 else c.choice(f"body{i}", ["valid", "corrupt", "code", "status"])
            cur.update(i=i, body="valid" if body in ("code", "status") else body, status=200, code=0)
            if body == "code":
                cur["code"] = c.int(f"code{i}", -50000, 50000)
            if body == "status":
                cur["status"] = c.int(f"status{i}", 100, 599)
            n0, l0, exp0, lg0 = d.n_hs, d.n_login, st["exp"], len(d.log)
            o = await acatch(t.send(json.dumps({"n": i, "method": "m"})))
            did = d.n_hs - n0
            c.check(not d.problems, "every message fits the session", lambda: d.problems)
            c.check(did <= 1 and d.n_login - l0 == did, "a new session is one handshake and one login", lambda: d.log[lg0:])
            c.check(len(d.commands()) == i + 1, "a command is sent exactly once", lambda: d.log[lg0:])
            if need:
                c.check(did == 1, "a reset or refused session is not used again", lambda: d.log[lg0:])
            elif did:
                c.check(clock["t"] >= exp0, "a live session is kept", lambda: d.log[lg0:])
                c.reach("expired")
            else:
                c.check(clock["t"] < exp0, "an expired session is renewed before use", lambda: d.log[lg0:])
                c.reach("kept")
            need = False
            if o.ok:
                c.check(body not in ("corrupt", "notjson", "empty"), "an unreadable answer is an error", lambda: repr(o))
                c.check(And(cur["status"] == 200, cur["code"] == 0), "only a successful answer is a result", lambda: repr(o))
                c.check(o.value == {"r": i}, "the answer is returned", lambda: repr(o))
                c.reach("plain" if body == "plain" else "ok")
                continue
            c.check(o.raised(E.KasaException), "failures are library errors", lambda: repr(o))
            if body == "code":
                c.check(not cur["code"] == 0, "code 0 is a success", lambda: repr(o))
                classify(c, o, cur["code"], E)
                if o.raised(E.AuthenticationError):
                    need = True
                    c.reach("auth-reset")
            elif body == "status":
                c.check(Not(cur["status"] == 200), "status 200 is a success", lambda: repr(o))
                c.check(not o.raised(E.DeviceError), "a bad status is a plain error", lambda: repr(o))
            else:
                c.check(body in ("corrupt", "notjson", "empty"), "a readable answer is returned", lambda: repr(o))
                c.reach("undecodable")

    c.run(go())


def malformed(c, where):
    """Answers of the right status and code but the wrong shape are library errors."""
    from kasa import exceptions as E

    d = Dev(2)
    kw, own = build("creds", 2)
    orig = d.handle
    shape = c.choice("shape", ["no-result", "null-result", "empty-result", "number"])
    bad = {"no-result": {"error_code": 0}, "null-result": {"error_code": 0, "result": None}, "empty-result": {"error_code": 0, "result": {}}, "number": {"error_code": 0, "result": 5}}[shape]

    def handle(r):
        if where == "handshake":
            d.log.append("handshake")
            return 200, bad, {"TP_SESSIONID": "x"}
        resp = orig(r)
        last = d.log[-1]
        if where == "login" and last[0] == "login":
            return 200, {"error_code": 0, "result": {"response": d.aes.enc(json.dumps(bad))}}
        if where == "command" and last[0] == "cmd":
            return 200, bad
        return resp

    fs = FakeSession(handle)

    async def go():
        t = transport(fs, kw, 2)
        return await acatch(t.send(json.dumps({"method": "secret"})))

    o = c.run(go())
    c.check(not o.ok, "a malformed answer is not a result", lambda: repr(o))
    c.check(o.raised(E.KasaException), "a malformed answer is a library error", lambda: (where, shape, repr(o)))


def scenarios(tier):
    k = 2 if tier == "quick" else 3
    out = []
    for who, ver in [("creds", 2), ("creds", 1), ("hash", 2), ("none", 2)]:
        for part in ("handshake", "outer", "inner", "encrypted", "second-handshake", "second-outer", "second-inner"):
            out.append((f"login-{who}-v{ver}-{part}", login, {"who": who, "version": ver, "part": part}))
    out += [(f"history-{f}", history, {"k": k, "first": f}) for f in range(7)]
    out += [(f"malformed-{w}", malformed, {"where": w}) for w in ("handshake", "login", "command")]
    return out
