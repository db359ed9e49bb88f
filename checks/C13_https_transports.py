"""HTTPS transports of vacuums (clear text after login) and kasa cameras (linkie)."""

from __future__ import annotations

import base64
import hashlib
import json
import time
from urllib.parse import parse_qs

import sim
from engine.ctx import And, Not, Or, acatch, sym_eq
from httpsim import FakeSession

BOUNDS = (
    "login: any status 100..599 and error_code in [-70000, 2000] or none of the login and of the fallback login, for name and "
    "password, stored hash or nothing; session: histories of K commands (quick 2, thorough 3) with any elapsed time, reset, "
    "status and code; linkie: any status and answer kind (valid, clear-text error, garbage, empty, lost connection)"
)
OUTSIDE = "TLS; MD5 is run, not encoded"
WITNESSES = ["own-login", "default-login", "refused", "unknown-code", "expired", "kept", "auth-reset", "linkie-ok", "linkie-error"]
QUICK_S, THOROUGH_S = 60, 600
USER = ("user@example.com", "pa55wörd")
DEFAULT = ("test@tp-link.net", "test")

RETRYABLE = {1002, 1112, -1001, 9999, -40401, -40413}
AUTH = {-1501, 1111, -1005, 1100, 1003, -40412}


def isin(e, s):
    return Or(*[e == x for x in sorted(s)])


def params(u, p):
    return {"username": u, "password": hashlib.md5(p.encode()).hexdigest().upper()}


def build(who):
    from kasa import Credentials

    if who == "creds":
        return {"credentials": Credentials(*USER)}, params(*USER)
    if who == "hash":
        return {"credentials_hash": base64.b64encode(json.dumps(params(*USER)).encode()).decode()}, params(*USER)
    return {}, params("", "")


class Dev:
    def __init__(self):
        self.log: list = []
        self.problems: list = []
        self.token = None
        self.n = 0
        self.login = lambda n: (200, 0)
        self.cmd = lambda q: (200, {"error_code": 0, "result": {"v": 1}})

    def handle(self, r):
        raw = r.json if r.json is not None else r.data
        j = sim.loads(raw) if isinstance(raw, (str, bytes)) else raw
        if r.url.scheme != "https" or r.path != "/app":
            self.problems.append(str(r.url))
        if j["method"] == "login":
            self.n += 1
            self.log.append(("login", j["params"]))
            st, code = self.login(self.n)
            if code is None:
                return st, {}
            if not (code == 0):
                return st, {"error_code": code}
            if st == 200:
                self.token = f"tok{self.n}"
            return st, {"error_code": 0, "result": {"token": f"tok{self.n}"}}
        if self.token is None or r.url.query.get("token") != self.token:
            self.problems.append(f"command with {r.url} instead of {self.token}")
        self.log.append(("cmd", j))
        return self.cmd(j)


def transport(fs, kw):
    from kasa import DeviceConfig
    from kasa.transports.ssltransport import SslTransport

    return SslTransport(config=DeviceConfig("127.0.0.1", http_client=fs, **kw))


def classify(c, o, code, E):
    known = {int(x) for x in E.SmartErrorCode}
    c.check(o.raised(E.DeviceError), "a code is a device error", lambda: repr(o))
    c.check(o.raised(E._RetryableError) if isin(code, RETRYABLE) else not o.raised(E._RetryableError), "session codes are retryable", lambda: repr(o))
    c.check(o.raised(E.AuthenticationError) if isin(code, AUTH) else not o.raised(E.AuthenticationError), "credential codes are authentication errors", lambda: repr(o))
    ec = o.exc.error_code
    kn = isin(code, known)
    c.check(Or(And(kn, sym_eq(ec, code)), And(Not(kn), sym_eq(ec, -100_000))), "the error carries the device's code", lambda: repr(o))
    if not kn:
        c.reach("unknown-code")


CMD = {"method": "getSecret", "params": {"x": 1}}


def login(c, who, part):
    from kasa import exceptions as E

    d = Dev()
    kw, own = build(who)
    st1 = c.int("status1", 100, 599) if part == "first" else 200
    code1 = c.int("code1", -70000, 2000) if part == "first" else (None if part == "none" else -1501)
    st2 = c.int("status2", 100, 599) if part == "second" else 200
    code2 = c.int("code2", -70000, 2000) if part == "second" else 0
    d.login = lambda n: (st1, code1) if n == 1 else (st2, code2)
    fs = FakeSession(d.handle)

    async def go():
        t = transport(fs, kw)
        o = await acatch(t.send(json.dumps(CMD)))
        n = len(d.log)
        if not o.ok:
            d.login = lambda n: (200, 0)
            await acatch(t.send(json.dumps(CMD)))
        return o, d.log[:n], d.log[n:]

    o, log, log2 = c.run(go())
    c.check(not d.problems, "every command carries the session token", lambda: d.problems)
    logins = [p for k, p in log if k == "login"]
    cmds = [p for k, p in log if k == "cmd"]
    c.check(logins[0] == own, "the caller's credentials are tried first", lambda: logins)
    if part == "none":
        c.check(o.raised(E.KasaException), "an answer without a code is a library error", lambda: repr(o))
        c.check(not cmds and len(logins) == 1, "no command without a login", lambda: log)
        return
    refused = And(st1 == 200, code1 == -1501)
    ok1 = And(st1 == 200, code1 == 0)
    ok2 = And(st2 == 200, code2 == 0)
    if len(logins) > 1:
        c.check(refused, "the vendor default is only tried when the login was refused", lambda: log)
        c.check(logins[1:] == [params(*DEFAULT)], "the fallback is the vendor default account", lambda: logins)
    if o.ok:
        c.check(Or(ok1, And(refused, ok2)), "a command needs a successful login", lambda: log)
        c.check(cmds == [CMD] and o.value == {"error_code": 0, "result": {"v": 1}}, "the command is sent and answered once", lambda: (log, repr(o)))
        c.reach("own-login" if len(logins) == 1 else "default-login")
        return
    c.check(not cmds, "no command without a login", lambda: log)
    c.check(Not(Or(ok1, And(refused, ok2))), "an accepted login is used", lambda: (repr(o), log))
    c.check(o.raised(E.KasaException), "a refused login is a library error", lambda: repr(o))
    c.check(log2[0][0] == "login", "a refused login is tried again before a command", lambda: log2)
    c.reach("refused")
    if part == "first":
        if st1 == 200:
            classify(c, o, code1, E)
        else:
            c.check(not o.raised(E.DeviceError), "a bad status is a plain error", lambda: repr(o))
    elif o.raised(E.AuthenticationError):
        c.check(And(st2 == 200, isin(code2, AUTH)), "credential codes are authentication errors", lambda: repr(o))
    else:
        c.check(Not(And(st2 == 200, isin(code2, AUTH))), "credential codes are authentication errors", lambda: repr(o))


def history(c, k, first):
    from kasa import exceptions as E

    clock = {"t": 1000.0}
    c.patch(time, "time", lambda: clock["t"])
    d = Dev()
    kw, own = build("creds")
    st = {}
    cur: dict = {}

    def log_in(n):
        st["exp"] = clock["t"] + 86400 - 1200
        return 200, 0

    d.login = log_in

    def cmd(q):
        c.check(q == {"n": cur["i"], "method": "m"}, "the command is the caller's", lambda: q)
        return cur["status"], {"error_code": cur["code"], "r": cur["i"]}

    d.cmd = cmd
    fs = FakeSession(d.handle)

    async def go():
        t = transport(fs, kw)
        need = True
        for i in range(k):
            clock["t"] = clock["t"] + c.real(f"gap{i}", 0, 200000, 4)
            if i and c.bool(f"reset{i}"):
                await t.reset()
                need = True
            body = first if i == 0 else c.choice(f"body{i}", ["valid", "code", "status"])
            cur.update(i=i, status=c.int(f"status{i}", 100, 599) if body == "status" else 200, code=c.int(f"code{i}", -70000, 2000) if body == "code" else 0)
            n0, l0, exp0 = d.n, len(d.log), st.get("exp")
            o = await acatch(t.send(json.dumps({"n": i, "method": "m"})))
            new = [x for x, _ in d.log[l0:]]
            did = d.n - n0
            c.check(not d.problems, "every command carries the session token", lambda: d.problems)
            c.check(new in (["cmd"], ["login", "cmd"]), "a command is sent exactly once, after at most one login", lambda: new)
            if need:
                c.check(did == 1, "a reset or refused session is not used again", lambda: new)
            elif did:
                c.check(clock["t"] >= exp0, "a live session is kept", lambda: new)
                c.reach("expired")
            else:
                c.check(clock["t"] < exp0, "an expired session is renewed before use", lambda: new)
                c.reach("kept")
            need = False
            if o.ok:
                c.check(And(cur["status"] == 200, cur["code"] == 0), "only a successful answer is a result", lambda: repr(o))
                c.check(sym_eq(o.value, {"error_code": 0, "r": i}), "the answer is returned", lambda: repr(o))
                continue
            c.check(o.raised(E.KasaException), "failures are library errors", lambda: repr(o))
            if body == "code":
                c.check(not cur["code"] == 0, "code 0 is a success", lambda: repr(o))
                classify(c, o, cur["code"], E)
                if o.raised(E.AuthenticationError):
                    need = True
                    c.reach("auth-reset")
            else:
                c.check(Not(cur["status"] == 200), "status 200 is a success", lambda: repr(o))
                c.check(not o.raised(E.DeviceError), "a bad status is a plain error", lambda: repr(o))

    c.run(go())


def xor(b):
    k, out = 171, bytearray()
    for x in b:
        k ^= x
        out.append(k)
    return bytes(out)


def unxor(b):
    k, out = 171, bytearray()
    for x in b:
        out.append(k ^ x)
        k = x
    return bytes(out)


REQS = ['{"system":{"get_sysinfo":{}}}', '{"a":"' + "~?>ÿ" * 7 + '"}', "{}"]


def linkie(c, kind):
    import aiohttp

    from kasa import DeviceConfig
    from kasa import exceptions as E
    from kasa.transports.linkietransport import LinkieTransportV2

    req = c.choice("req", REQS)
    st = c.int("status", 100, 599)
    got = {}

    def handler(r):
        got["r"] = r
        if kind == "lost":
            raise aiohttp.ClientOSError(104, "reset")
        if kind == "valid":
            return st, base64.b64encode(xor(b'{"ok":1}'))
        if kind == "clear-error":
            return st, b'{"err":-1}'
        if kind == "garbage":
            return st, b"\xff\x00!!"
        return st, b""

    fs = FakeSession(handler)

    async def go():
        t = LinkieTransportV2(config=DeviceConfig("127.0.0.1", http_client=fs))
        return await acatch(t.send(req))

    o = c.run(go())
    r = got["r"]
    c.check(str(r.url) == "https://127.0.0.1:10443/data/LINKIE2.json", "the request goes to the linkie endpoint", lambda: r.url)
    body = r.data.decode()
    q = parse_qs(body, strict_parsing=True, keep_blank_values=True)
    c.check(set(q) == {"content"}, "the body is one form field", lambda: body)
    c.check(unxor(base64.b64decode(q["content"][0])).decode() == req, "the body carries the encrypted request", lambda: body)
    auth = base64.b64decode(r.headers["Authorization"].split()[1]).decode()
    c.check(auth == "admin:21232f297a57a5a743894a0e4a801fc3", "the vendor account is used", lambda: auth)
    c.check(len(fs.reqs) == 1, "one request", lambda: len(fs.reqs))
    if o.ok:
        c.check(And(kind == "valid", st == 200), "only a valid answer is a result", lambda: repr(o))
        c.check(o.value == {"ok": 1}, "the answer is decrypted", lambda: repr(o))
        c.reach("linkie-ok")
    else:
        c.check(Not(And(kind == "valid", st == 200)), "a valid answer is returned", lambda: repr(o))
        c.check(o.raised(E._RetryableError), "every failure is retryable", lambda: repr(o))
        c.reach("linkie-error")


def scenarios(tier):
    k = 2 if tier == "quick" else 3
    out = [(f"login-{w}-{p}", login, {"who": w, "part": p}) for w in ("creds", "hash", "none") for p in ("first", "second", "none")]
    out += [(f"history-{f}", history, {"k": k, "first": f}) for f in ("valid", "code", "status")]
    out += [(f"linkie-{x}", linkie, {"kind": x}) for x in ("valid", "clear-error", "garbage", "empty", "lost")]
    return out
