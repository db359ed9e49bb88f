"""KLAP session: sequence numbers, expiry, security errors, decryption faults."""

from __future__ import annotations

import json
import secrets
import time

import klapsim as K
from engine.ctx import And, Not, Or, acatch, sym_eq
from httpsim import FakeSession

BOUNDS = (
    "histories of K commands (quick K=2, K=3 when the first goes well, thorough K=3) on one KLAP v1/v2 transport; before each the solver picks the elapsed "
    "time (0..200000 s in quarter seconds) and whether the transport is reset; per command the reply status (100..599) and "
    "whether the body is valid, corrupt, not JSON or empty; per handshake the session outcome (either step refused) and the lifetime announced (absent "
    "or any 0..200000 s)"
)
OUTSIDE = "more than K commands; sequence numbers overflowing 31 bits"
WITNESSES = ["ok", "expired", "kept", "security-error", "other-status", "undecodable", "handshake-failed"]
QUICK_S, THOROUGH_S = 150, 700
USER = ("u@x", "p")


def history(c, v2, k, first):
    from kasa import Credentials, DeviceConfig
    from kasa.exceptions import AuthenticationError, KasaException, _ConnectionError, _RetryableError
    from kasa.transports import KlapTransport, KlapTransportV2

    ah = K.auth_hash(v2, *USER)
    clock = {"t": 1000.0}
    c.patch(time, "monotonic", lambda: clock["t"])
    n = {"seed": 0, "hs": 0, "failed": 0}
    seeds = []

    def tb(m=None):
        n["seed"] += 1
        s = bytes([n["seed"]]) * 16
        seeds.append(s)
        return s

    c.patch(secrets, "token_bytes", tb)
    D = {"sessions": [], "expire": None, "cookie": None, "cur": None}
    cmd = {}

    def handler(r):
        if r.path == "/app/handshake1":
            n["hs"] += 1
            if cmd["fail"] == "first step":
                return 500, b""
            rs = bytes([100 + n["hs"]]) * 16
            D["pending"] = (r.data, rs)
            D["cookie"] = f"cookie{n['hs']}"
            ck = {"TP_SESSIONID": D["cookie"]}
            life = 86400
            if c.bool("lifetime-given"):
                life = c.int("lifetime", 0, 200000)
                ck["TIMEOUT"] = str(life)
            D["expire"] = clock["t"] + life - 1200
            c.check(r.data == seeds[-1] and r.data not in seeds[:-1], "every handshake uses a fresh seed")
            return 200, rs + K.hs1_hash(v2, r.data, rs, ah), ck
        if r.path == "/app/handshake2":
            ls, rs = D["pending"]
            c.check(r.data == K.hs2_hash(v2, ls, rs, ah), "second handshake proof")
            c.check(r.cookies == {"TP_SESSIONID": D["cookie"]}, "the session cookie is returned in the handshake")
            if cmd["fail"] == "second step":
                return 500, b""
            D["cur"] = K.Session(ls, rs, ah)
            D["sessions"].append(D["cur"])
            return 200, b""
        s = D["cur"]
        seq = r.params["seq"]
        c.check(r.cookies == {"TP_SESSIONID": D["cookie"]}, "commands carry the current session cookie", lambda: r.cookies)
        c.check(seq == s.seq0 + 1 + len(s.seqs), "sequence numbers increase by one and are never reused", lambda: (seq, s.seqs))
        s.seqs.append(seq)
        txt = s.decode(r.data, seq)
        c.check(txt is not None and json.loads(txt) == {"n": cmd["i"]}, "the command is signed and encrypted for the current session", lambda: txt)
        cmd["sent"] += 1
        cmd["session"] = len(D["sessions"])
        b = cmd["body"]
        if b == "valid":
            return cmd["status"], K.reply(s, seq, {"r": cmd["i"]})
        if b == "corrupt":
            return cmd["status"], b"\x00" * 47
        if b == "notjson":
            return cmd["status"], K.reply(s, seq, "{nope")
        if b == "binary":
            return cmd["status"], K.reply(s, seq, b"\xff\xfe")
        return cmd["status"], b""

    fs = FakeSession(handler)

    async def go():
        t = (KlapTransportV2 if v2 else KlapTransport)(config=DeviceConfig("127.0.0.1", http_client=fs, credentials=Credentials(*USER)))
        need = True
        for i in range(k):
            gap = c.real(f"gap{i}", 0, 200000, 4)
            clock["t"] = clock["t"] + gap
            if i and c.bool(f"reset{i}"):
                await t.reset()
                need = True
            body = ["valid", "corrupt", "notjson", "binary", "empty"][first] if i == 0 else c.choice(f"body{i}", ["valid", "corrupt", "notjson", "empty"]) if i == 1 or c.deep else "valid"
            # non-valid bodies only matter with status 200
            cmd.update(i=i, sent=0, body=body, status=c.int(f"status{i}", 100, 599) if body == "valid" else 200)
            cmd["fail"] = c.choice(f"fail{i}", ["", "first step", "second step"]) if first == 0 else ""
            hs0, exp0 = n["hs"], D["expire"]
            o = await acatch(t.send(json.dumps({"n": i})))
            did = n["hs"] - hs0
            if did and cmd["fail"]:
                # the device broke off the handshake: nothing was sent, and the next command starts over
                c.check(did == 1 and not cmd["sent"], "no command follows a handshake that failed", lambda: (did, cmd))
                c.check(o.raised(KasaException), "a failed handshake is a library error", lambda: repr(o))
                c.check(Or(need, clock["t"] >= exp0) if exp0 is not None else need, "a live session is kept", lambda: repr(o))
                need = True
                n["failed"] += 1
                c.reach("handshake-failed")
                continue
            c.check(did <= 1 and cmd["sent"] == 1, "one command is sent once, after at most one handshake", lambda: (did, cmd))
            if need:
                c.check(did == 1, "a reset or refused session is not used again")
            elif did:
                c.check(clock["t"] >= exp0, "a live session is kept", lambda: repr(o))
                c.reach("expired")
            else:
                c.check(clock["t"] < exp0, "an expired session is renewed before use", lambda: repr(o))
                c.reach("kept")
            need = False
            st = cmd["status"]
            if o.ok:
                c.check(And(st == 200, body == "valid"), "only a valid reply is a result", lambda: (body, repr(o)))
                c.check(o.value == {"r": i}, "the reply is the decrypted document")
                c.reach("ok")
                continue
            c.check(o.raised(KasaException), "a bad reply is a library error", lambda: (body, repr(o)))
            c.check(not o.raised(AuthenticationError, _ConnectionError), "a bad reply is not an authentication failure")
            if body != "valid":
                c.reach("undecodable")
                continue
            if o.raised(_RetryableError):
                c.check(st == 403, "only a security error is retryable", lambda: repr(o))
                need = True
                c.reach("security-error")
            else:
                c.check(And(Not(st == 200), Not(st == 403)), "a security error is retryable, other statuses are final", lambda: repr(o))
                c.reach("other-status")
        allseeds = [s for s in D["sessions"]]
        c.check(len(allseeds) == n["hs"] - n["failed"], "every handshake makes a new session")

    c.run(go())


def scenarios(tier):
    k = 2 if tier == "quick" else 3
    return [(f"v{2 if v2 else 1}-first{f}", history, {"v2": v2, "k": k if f else 3, "first": f}) for v2 in (False, True) for f in range(5)]
