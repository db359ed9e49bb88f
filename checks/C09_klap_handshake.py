"""KLAP: mutual authentication before any command leaves."""

from __future__ import annotations

import base64
import json
import secrets

import klapsim as K
from engine.ctx import Not, Or, acatch, sym_eq
from httpsim import FakeSession

BOUNDS = (
    "the device's proof is any 32-byte value (all 2^256), of any length 0..64, any HTTP status 100..599 in both handshake "
    "steps; protocol versions 1 and 2; caller identified by user name and password, by a stored hash, or not at all; several "
    "seed pairs; two devices of either version in one process with own, blank or default accounts, each over two sessions with and without cookies, the first device set up anew with another account in between"
)
OUTSIDE = "the hash functions themselves are run, not encoded: seeds are sampled, the comparison with the proof is decided"
WITNESSES = ["own", "default", "blank", "rejected", "bad-status1", "bad-status2", "bad-length", "several"]
QUICK_S, THOROUGH_S = 60, 400

SEEDS = [(bytes(range(16)), bytes(range(16, 32))), (b"\x00" * 16, b"\xff" * 16), (b"kL" * 8, b"\x80\x00" * 8)]


def build(c, v2, who):
    from kasa import Credentials, DeviceConfig

    own = ("user@example.com", "pa$$wörd")
    kw = {}
    if who == "creds":
        kw["credentials"] = Credentials(*own)
        ah = K.auth_hash(v2, *own)
    elif who == "hash":
        ah = K.auth_hash(v2, *own)
        kw["credentials_hash"] = base64.b64encode(ah).decode()
    else:
        ah = K.auth_hash(v2, "", "")
    return kw, ah


def handshake(c, v2, who, seeds, part):
    from kasa import DeviceConfig
    from kasa.exceptions import AuthenticationError, KasaException
    from kasa.transports import KlapTransport, KlapTransportV2

    ls, rs = SEEDS[seeds]
    kw, own = build(c, v2, who)
    c.patch(secrets, "token_bytes", lambda n=None: ls)
    valid = {"own": own, "blank": K.auth_hash(v2, "", "")}
    for i, (u, p) in enumerate(K.DEFAULTS):
        valid[f"default{i}"] = K.auth_hash(v2, u, p)
    st1 = c.int("status1", 100, 599) if part == "status1" else 200
    st2 = c.int("status2", 100, 599) if part == "status2" else 200
    if part == "length":
        n = c.choice("len", [x for x in range(0, 65) if x != 48])
        proof = c.bytes("reply", n)
        body = proof
    elif part == "status2":
        body = rs + K.hs1_hash(v2, ls, rs, own)
        proof = body[16:]
    else:
        proof = c.bytes("proof", 32)
        body = rs + proof
    sess = {}

    def handler(r):
        if r.path == "/app/handshake1":
            return st1, body, {"TP_SESSIONID": "cookie1", "TIMEOUT": "86400"}
        if r.path == "/app/handshake2":
            sess["hs2"] = r.data
            for name, ah in valid.items():
                if K.hs2_hash(v2, ls, rs, ah) == r.data:
                    sess["who"] = name
                    sess["s"] = K.Session(ls, rs, ah)
                    break
            return st2, b""
        seq = r.params["seq"]
        sess["req"] = sess["s"].decode(r.data, seq)
        return 200, K.reply(sess["s"], seq, {"ok": 1})

    fs = FakeSession(handler)
    out = {}

    async def go():
        t = (KlapTransportV2 if v2 else KlapTransport)(config=DeviceConfig("127.0.0.1", http_client=fs, **kw))
        mine = None if who == "none" else base64.b64encode(own).decode()
        c.check(t.credentials_hash == mine, "the stored hash is the caller's, and absent without an account", lambda: (t.credentials_hash, mine))
        out["o"] = await acatch(t.send(json.dumps({"cmd": "secret-command"})))
        c.check(t.credentials_hash == mine, "the stored hash is the caller's, whatever the device has", lambda: (t.credentials_hash, mine))
        out["o2"] = await acatch(t.send(json.dumps({"cmd": "secret-command"}))) if not out["o"].ok and part == "proof" else None

    c.run(go())
    o = out["o"]
    paths = [r.path for r in fs.reqs]
    c.check(fs.reqs[0].path == "/app/handshake1" and fs.reqs[0].data == ls, "the first message carries only the fresh seed")
    if part == "length":
        c.check(o.raised(KasaException) and not o.raised(AuthenticationError), "a proof of the wrong size is an error", lambda: repr(o))
        c.check(paths == ["/app/handshake1"], "nothing follows a malformed proof")
        c.reach("bad-length")
        return
    if part == "status2":
        if o.ok:
            c.check(st2 == 200, "a refused second step is an error")
            c.check(sess.get("who") == "own" and json.loads(sess["req"]) == {"cmd": "secret-command"}, "command")
        else:
            c.check(Not(st2 == 200), "an accepted second step succeeds", lambda: repr(o))
            c.check(o.raised(KasaException) and not o.raised(AuthenticationError), "refused second step", lambda: repr(o))
            c.check(paths == ["/app/handshake1", "/app/handshake2"], "no command after a refused handshake", lambda: paths)
            c.reach("bad-status2")
        return
    matches = {n: sym_eq(proof, K.hs1_hash(v2, ls, rs, ah)) for n, ah in valid.items()}
    anymatch = Or(*matches.values())
    if o.ok:
        c.check(st1 == 200, "a refused first step is an error")
        c.check(anymatch, "only a peer that proves knowledge of the credentials is talked to", lambda: repr(o))
        w = sess.get("who")
        c.check(w is not None, "the second step proves the same credentials", lambda: paths)
        if w is None:
            return
        # two names may share one credential pair (own == blank)
        c.check(Or(*[m for n, m in matches.items() if valid[n] == valid[w]]), "both proofs use the same credentials")
        c.check(json.loads(sess["req"]) == {"cmd": "secret-command"}, "the command is encrypted for that session", lambda: sess)
        c.check(o.value == {"ok": 1}, "the reply is decrypted")
        c.check(fs.reqs[1].cookies == {"TP_SESSIONID": "cookie1"} == fs.reqs[2].cookies, "the session cookie is returned")
        c.reach("default" if w.startswith("default") else w)
    else:
        c.check(paths[0] == "/app/handshake1" and set(paths) == {"/app/handshake1"}, "nothing is sent to an unproven peer", lambda: paths)
        c.check(o.raised(KasaException), "handshake failures are library errors", lambda: repr(o))
        if part == "status1":
            if o.raised(AuthenticationError):
                c.check(st1 == 200, "a refused handshake is not an authentication failure")
                c.check(Not(anymatch), "a peer with the right proof is accepted", lambda: repr(o))
            else:
                c.check(Not(st1 == 200), "only an unexpected status is a plain error", lambda: repr(o))
                c.reach("bad-status1")
        else:
            c.check(o.raised(AuthenticationError), "a wrong proof is an authentication failure", lambda: repr(o))
            c.check(Not(anymatch), "a peer with the right proof is accepted", lambda: repr(o))
            c.check(out["o2"].raised(AuthenticationError), "a failed handshake leaves nothing usable behind")
            c.reach("rejected")


def several(c, vers):
    """Several transports and sessions in one process do not affect each other."""
    from kasa import Credentials, DeviceConfig
    from kasa.transports import KlapTransport, KlapTransportV2

    ls, rs = SEEDS[0]
    c.patch(secrets, "token_bytes", lambda n=None: ls)
    devs = []
    for i, v2 in enumerate(vers):
        account = c.choice(f"account{i}", ["own", "blank", *range(len(K.DEFAULTS))])
        own = (f"user{i}", f"pass{i}")
        pair = own if account == "own" else ("", "") if account == "blank" else K.DEFAULTS[account]
        d = {"v2": v2, "ah": K.auth_hash(v2, *pair), "own": own, "cookie": None, "i": i}

        def handler(r, d=d):
            if r.path == "/app/handshake1":
                d["hs1_cookies"] = r.cookies
                return 200, rs + K.hs1_hash(d["v2"], ls, rs, d["ah"]), ({"TP_SESSIONID": d["cookie"]} if d["cookie"] else {})
            want = {"TP_SESSIONID": d["cookie"]} if d["cookie"] else None
            c.check((r.cookies or None) == want, "a session carries the cookie its own handshake set, and no other", lambda: (r.path, r.cookies, want))
            if r.path == "/app/handshake2":
                c.check(r.data == K.hs2_hash(d["v2"], ls, rs, d["ah"]), "the second step proves the credentials the device has")
                d["s"] = K.Session(ls, rs, d["ah"])
                return 200, b""
            seq = r.params["seq"]
            q = d["s"].decode(r.data, seq)
            c.check(q is not None and json.loads(q) == {"cmd": d["i"]}, "the command belongs to the session", lambda: repr(q))
            return 200, K.reply(d["s"], seq, {"ok": d["i"]})

        d["fs"] = FakeSession(handler)
        devs.append(d)
    rounds = 2 if len(vers) < 3 else 1

    async def go():
        ts = [(KlapTransportV2 if d["v2"] else KlapTransport)(config=DeviceConfig("127.0.0.1", http_client=d["fs"], credentials=Credentials(*d["own"]))) for d in devs]
        for n in range(rounds):
            for d, t in zip(devs, ts):
                if n and not d["i"]:
                    # someone sets the first device up again: it now has another account
                    d["ah"] = K.auth_hash(d["v2"], *{"own": d["own"], "blank": ("", "")}[c.choice("account-now", ["own", "blank"])])
                d["cookie"] = c.choice(f"cookie{n}", [None, f"c{n}"])
                o = await acatch(t.send(json.dumps({"cmd": d["i"]})))
                c.check(o.ok and o.value == {"ok": d["i"]}, "a device whose credentials are accepted is talked to", lambda: (d["v2"], n, repr(o)))
                c.check(not d["hs1_cookies"], "a handshake starts without the cookie of an earlier session", lambda: d["hs1_cookies"])
                mine = base64.b64encode(K.auth_hash(d["v2"], *d["own"])).decode()
                c.check(t.credentials_hash == mine, "the stored hash is the caller's, whatever the device has", lambda: (t.credentials_hash, mine))
                await t.reset()

    c.run(go())
    c.reach("several")


def scenarios(tier):
    out = []
    seeds = (0,) if tier == "quick" else range(len(SEEDS))
    for v2 in (False, True):
        for who in ("creds", "hash", "none"):
            for s in seeds:
                for part in ("proof", "status1", "status2", "length"):
                    out.append((f"v{2 if v2 else 1}-{who}-seed{s}-{part}", handshake, {"v2": v2, "who": who, "seeds": s, "part": part}))
    for vers in [(False, True), (True, False)] + ([(False, False, True), (True, True, False)] if tier == "thorough" else []):
        out.append((f"several-{''.join('2' if v else '1' for v in vers)}", several, {"vers": vers}))
    return out
