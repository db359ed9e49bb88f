"""DeviceConfig: lossless serialization, credential control, credential hashes."""

from __future__ import annotations

import json

from engine.ctx import And, sym_eq as _eq
from engine.hook import untoken


def sym_eq(a, b):
    """Equality; text that went through native str() is looked up again."""
    a, b = (x if not isinstance(x, str) or (u := untoken(x)) is None else u for x in (a, b))
    return _eq(a, b)

BOUNDS = (
    "every device family x encryption type x https x login version (none, 1, 2, 3) x http port x port override x batch size x "
    "presence of credentials, credential hash, AES key pair and a live http session; host, user name, password and hash "
    "any 8-bit text of length up to 8; every credential-control option; the credential hash of the five transports for "
    "absent, blank and given credentials with every login version"
)
OUTSIDE = "timeout=None (documented to serialize as the default); numbers outside the listed representatives, which are copied, never computed with"
WITNESSES = ["roundtrip", "json", "excluded", "hash-only", "no-secrets", "keep", "hash", "blank"]
QUICK_S, THOROUGH_S = 60, 300

FIELDS = ["host", "timeout", "port_override", "credentials", "credentials_hash", "batch_size", "connection_type", "aes_keys"]


def build(c, sym=True, part=None):
    from kasa import Credentials, DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily

    def text(name, n):
        return c.str(name, n, 0, 255) if sym else c.choice(name, ["", "a b", "ü\"\\\n", "x" * 8][:4])

    full = part != "values"
    ct = DeviceConnectionParameters(
        c.choice("family", list(DeviceFamily)) if full else DeviceFamily.SmartTapoBulb,
        c.choice("enc", list(DeviceEncryptionType)) if full else DeviceEncryptionType.Klap,
        c.choice("login", [None, 1, 2, 3]) if full else c.choice("login", [None, 2]),
        bool(c.bool("https")),
        http_port=c.choice("http_port", [None, 0, 80]) if full else c.choice("http_port", [None, 4433]),
    )
    return ct, text


def eq(a, b):
    """Structural equality of two configs as a term (http_client excluded)."""
    out = []
    for f in FIELDS:
        x, y = getattr(a, f), getattr(b, f)
        if f == "credentials":
            if (x is None) != (y is None):
                return False
            if x is not None:
                out += [sym_eq(x.username, y.username), sym_eq(x.password, y.password), type(x) is type(y)]
        elif f == "aes_keys":
            if (x is None) != (y is None):
                return False
            if x is not None:
                out += [sorted(x) == sorted(y), sym_eq(x["private"], y["private"]), sym_eq(x["public"], y["public"])]
        elif f == "connection_type":
            for g in ("device_family", "encryption_type", "login_version", "https", "http_port"):
                p, q = getattr(x, g), getattr(y, g)
                out.append(p == q and type(p) is type(q))
        else:
            if (x is None) != (y is None):
                return False
            out.append(sym_eq(x, y) if x is not None else True)
    return And(*out)


def config(c, part, live=False):
    from kasa import Credentials, DeviceConfig
    from httpsim import FakeSession

    ct, text = build(c, part=part)
    vals = part == "values"
    timeout, port, batch = c.choice("numbers", [(5, None, None), (0, 0, 0), (30, 1234, 5)]) if vals else (7, 1234, 2)
    kw = dict(
        host=text("host", 5),
        timeout=timeout,
        port_override=port,
        batch_size=batch,
        connection_type=ct,
    )
    n = c.choice("len", [0, 4, 8]) if vals else 3
    has_c = bool(c.bool("has_creds")) if vals or c.deep else True
    has_h = bool(c.bool("has_hash")) if vals or c.deep else True
    has_k = bool(c.bool("has_keys")) if vals else False
    if has_c:
        kw["credentials"] = Credentials(text("user", n), text("pw", n))
    if has_h:
        kw["credentials_hash"] = text("hash", n)
    if has_k:
        kw["aes_keys"] = {"private": "PRIV", "public": ""}
    session = FakeSession(lambda r: None) if live else None
    return DeviceConfig(http_client=session, **kw), session


def roundtrip(c, part):
    from kasa import DeviceConfig

    cfg, session = config(c, part, live=bool(c.bool("live")) if part == "values" else True)
    d = cfg.to_dict()
    c.check("http_client" not in d, "the http session is never serialized", lambda: list(d))
    c.check(set(d) <= set(FIELDS), "only the documented fields are serialized", lambda: list(d))
    c.check(cfg.http_client is session, "serializing leaves the config alone")
    if session is not None:
        c.check(session.closed_count == 0 and not session.reqs, "the session is untouched")
    back = DeviceConfig.from_dict(d)
    c.check(eq(cfg, back), "to_dict/from_dict is lossless", lambda: (d, back))
    c.check(back.http_client is None, "a stored config has no session")
    c.check(back.uses_http == cfg.uses_http, "the kind of transport is kept")
    ct = cfg.connection_type
    c.check(bool(cfg.uses_http) == (ct.encryption_type.value != "XOR" or bool(ct.https)), "only the legacy protocol does without http", lambda: ct)
    c.reach("roundtrip")


def json_roundtrip(c):
    """Through JSON text, for awkward texts (no symbolic values: native JSON)."""
    from kasa import Credentials, DeviceConfig

    ct, text = build(c, sym=False, part="values")
    has_c, has_h = bool(c.bool("has_creds")), bool(c.bool("has_hash"))
    cfg = DeviceConfig(
        host=text("host", 0),
        connection_type=ct,
        credentials=Credentials(text("user", 0), text("pw", 0)) if has_c else None,
        credentials_hash=text("hash", 0) if has_h else None,
    )
    s = cfg.to_json()
    c.check(json.loads(s) == cfg.to_dict(), "json text and dict agree", lambda: s)
    back = DeviceConfig.from_json(s)
    c.check(back == cfg, "json round trip is lossless", lambda: (s, back))
    c.reach("json")


def control(c, part):
    """to_dict_control_credentials."""
    from kasa import DeviceConfig

    cfg, _ = config(c, part)
    creds0, hash0 = cfg.credentials, cfg.credentials_hash
    n = c.choice("ch", [None, 0, 6])
    arg = None if n is None else (c.str("arg", n, 0, 255) if n else "")
    excl = bool(c.bool("exclude"))
    d = cfg.to_dict_control_credentials(credentials_hash=arg, exclude_credentials=excl)
    c.check(cfg.credentials is creds0 and cfg.credentials_hash is hash0, "the config itself is not changed")
    c.check("http_client" not in d, "the http session is never serialized")
    if arg is None and not excl:
        c.check(eq(DeviceConfig.from_dict(d), cfg), "by default everything is kept")
        c.reach("keep")
        return
    c.check("credentials" not in d, "excluded credentials are absent", lambda: list(d))
    back = DeviceConfig.from_dict(d)
    if arg is None:
        same = (back.credentials_hash is None) == (hash0 is None)
        c.check(same, "the stored hash is kept")
        if same and hash0 is not None:
            c.check(sym_eq(back.credentials_hash, hash0), "the stored hash is kept")
        c.reach("excluded")
    elif n == 0:
        c.check("credentials_hash" not in d, "an empty hash removes the hash", lambda: list(d))
        c.reach("no-secrets")
    else:
        c.check(back.credentials_hash is not None and sym_eq(back.credentials_hash, arg), "the given hash replaces the credentials")
        c.reach("hash-only")
    back.credentials, back.credentials_hash = creds0, hash0
    c.check(eq(back, cfg), "everything else is kept", lambda: d)


TRANSPORTS = ["KlapTransport", "KlapTransportV2", "AesTransport", "SslAesTransport", "SslTransport"]


def hashes(c, t):
    """A transport built from its own hash authenticates with the same secret."""
    import kasa.transports as tr
    from kasa import Credentials, DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
    from kasa.transports.sslaestransport import SslAesTransport

    cls0 = SslAesTransport if t == "SslAesTransport" else getattr(tr, t)
    lv = c.choice("login", [None, 1, 2])
    ct = DeviceConnectionParameters(DeviceFamily.SmartTapoBulb, DeviceEncryptionType.Aes, lv)
    mode = c.choice("mode", ["none", "blank", "given"])
    un = c.choice("un", ["user@example.com", "u", "ü:/\"\\ ☃"])
    pw = c.choice("pw", ["pass", "pw\n", "π" * 40])
    creds = {"none": None, "blank": Credentials(), "given": Credentials(un, pw)}[mode]
    def cls(*, config):
        async def mk():
            return cls0(config=config)

        return c.run(mk())

    t1 = cls(config=DeviceConfig("127.0.0.1", credentials=creds, connection_type=ct))
    h = t1.credentials_hash
    if mode != "given":
        c.check(h is None or t == "SslTransport", "no hash without credentials", lambda: h)
        c.reach("blank")
        if h is None:
            return
    c.check(isinstance(h, str) and h, "a hash is offered", lambda: h)
    stored = DeviceConfig("127.0.0.1", credentials=creds, connection_type=ct).to_dict_control_credentials(credentials_hash=h)
    txt = json.dumps(stored)
    if mode == "given":
        c.check(json.dumps(pw) not in txt, "the password itself is not stored")
    cfg2 = DeviceConfig.from_dict(json.loads(txt))
    c.check(cfg2.credentials is None, "only the hash is stored")
    t2 = cls(config=cfg2)
    c.check(t2.credentials_hash == h, "the hash of a transport built from a hash is that hash", lambda: (h, t2.credentials_hash))
    # the secret used to authenticate
    for a in ("_local_auth_hash", "_login_params", "_password", "_username"):
        if hasattr(t1, a):
            c.check(getattr(t1, a) == getattr(t2, a, None), "the same secret is used", lambda: a)
    # credentials win over a hash
    other = Credentials("other", "secret")
    t3 = cls(config=DeviceConfig("127.0.0.1", credentials=other, credentials_hash=h, connection_type=ct))
    t4 = cls(config=DeviceConfig("127.0.0.1", credentials=other, connection_type=ct))
    c.check(t3.credentials_hash == t4.credentials_hash, "credentials take precedence over a hash")
    c.reach("hash")


def scenarios(tier):
    out = [("json", json_roundtrip)] + [(f"hash-{t}", hashes, {"t": t}) for t in TRANSPORTS]
    for p in ("values", "params"):
        out += [(f"roundtrip-{p}", roundtrip, {"part": p}), (f"control-{p}", control, {"part": p})]
    return out
