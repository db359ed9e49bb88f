"""Redaction: identifying data never reaches the log; nothing else is altered."""

from __future__ import annotations

import copy
import json
import logging
import secrets
import time

import sim
from engine.ctx import And, Or, acatch, sym_eq
from engine.hook import freeze

BOUNDS = (
    "every sensitive key of the four redaction tables, at nesting depth up to 4 (dictionaries and lists), with any pair of "
    "8-bit texts of length up to 20 (or numbers, or lists and dictionaries) as its value; every MAC address in the three "
    "notations; responses to single and batched queries of the three protocol families; logins of the five transports that "
    "hold credentials, succeeding or refused"
)
OUTSIDE = "identifiers keep everything after their ninth character and MAC addresses their first three octets, by design; requests are logged as given"
WITNESSES = ["constant", "tail", "mac", "typed", "log", "credentials"]
QUICK_S, THOROUGH_S = 60, 400

CONST = {
    "iot": ["latitude", "longitude", "latitude_i", "longitude_i", "alias", "ssid", "username"],
    "smart": ["latitude", "longitude", "la", "lo", "nickname", "ssid", "bssid", "channel", "device_name", "device_alias", "alias", "board_sn", "custom_sn", "location", "map_data", "map_name", "cd"],
    "decrypted": ["connect_ssid"],
    "discovery": ["device_name", "group_name"],
}
NUM = {"latitude", "longitude", "latitude_i", "longitude_i", "la", "lo", "channel"}
TAIL = {
    "iot": ["deviceId", "oemId", "hwId"],
    "smart": ["device_id", "parent_device_id", "original_device_id", "oem_id", "hw_id", "fw_id", "dev_id", "ext_addr"],
    "decrypted": ["device_id", "owner"],
    "discovery": ["device_id", "owner", "master_device_id", "group_id"],
}
MAC = {"iot": ["mac", "mic_mac"], "smart": ["mac"], "decrypted": [], "discovery": ["mac"]}
DIGITS = {"iot": [], "smart": ["setup_code", "setup_payload", "mfi_setup_code", "mfi_setup_id", "mfi_token_token", "mfi_token_uuid"], "decrypted": [], "discovery": []}


def tables():
    from kasa import discover
    from kasa.protocols import iotprotocol, smartprotocol

    return {"iot": iotprotocol.REDACTORS, "smart": smartprotocol.REDACTORS, "decrypted": discover.DECRYPTED_REDACTORS, "discovery": discover.NEW_DISCOVERY_REDACTORS}


def nest(c, k, v):
    """Documents with k: v somewhere, and the public part."""
    pub = c.int("public", -5, 5)
    shape = c.choice("shape", ["flat", "dict", "list", "listlist", "lists", "deep"])
    inner = {"zz_a": pub, k: v, "zz_b": [pub, "x"]}
    if shape == "flat":
        return inner, lambda d: d
    if shape == "dict":
        return {"zz_r": inner, "zz_c": None}, lambda d: d["zz_r"]
    if shape == "list":
        return {"zz_r": [1, inner], "zz_c": ""}, lambda d: d["zz_r"][1]
    if shape == "lists":
        return {"zz_r": [[1, [inner, pub]], {"zz_q": [[], [None]]}]}, lambda d: d["zz_r"][0][1][0]
    if shape == "listlist":
        return [[{"zz_r": inner}]], lambda d: d[0][0]["zz_r"]
    return {"zz_r": {"zz_s": [{"zz_t": [inner, pub]}]}}, lambda d: d["zz_r"]["zz_s"][0]["zz_t"][0]


def redact(table, doc):
    from kasa.protocols.protocol import redact_data

    return redact_data(doc, tables()[table])


def constant(c, table, key):
    """The output does not depend on the value at all."""
    ty = c.choice("type", ["str", "num", "list", "dict"])
    n1, n2 = c.choice("len1", [1, 8, 12, 20]), c.choice("len2", [1, 12])
    if ty == "str":
        a, b = c.str("a", n1, 0, 255), c.str("b", n2, 0, 255)
    elif ty == "num":
        a, b = c.int("na", 1, 10**9), c.int("nb", 1, 10**9)
    elif ty == "list":
        a, b = [c.int("na", 1, 10**9)], [c.int("nb", 1, 10**9)]
    else:
        a, b = {"zz_q": c.int("na", 1, 10**9)}, {"zz_q": c.int("nb", 1, 10**9)}
    doc, get = nest(c, key, a)
    before = freeze(doc)
    ra = redact(table, doc)
    c.check(sym_eq(doc, before), "the caller's document is not modified", lambda: repr(doc))
    inner = get(doc)
    inner[key] = b
    rb = redact(table, doc)
    c.check(sym_eq(get(ra)[key], get(rb)[key]), "the redacted text does not depend on the value", lambda: (repr(get(ra)), repr(get(rb))))
    inner[key] = None
    want = copy.copy(inner)
    got = get(redact(table, doc))
    c.check(sym_eq(got, want), "everything else is kept", lambda: repr(got))
    c.reach("constant" if ty == "str" else "typed")


def tail(c, table, key):
    """Identifiers lose at least their first nine characters."""
    n = c.choice("len", list(range(1, 21)))
    a, b = c.str("a", n, 0, 255), c.str("b", n, 0, 255)
    doc, get = nest(c, key, a)
    before = freeze(doc)
    ra = redact(table, doc)
    c.check(sym_eq(doc, before), "the caller's document is not modified")
    get(doc)[key] = b
    rb = redact(table, doc)
    same = sym_eq(a[9:], b[9:]) if n > 9 else True
    va, vb = get(ra)[key], get(rb)[key]
    c.check(Or(sym_eq(va, vb), not same), "the redacted text does not depend on the first nine characters", lambda: (repr(va), repr(vb)))
    c.check(len(va) == max(9, n), "the length is kept", lambda: repr(va))
    c.reach("tail")


def typed(c, table, key):
    """Identifiers of an unexpected type are not shown."""
    ty = c.choice("type", ["num"] if key in MAC[table] else ["num", "list", "dict"])
    x, y = c.int("a", 1, 10**9), c.int("b", 1, 10**9)
    mk = {"num": lambda v: v, "list": lambda v: [v], "dict": lambda v: {"zz_q": v}}[ty]
    doc, get = nest(c, key, mk(x))
    ra = redact(table, doc)
    get(doc)[key] = mk(y)
    rb = redact(table, doc)
    c.check(sym_eq(get(ra)[key], get(rb)[key]), "a value of an unexpected type is not shown", lambda: (repr(get(ra)[key]), repr(get(rb)[key])))
    c.reach("typed")


def mac(c, table, key):
    sep = c.choice("sep", [":", "-", ""])
    lo, hi = c.choice("chars", [(48, 57), (65, 70), (97, 102)])
    hexa = [c.str(f"o{i}", 2, lo, hi) for i in range(6)]
    other = [c.str(f"p{i}", 2, lo, hi) for i in range(3)]

    def text(octs):
        s = octs[0]
        for o in octs[1:]:
            s = s + sep + o
        return s

    doc, get = nest(c, key, text(hexa))
    ra = get(redact(table, doc))[key]
    get(doc)[key] = text(hexa[:3] + other)
    rb = get(redact(table, doc))[key]
    c.check(sym_eq(ra, rb), "the last three octets are not shown", lambda: (repr(ra), repr(rb)))
    c.check(sym_eq(ra, text(hexa[:3] + ["00", "00", "00"])), "a masked address is the vendor part and zeros", lambda: repr(ra))
    c.reach("mac")


def digits(c, table, key):
    a, b = c.choice("pair", [(None, None), ("MT:ABCD-12", "MT:WXYZ-98"), ("a-b-c", "x-y-z"), ("0", "7"), ("é1", "ü2")])
    if a is None:
        n = c.choice("digits", [1, 8, 11])
        a, b = c.str("a", n, 48, 57), c.str("b", n, 65, 90)
    doc, get = nest(c, key, a)
    ra = get(redact(table, doc))[key]
    get(doc)[key] = b
    rb = get(redact(table, doc))[key]
    c.check(sym_eq(ra, rb), "setup codes are not shown", lambda: (repr(ra), repr(rb)))


def children(c):
    """Children of a strip and rooms of a vacuum."""
    n = c.choice("n", [1, 2, 3])
    which = c.choice("which", ["children", "area_list"])
    ids = [(c.str(f"ia{i}", 6), c.str(f"ib{i}", 6)) for i in range(n)]
    names = [(c.str(f"na{i}", 4), c.str(f"nb{i}", 4)) for i in range(n)]
    st = [c.int(f"s{i}", 0, 1) for i in range(n)]

    def doc(j):
        if which == "children":
            return {"system": {"get_sysinfo": {"children": [{"id": ids[i][j], "alias": names[i][j], "state": st[i]} for i in range(n)]}}}
        return {"result": {"area_list": [{"id": st[i], "name": names[i][j]} for i in range(n)]}}

    t = "iot" if which == "children" else "smart"
    d0 = doc(0)
    ra, rb = redact(t, d0), redact(t, doc(1))
    c.check(sym_eq(ra, rb), "names and ids of children are not shown", lambda: (repr(ra), repr(rb)))
    c.check(sym_eq(d0, doc(0)), "the caller's document is not modified")
    if which == "children":
        got = ra["system"]["get_sysinfo"]["children"]
        c.check(len(got) == n and And(*[sym_eq(g["state"], s) for g, s in zip(got, st)]), "everything else is kept")
    else:
        got = ra["result"]["area_list"]
        c.check(len(got) == n and And(*[sym_eq(g["id"], s) for g, s in zip(got, st)]), "everything else is kept")


def empties(c, table):
    """Empty and missing values stay as they are; non-documents are returned unchanged."""
    key = c.choice("key", sorted(tables()[table]))
    v = c.choice("v", ["", None])
    doc, get = nest(c, key, v)
    got = redact(table, doc)
    c.check(sym_eq(got, doc), "empty values stay empty", lambda: repr(got))
    x = c.int("x", -5, 5)
    c.check(sym_eq(redact(table, x), x), "a number is not a document")


# --- log lines -----------------------------------------------------------------


class Cap(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.lines: list = []

    def emit(self, r):
        try:
            self.lines.append(r.getMessage())
        except Exception:
            self.lines.append(str(r.msg) + " " + repr(r.args))


class captured:
    def __enter__(self):
        self.h = Cap()
        self.lg = logging.getLogger("kasa")
        self.old = (self.lg.level, self.lg.propagate, logging.root.manager.disable)
        logging.disable(logging.NOTSET)
        self.lg.setLevel(logging.DEBUG)
        self.lg.propagate = False
        self.lg.addHandler(self.h)
        return self.h

    def __exit__(self, *a):
        self.lg.removeHandler(self.h)
        self.lg.setLevel(self.old[0])
        self.lg.propagate = self.old[1]
        logging.disable(self.old[2])


SECRET = "S3CR3TVALUE"


def loglines(c, kind):
    """No response line shows a sensitive value, whatever the query and its outcome."""
    from kasa.protocols import IotProtocol, SmartProtocol
    from kasa.protocols.smartcamprotocol import SmartCamProtocol

    table = "iot" if kind == "iot" else "smart"
    key = c.choice("key", [k for k in CONST[table] if k not in NUM] + TAIL[table])
    code = c.choice("code", [0, -1003, -1501, 9999])
    mark = SECRET if key not in TAIL[table] else SECRET[:9]
    sect = {"zz": {key: SECRET, "zz_public": "PUBLIC"}}

    def handler(r):
        if kind == "iot":
            return {"system": {"get_x": sect}}
        if r["method"] == "multipleRequest":
            return {"error_code": code, "result": {"responses": [{"method": q["method"], "error_code": 0, "result": sect} for q in r["params"]["requests"]]}}
        if kind.startswith("cam"):
            return {"error_code": code, "sys": sect}
        return {"error_code": code, "result": sect}

    from kasa import Credentials, DeviceConfig

    cfg = DeviceConfig("127.0.0.1", credentials=Credentials("a", "b"), batch_size=2) if kind.endswith("-batches") else None
    t = sim.make_transport(handler, config=cfg) if cfg else sim.make_transport(handler)
    p = {"iot": IotProtocol, "smart": SmartProtocol, "cam": SmartCamProtocol}[kind.split("-")[0]](transport=t)
    req = {
        "iot": {"system": {"get_x": {}}}, "smart-single": {"get_x": None}, "smart-str": "get_x", "smart-batch": {"get_x": None, "get_y": None},
        "smart-batches": {f"get_{x}": None for x in "abcde"}, "cam-batches": {f"get{x}": {"a": {}} for x in "ABCDE"},
        "cam-single": {"get": {"sys": {"name": ["x"]}}}, "cam-batch": {"getX": {"a": {}}, "getY": {"a": {}}}, "cam-do": {"do": {"sys": {"x": 1}}},
    }[kind]

    async def go():
        return await acatch(p.query(req, retry_count=0))

    with captured() as h:
        c.run(go())
    text = "\n".join(h.lines)
    c.check(mark not in text, "no log line shows a sensitive value of a response", lambda: text[-800:])
    c.check("PUBLIC" in text or not (code == 0), "responses are logged for debugging", lambda: text[-300:])
    c.reach("log")


def credentials(c, kind):
    """No log line and no exception text shows the password or what is sent in its place."""
    import base64
    import hashlib

    from httpsim import FakeSession
    from kasa import Credentials, DeviceConfig

    user, pw = "user@example.com", "S3CR3Tpw!"
    outcome = c.choice("outcome", ["refused", "retry", "unreadable", "status", "ok"])
    given = c.choice("given", ["creds", "hash"])
    bad = {"refused": (200, {"error_code": -1501}), "retry": (200, {"error_code": 9999}), "unreadable": (200, b"\x00"), "status": (404, {"error_code": 0})}
    md = hashlib.md5(pw.encode()).hexdigest()
    marks = [pw, md, md.upper(), base64.b64encode(pw.encode()).decode(), hashlib.sha1(pw.encode()).hexdigest(), base64.b64encode(hashlib.sha1(pw.encode()).hexdigest().encode()).decode()]
    hs = {
        "aes": base64.b64encode(json.dumps({"username": "dXNlcg==", "password2": marks[5]}).encode()).decode(),
        "ssl": base64.b64encode(json.dumps({"username": user, "password": md.upper()}).encode()).decode(),
        "sslaes": base64.b64encode(json.dumps({"un": user, "pwd": pw}).encode()).decode(),
        "klap": base64.b64encode(hashlib.sha256(pw.encode()).digest()).decode(),
        "klap2": base64.b64encode(hashlib.sha256(pw.encode()).digest()).decode(),
    }
    marks.append(hs[kind])
    kw = {"credentials": Credentials(user, pw)} if given == "creds" else {"credentials_hash": hs[kind]}
    import aessim as A

    ki = b"k" * 32
    aes = A.Aes(ki[:16], ki[16:])

    def handler(r):
        raw = r.json if r.json is not None else r.data
        j = None
        if kind in ("aes", "ssl", "sslaes"):
            j = json.loads(raw) if isinstance(raw, (str, bytes)) else raw
        if kind == "aes" and j["method"] == "handshake":
            return 200, {"error_code": 0, "result": {"key": A.wrap_key(j["params"]["key"], ki)}}
        if outcome != "ok":
            return bad[outcome]
        if kind == "aes":
            q = json.loads(aes.dec(j["params"]["request"]))
            return 200, {"error_code": 0, "result": {"response": aes.enc(json.dumps({"error_code": 0, "result": {"token": "t"}} if q["method"] == "login_device" else {"error_code": 0}))}}
        if kind == "ssl":
            return 200, {"error_code": 0, "result": {"token": "t"}}
        if kind == "sslaes":
            if "cnonce" in j.get("params", {}):
                return 200, {"error_code": -40401, "result": {"data": {"code": -40401, "encrypt_type": ["1"]}}}
            return 200, {"error_code": 0, "result": {"stok": "t"}}
        return 200, b"\x00" * 48

    fs = FakeSession(handler)

    async def go():
        from kasa import transports as T
        from kasa.transports.sslaestransport import SslAesTransport
        from kasa.transports.ssltransport import SslTransport

        cls = {"aes": T.AesTransport, "klap": T.KlapTransport, "klap2": T.KlapTransportV2, "ssl": SslTransport, "sslaes": SslAesTransport}[kind]
        t = cls(config=DeviceConfig("127.0.0.1", http_client=fs, aes_keys=A.keypair() if kind == "aes" else None, **kw))
        o = await acatch(t.send('{"method":"get_x"}'))
        await t.close()
        return o

    with captured() as h:
        o = c.run(go())
    text = "\n".join(h.lines) + "\n" + repr(o.exc)
    shown = [m for m in marks if m in text]
    c.check(not shown, "no log line or error shows the credentials", lambda: (shown, text[-600:]))
    c.check(pw not in repr(Credentials(user, pw)) and user not in repr(Credentials(user, pw)), "credentials have no readable representation")
    c.reach("credentials")


def scenarios(tier):
    out = []
    for t in ("iot", "smart", "decrypted", "discovery"):
        out += [(f"const-{t}-{k}", constant, {"table": t, "key": k}) for k in CONST[t]]
        out += [(f"tail-{t}-{k}", tail, {"table": t, "key": k}) for k in TAIL[t]]
        out += [(f"typed-{t}-{k}", typed, {"table": t, "key": k}) for k in TAIL[t] + MAC[t]]
        out += [(f"mac-{t}-{k}", mac, {"table": t, "key": k}) for k in MAC[t]]
        out += [(f"code-{t}-{k}", digits, {"table": t, "key": k}) for k in DIGITS[t]]
        out += [(f"empty-{t}", empties, {"table": t})]
    out += [("children", children, {})]
    out += [(f"log-{k}", loglines, {"kind": k}) for k in ("iot", "smart-single", "smart-str", "smart-batch", "smart-batches", "cam-single", "cam-batch", "cam-batches", "cam-do")]
    out += [(f"creds-{k}", credentials, {"kind": k}) for k in ("aes", "klap", "klap2", "ssl", "sslaes")]
    return out
