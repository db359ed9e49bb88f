"""Dumped device information: nothing that identifies its owner, everything else as the device answered."""

from __future__ import annotations

import json
import os
import tempfile

import sim
from engine.ctx import And, sym_eq
from engine.hook import freeze

BOUNDS = (
    "devices of the three families with up to two children each (of their own model, of another model, a camera, one that "
    "does not answer), and their discovery information; every identifying field at once, anywhere in the answers, with any "
    "text of 4 and 7 printable characters (sixteen digits or letters for identifiers, hexadecimal MAC addresses in the three notations, any "
    "number for places), in two independent versions of the same device; any public values; batch sizes 1, 2, 5; the last "
    "combined query of a legacy device answered or failing; saved in both places"
)
OUTSIDE = "fields that are in none of the redaction tables; longer texts (those that contain the word SCRUBBED mark what is scrubbed already); the vendor half of a MAC address and the length of identifiers stay"
WITNESSES = ["legacy", "smart", "camera", "child-same", "child-other", "child-camera", "silent-child", "discovery", "saved", "final-fails"]
QUICK_S, THOROUGH_S = 60, 200

NAMES = {
    "iot": ["alias", "ssid", "username"],
    "smart": ["nickname", "ssid", "bssid", "device_name", "device_alias", "alias", "board_sn", "custom_sn", "location", "map_data", "map_name", "cd", "ip", "local_ip"],
    "discovery": ["device_name", "group_name", "ip"],
    "decrypted": ["connect_ssid"],
}
PLACES = {"iot": ["latitude", "longitude", "latitude_i", "longitude_i"], "smart": ["latitude", "longitude", "la", "lo", "channel"], "discovery": [], "decrypted": []}
IDS = {
    "iot": ["deviceId", "oemId", "hwId"],
    "smart": ["parent_device_id", "original_device_id", "oem_id", "hw_id", "fw_id", "dev_id", "ext_addr", "setup_code", "setup_payload", "mfi_setup_code", "mfi_setup_id", "mfi_token_token", "mfi_token_uuid"],
    "discovery": ["device_id", "owner", "master_device_id", "group_id"],
    "decrypted": ["device_id", "owner"],
}
MACS = {"iot": ["mac", "mic_mac"], "smart": ["mac"], "discovery": ["mac"], "decrypted": []}
ALL = {k for t in (NAMES, PLACES, IDS, MACS) for v in t.values() for k in v} | {"device_id", "id", "dev_id", "key", "data", "area_list"}
VENDOR = "A86E84"


class Who:
    """One version of the identifying values."""

    def __init__(self, c, tag, form):
        self.c, self.tag, self.form, self.n = c, tag, form, 0
        self.lo, self.hi = (48, 57) if tag == "a" else (65, 70)

    def _name(self, k):
        self.n += 1
        return f"{self.tag}{self.n}_{k}"

    def text(self, k):
        return self.c.str(self._name(k), 7 if self.tag == "a" else 4, 32, 126)

    def ident(self, k):
        low = 32 if self.tag == "b" and self.n % 2 else 0  # small and capital letters
        return self.c.str(self._name(k), 16, self.lo + low, self.hi + low)

    def mac(self, k):
        own = self.c.str(self._name(k), 6, self.lo, self.hi)
        both = VENDOR + own
        out = both[:2]
        for i in range(2, 12, 2):
            out = out + self.form + both[i : i + 2]
        return out

    def fields(self, table, skip=()):
        out = {}
        for k in NAMES[table]:
            out[k] = self.text(k)
        for k in PLACES[table]:
            out[k] = self.c.int(self._name(k), -1_800_000, 1_800_000)
        for k in IDS[table]:
            out[k] = self.ident(k)
        for k in MACS[table]:
            out[k] = self.mac(k)
        return {k: v for k, v in out.items() if k not in skip}


def public(o):
    """Without what identifies."""
    if isinstance(o, dict):
        return {k: public(v) for k, v in o.items() if k not in ALL}
    if isinstance(o, list):
        return [public(v) for v in o]
    return o


def tool():
    import devtools.dump_devinfo as t

    return t


def quiet(c):
    t = tool()
    c.patch(t.click, "echo", lambda *a, **k: None)
    c.patch(t, "pprint", lambda *a, **k: None)
    return t


def discovery(c, who, num, system=False):
    if system:
        return None
    return {
        "error_code": 0,
        "result": {
            **who.fields("discovery"), "device_model": "X9(EU)", "device_type": "SMART.TAPOPLUG", "zz": num,
            "mgt_encrypt_schm": {"encrypt_type": "KLAP", "lv": 2},
            "encrypt_info": {"sym_schm": "AES", "key": who.text("key"), "data": who.text("data")},
            "decrypted_data": {**who.fields("decrypted"), "http_port": num},
        },
    }


def attempt(c, coro):
    async def go():
        try:
            return await coro
        except SystemExit as ex:
            raise RuntimeError("the tool gave up") from ex

    return c.attempt(go())


def compare(c, fa, fb, docs):
    """Both versions give the same files, with the device's public answers."""
    c.check(len(fa) == len(fb), "the files do not depend on what identifies the device", lambda: (fa, fb))
    for x, y in zip(fa, fb):
        c.check(And(sym_eq(x.filename, y.filename), x.folder == y.folder, x.protocol_suffix == y.protocol_suffix), "the file's name does not depend on what identifies the device", lambda: (x[:2], y[:2]))
        for k in x.data:
            c.check(sym_eq(freeze(x.data[k]), freeze(y.data.get(k))), "the file does not depend on what identifies the device", lambda: (k, repr(x.data[k])[:1500], repr(y.data.get(k))[:1500]))
        c.check(set(x.data) == set(y.data), "the file's answers do not depend on what identifies the device", lambda: (set(x.data) ^ set(y.data)))


# -- legacy -------------------------------------------------------------------


def legacy_doc(c, who, num, kids):
    info = {**who.fields("iot", ("username", "ssid")), "sw_ver": "1.2.5 Build 1", "hw_ver": "1.0", "model": "HS300(US)", "rssi": num, "zz_list": [num, {"zz": 1}], "err_code": 0}
    if kids:
        info["children"] = [{"id": who.ident("id"), "alias": who.text("alias"), "state": num, "zz": i} for i in range(kids)]
    return {
        "system": {"get_sysinfo": info},
        "emeter": {"get_realtime": {"power": num, "err_code": 0}},
        "cnCloud": {"get_info": {"username": who.text("username"), "binded": 1, "err_code": 0}},
        "schedule": {"get_rules": {"rule_list": [{"ssid": who.text("ssid"), "zz": num}], "err_code": 0}},
    }


def legacy(c):
    from kasa.exceptions import KasaException
    from kasa.protocols import IotProtocol

    t = quiet(c)
    num = c.int("public", -1000, 1000)
    kids = c.choice("children", [0, 1, 2])
    form = c.choice("mac", [":", "-", ""])
    fails = c.choice("final", [False, True])
    disc = c.choice("discovery", ["none", "new", "old"])
    res, docs = [], []
    for tag in "ab":
        who = Who(c, tag, form)
        doc = legacy_doc(c, who, num, kids)
        s = sim.IotSim(doc)

        def handler(req, s=s):
            if fails and len(req) > 1:
                raise KasaException("too much")
            return {m: v if m in s.d else {"err_code": -1, "err_msg": "module not support"} for m, v in s.handle(req).items()}

        di = discovery(c, who, num) if disc == "new" else {"system": {"get_sysinfo": doc["system"]["get_sysinfo"]}} if disc == "old" else None
        proto = IotProtocol(transport=sim.make_transport(handler))
        o = attempt(c, t.get_legacy_fixture(proto, discovery_info=di["result"] if disc == "new" else di))
        r, e = o.value, o.exc
        c.check(e is None, "the information of every legacy device can be dumped", lambda: repr(e))
        if e is not None:
            return
        res.append([r])
        docs.append(doc)
    compare(c, *res, docs)
    out = res[0][0].data
    for m, cmds in docs[0].items():
        got = {k: v for k, v in out.get(m, {}).items() if k in cmds or v.get("err_code") == 0}
        c.check(sym_eq(public(freeze(got)), public(freeze(cmds))), "every answer is kept as it was, apart from what identifies", lambda: (m, repr(got), repr(cmds)))
    c.check(set(out) - {"discovery_result"} == set(docs[0]), "only what answered is dumped", lambda: set(out))
    c.check(("discovery_result" in out) == (disc == "new"), "the discovery information is in the file", lambda: set(out))
    if disc == "new":
        c.check(sym_eq(public(freeze(out["discovery_result"])), public(freeze(di["result"]))), "the discovery information is kept apart from what identifies", lambda: repr(out["discovery_result"]))
    c.check(res[0][0].filename == "HS300(US)_1.0_1.2.5", "the file is named after model and versions", lambda: res[0][0].filename)
    c.reach("legacy")
    if fails:
        c.reach("final-fails")


# -- smart --------------------------------------------------------------------


def smart_info(c, who, num, model, did, hub=False):
    return {
        **who.fields("smart"), "device_id": did, "model": model, "type": "SMART.TAPOHUB" if hub else "SMART.TAPOPLUG", "region": "Europe/Berlin", "specs": "EU",
        "hw_ver": "1.0", "fw_ver": "1.0.7 Build 1 Rel. 2", "rssi": num, "zz_list": [{"nickname": who.text("nick"), "zz": num}],
        "area_list": [{"name": who.text("name"), "zz": 1}],
    }


def comps(ids):
    return {"component_list": [{"id": i, "ver_code": 1} for i in ids]}


def smart_doc(c, who, num, kids, parent, tag):
    """(answers, {child id: answers})"""
    did = {"a": "80A1", "b": "80B2"}[tag] * 5
    cids = [{"a": "11CC", "b": "22DD"}[tag] * 5 + str(i) for i in range(len(kids))]
    top = ["device", "wireless"] + (["child_device", "control_child"] if kids else [])
    doc = {
        "component_nego": comps(top),
        "get_device_info": smart_info(c, who, num, parent, did),
        "get_wireless_scan_info": {"ap_list": [{"ssid": who.text("ssid"), "bssid": who.text("bssid"), "zz": num}], "start_index": 0, "sum": 1, "wep_supported": False},
    }
    ch = {}
    for i, (k, cid) in enumerate(zip(kids, cids)):
        if k == "silent":
            ch[cid] = None
            continue
        model = parent if k == "same" else f"S{i}"
        ch[cid] = {"component_nego": comps(["device"]), "get_device_info": {**smart_info(c, who, num + i, model, cid), "category": "plug.powerstrip.sub-plug"}}
    if kids:
        doc["get_child_device_component_list"] = {"child_component_list": [{"device_id": cid, **comps(["device"])} for cid in cids], "start_index": 0, "sum": len(cids)}
        doc["get_child_device_list"] = {
            "child_device_list": [{**who.fields("smart"), "device_id": cid, "category": "plug.powerstrip.sub-plug", "model": "zz", "zz": num} for cid in cids],
            "start_index": 0, "sum": len(cids),
        }
    return doc, ch


def smart(c):
    from kasa.protocols import SmartProtocol

    t = quiet(c)
    num = c.int("public", -1000, 1000)
    kids = c.choice("children", [[], ["same"], ["other"], ["same", "other"], ["other", "other"], ["same", "same"], ["silent"], ["same", "silent"], ["silent", "other"]])
    form = c.choice("mac", [":", "-", ""] if c.deep else ["-"])
    batch = c.choice("batch", [1, 2, 5] if c.deep else [5, 1] if not kids else [5])
    disc = c.choice("discovery", [False, True] if len(kids) < 2 else [True])
    res, docs = [], []
    for tag in "ab":
        who = Who(c, tag, form)
        doc, ch = smart_doc(c, who, num, kids, "P300", tag)
        s = sim.SmartSim(doc, {k: v for k, v in ch.items() if v is not None})
        silent = {k for k, v in ch.items() if v is None}
        s.on = lambda target, method, params, silent=silent, doc=doc, ch=ch: {"error_code": -1008} if target in silent or (method.startswith("get") and method not in (ch.get(target) if target else doc)) else None
        di = discovery(c, who, num) if disc else None
        proto = SmartProtocol(transport=sim.make_transport(s.handle))
        o = attempt(c, t.get_smart_fixtures(proto, discovery_info=di, batch_size=batch))
        r, e = o.value, o.exc
        c.check(e is None, "the information of every device can be dumped", lambda: repr(e))
        if e is not None:
            return
        res.append(r)
        docs.append((doc, ch))
    compare(c, *res, docs)
    main = res[0][0].data
    doc, ch = docs[0]
    others = res[0][1:]
    for m, v in doc.items():
        c.check(sym_eq(public(freeze(main.get(m))), public(freeze(v))), "every answer is kept as it was, apart from what identifies", lambda: (m, repr(main.get(m)), repr(v)))
    c.check(set(main) - {"discovery_result", "child_devices"} == set(doc), "only what answered is dumped", lambda: set(main))
    c.check(("discovery_result" in main) == disc, "the discovery information is in the file", lambda: set(main))
    if disc:
        c.check(sym_eq(public(freeze(main["discovery_result"])), public(freeze(di))), "the discovery information is kept apart from what identifies", lambda: repr(main["discovery_result"]))
    ids = [x["device_id"] for x in main.get("get_child_device_list", {}).get("child_device_list", [])]
    c.check(len(set(ids)) == len(ids) == len(kids), "children have different scrubbed ids", lambda: ids)
    c.check([x["device_id"] for x in main.get("get_child_device_component_list", {}).get("child_component_list", [])] == ids, "a child has the same scrubbed id everywhere", lambda: ids)
    same = main.get("child_devices", {})
    n = 0
    for i, (k, cid) in enumerate(zip(kids, ch)):
        if k == "silent":
            c.check(ids[i] not in same, "a child that does not answer has no answers in the file")
            continue
        if k == "same":
            c.check(ids[i] in same, "a child of its parent's model is in its parent's file", lambda: (ids, list(same)))
            got = same.get(ids[i], {})
        else:
            c.check(n < len(others) and others[n].folder.endswith("smart/child/"), "a child of another model has a file of its own", lambda: others)
            got = others[n].data if n < len(others) else {}
            n += 1
        c.check(sym_eq(public(freeze(got)), public(freeze(ch[cid]))), "every answer of a child is kept as it was, apart from what identifies", lambda: (repr(got), repr(ch[cid])))
        c.check(got.get("get_device_info", {}).get("device_id") == ids[i], "a child has the same scrubbed id everywhere", lambda: (ids[i], repr(got)[:300]))
        c.reach("child-same" if k == "same" else "child-other")
    c.check(n == len(others) and len(same) == kids.count("same"), "every child is dumped once", lambda: (len(others), list(same)))
    c.check(res[0][0].filename == ("X9" if disc else "P300") + "(EU)_1.0_1.0.7", "the file is named after model and versions", lambda: res[0][0].filename)
    c.reach("smart")
    if disc:
        c.reach("discovery")
    if "silent" in kids:
        c.reach("silent-child")


# -- camera -------------------------------------------------------------------


def cam_info(c, who, num, model, did):
    basic = {**who.fields("smart"), "dev_id": did, "device_model": model, "device_type": "SMART.TAPOHUB", "hw_version": "1.0", "sw_version": "1.3.6 Build 1 rel.2", "region": "EU", "zz": num}
    return {"device_info": {"basic_info": basic}}


def camera(c):
    from kasa.protocols.smartcamprotocol import SmartCamProtocol

    t = quiet(c)
    num = c.int("public", -1000, 1000)
    kids = c.choice("children", [[], ["smart"], ["camera"], ["smart", "camera"], ["silent"], ["smart", "silent"]])
    disc = c.choice("discovery", [True, False]) if not kids else True
    few = {"getDeviceInfo", "getLedStatus", "getChildDeviceList", "getChildDeviceComponentList", "getConnectionType", "get"}
    c.patch(t, "SMARTCAM_REQUESTS", [r for r in t.SMARTCAM_REQUESTS if next(iter(r)) in few])
    res, docs = [], []
    for tag in "ab":
        who = Who(c, tag, "-")
        did = {"a": "80A1", "b": "80B2"}[tag] * 5
        cids = [{"a": "11CC", "b": "22DD"}[tag] * 5 + str(i) for i in range(len(kids))]
        doc = {"getDeviceInfo": cam_info(c, who, num, "H200", did), "getLedStatus": {"led": {"config": {"enabled": "on", "zz": num}}}}
        ch = {}
        if kids:
            doc["getChildDeviceComponentList"] = {"child_component_list": [{"device_id": cid, **comps(["device"])} for cid in cids], "start_index": 0, "sum": len(cids)}
            lst = []
            for k, cid in zip(kids, cids):
                e = {**who.fields("smart", ("dev_id",)), "device_id": cid, "zz": num}
                if k == "camera":
                    e |= {"category": "camera", "device_model": "D230", "hw_ver": "1.20", "sw_ver": "1.1.19 Build 2 rel.6", "region": "EU", "device_type": "SMART.TAPODOORBELL"}
                    ch[cid] = {"getDeviceInfo": cam_info(c, who, num, "D230", cid), "getLedStatus": {"led": {"config": {"enabled": "off", "zz": num}}}}
                else:
                    e |= {"category": "subg.trigger.button"}
                    ch[cid] = {"component_nego": comps(["device"]), "get_device_info": {**smart_info(c, who, num, "S200B", cid), "category": "subg.trigger.button"}} if k == "smart" else None
                lst.append(e)
            doc["getChildDeviceList"] = {"child_device_list": lst, "start_index": 0, "sum": len(cids)}
        s = sim.CamSim(doc, {k: v for k, v in ch.items() if v is not None})
        silent = {k for k, v in ch.items() if v is None}
        s.on = lambda target, method, params, silent=silent, doc=doc, ch=ch: {"error_code": -40106} if target in silent or method not in (ch.get(target) if target else doc) else None
        di = discovery(c, who, num) if disc else None
        proto = SmartCamProtocol(transport=sim.make_transport(s.handle))
        o = attempt(c, t.get_smart_fixtures(proto, discovery_info=di, batch_size=5))
        r, e = o.value, o.exc
        c.check(e is None, "the information of every camera can be dumped", lambda: repr(e))
        if e is not None:
            return
        res.append(r)
        docs.append((doc, ch))
    compare(c, *res, docs)
    doc, ch = docs[0]
    main, others = res[0][0].data, res[0][1:]
    for m, v in doc.items():
        c.check(sym_eq(public(freeze(main.get(m))), public(freeze(v))), "every answer is kept as it was, apart from what identifies", lambda: (m, repr(main.get(m)), repr(v)))
    ids = [x["device_id"] for x in main.get("getChildDeviceList", {}).get("child_device_list", [])]
    c.check(len(set(ids)) == len(ids) == len(kids), "children have different scrubbed ids", lambda: ids)
    n = 0
    for i, (k, cid) in enumerate(zip(kids, ch)):
        if k == "silent":
            continue
        c.check(n < len(others), "a child of another model has a file of its own", lambda: len(others))
        got = dict(others[n].data) if n < len(others) else {}
        n += 1
        got.pop("child_info_from_parent", None)
        c.check(sym_eq(public(freeze(got)), public(freeze(ch[cid]))), "every answer of a child is kept as it was, apart from what identifies", lambda: (repr(got), repr(ch[cid])))
        gid = got.get("get_device_info", {}).get("device_id") if k == "smart" else got.get("getDeviceInfo", {}).get("device_info", {}).get("basic_info", {}).get("dev_id")
        c.check(gid == ids[i], "a child has the same scrubbed id everywhere", lambda: (ids[i], gid))
        if k == "camera":
            c.reach("child-camera")
    c.check(n == len(others), "every child is dumped once", lambda: len(others))
    c.reach("camera")
    if "silent" in kids:
        c.reach("silent-child")


def saved(c):
    """What is written is what was prepared, where it belongs."""
    from kasa.protocols import IotProtocol, SmartProtocol

    t = quiet(c)
    kind = c.choice("family", ["iot", "smart"])
    place = c.choice("place", ["repository", "elsewhere"])
    ok = c.choice("answer", ["auto", "y", "n"])
    num = c.int("public", -1000, 1000)
    who = Who(c, "a", "-")
    written = []
    c.patch(t.json, "dump", lambda data, f, **k: written.append((f.name, freeze(data))))
    c.patch(t.click, "prompt", lambda *a, **k: ok)
    with tempfile.TemporaryDirectory() as d:
        if place == "repository":
            for f in (t.IOT_FOLDER, t.SMART_FOLDER, t.SMART_CHILD_FOLDER):
                os.makedirs(os.path.join(d, f))
        if kind == "iot":
            s = sim.IotSim(legacy_doc(c, who, num, 1))
            proto = IotProtocol(transport=sim.make_transport(s.handle))
        else:
            doc, ch = smart_doc(c, who, num, ["same", "other"], "P300", "a")
            s = sim.SmartSim(doc, ch)
            proto = SmartProtocol(transport=sim.make_transport(s.handle))
        want = c.run(t.get_smart_fixtures(proto, discovery_info=None, batch_size=5) if kind == "smart" else _one(t.get_legacy_fixture(proto, discovery_info=None)))
        o = attempt(c, t.handle_device(d, ok == "auto", proto, discovery_info=None, batch_size=5))
        e = o.exc
        c.check(e is None, "the files can be written", lambda: repr(e))
        got = [(os.path.relpath(n, d), x) for n, x in written]
    if ok == "n":
        c.check(not got, "nothing is saved when that is not wanted", lambda: [g[0] for g in got])
        return
    c.check(len(got) == len(want), "every file is saved", lambda: [g[0] for g in got])
    for (n, x), w in zip(got, want):
        exp = os.path.join(w.folder, w.filename + ".json") if place == "repository" else os.path.join("kasa-fixtures", f"{w.filename}-{w.protocol_suffix}.json")
        c.check(n == exp, "a file is saved where it belongs", lambda: (n, exp))
        c.check(sym_eq(x, freeze(w.data)), "what is saved is the information without what identifies", lambda: (n, repr(x)[:800]))
    c.reach("saved")


async def _one(coro):
    return [await coro]


def scenarios(tier):
    return [(f, globals()[f], {}) for f in ("legacy", "smart", "camera", "saved")]
