"""Identity: model, region, versions, address, name, id and kind of a device are the ones it reports."""

from __future__ import annotations

import base64
import copy

import sim
from engine import hook
from engine.ctx import And, Implies, Not, Or, acatch, sym_eq

BOUNDS = (
    "models, versions, builds, regions, addresses, names and ids of any letters and digits of fixed length (names of 0 to 4 characters), with and without region, build and name; older plug, bulb, dimmer, strip and its sockets, newer device, hub and strip with two children, "
    "camera, camera hub with a camera; before the first update (from discovery), after it, and after a second one with other values; any subset of ten components and every family; lookups by any id, name of up to 3 characters and index among three children"
)
OUTSIDE = "the id of newer devices before their first update (discovery reports another); hwId of newer devices; which of several children with one name is found"
WITNESSES = ["iot", "iot-discovered", "iot-partly", "socket", "smart", "smart-discovered", "smart-region", "no-region", "no-build", "child", "camera", "camera-child", "kind", "by-id", "by-name", "not-found", "by-index", "no-index", "no-name"]
QUICK_S, THOROUGH_S = 200, 500


def b64(t):
    if isinstance(t, str) and type(t) is str:
        return base64.b64encode(t.encode()).decode()
    return hook.H[base64.b64encode](base64.b64encode, t.encode()).decode()


def mac(c, name, sep):
    """An address: its first half any digits, the second with letters."""
    d = c.str(name, 6, 48, 57)
    return d[0:2] + sep + d[2:4] + sep + d[4:6] + sep + sep.join(["AB", "0C", "DE"])


def want_mac(m):
    return m.replace("-", ":")


class Who:
    """What a device says of itself."""

    def __init__(self, c, tag, fixed=None, name_len=4, sep=":", turn=None):
        self.model = fixed.model if fixed else c.str(f"model {tag}", 7, 48, 90)
        R, B = [None, "EU", "US"], [None, "full", "word"]
        self.turn = turn if turn is not None else (fixed.turn + 1 if fixed else c.pick(f"turn {tag}", 3))
        self.region = fixed.region if fixed else R[self.turn % 3]
        self.hw = c.str(f"hw {tag}", 3, 46, 57)
        self.fw = c.str(f"fw {tag}", 5, 46, 57)
        self.build = B[(self.turn + 1) % 3]
        if self.build:
            b = c.str(f"build text {tag}", 4, 48, 122)
            self.build = "Build " + b + " Rel.1" if self.build == "full" else b
        self.full_fw = self.fw + " " + self.build if self.build else self.fw
        self.mac = fixed.mac if fixed else mac(c, f"mac {tag}", sep)
        self.name = c.str(f"name {tag}", name_len, 32, 126) if name_len else ""
        self.oem = c.str(f"oem {tag}", 4, 48, 70)
        self.hwid = c.str(f"hwid {tag}", 4, 48, 70)
        self.id = fixed.id if fixed else c.str(f"id {tag}", 6, 48, 70)


def same(c, got, want, label, who=None):
    if want is None:
        c.check(not got, label, lambda: (got, want))
    else:
        c.check(got is not None and sym_eq(got, want), label, lambda: (got, want))


def info(c, dev, w, family, brand, kind=None):
    di = dev.device_info
    same(c, di.short_name, w.model, "the model is the one reported")
    same(c, dev.model, w.model, "the device's model is the one reported")
    same(c, di.region, w.region, "the region is the one reported")
    same(c, dev.region, w.region, "the device's region is the one reported")
    same(c, di.hardware_version, w.hw, "the hardware version is the one reported")
    same(c, di.firmware_version, w.fw, "the firmware version is the one reported")
    same(c, di.firmware_build, w.build, "the firmware build is the one reported")
    c.check(di.device_family == family, "the family is the one reported", lambda: (di.device_family, family))
    c.check(di.brand == brand, "the brand is the family's", lambda: di.brand)
    if kind is not None:
        c.check(di.device_type is kind and dev.device_type is kind, "the kind of device is the same wherever it is asked", lambda: (di.device_type, dev.device_type, kind))
    if not w.region:
        c.reach("no-region")
    if not w.build:
        c.reach("no-build")


IOT = {"plug": ("HS110v4", "IotPlug"), "bulb": ("KL130", "IotBulb"), "dimmer": ("HS220", "IotDimmer"), "strip": ("HS300", "IotStrip")}


def iot(c, kind):
    import kasa.iot as K
    from kasa import DeviceType as T

    name, cls = IOT[kind]
    d = sim.data(name)
    si = d["system"]["get_sysinfo"]
    bare = kind in ("bulb", "strip") and bool(c.bool("address without separators"))
    family = si.get("type", si.get("mic_type"))
    w = None
    first = c.choice("discovered first", [False, "fully", "partly"])

    def state(tag, fixed):
        w = Who(c, tag, fixed)
        si.update({"model": w.model + (f"({w.region})" if w.region else ""), "hw_ver": w.hw, "sw_ver": w.full_fw, "alias": w.name, "oemId": w.oem, "hwId": w.hwid, "deviceId": w.id})
        for k in ("mac", "mic_mac"):
            si.pop(k, None)
        if bare:
            si["mic_mac"] = ["AA00bb11CC22", "009f0e1d2c3b"][len(tag) % 2]
            w.mac = ["AA:00:bb:11:CC:22", "00:9f:0e:1d:2c:3b"][len(tag) % 2]
        elif kind == "strip":
            si["mac"] = w.mac = "12:34:56:AB:0C:DE"
        else:
            si["mac"] = w.mac
        if kind == "strip":
            w.socks = [c.str(f"socket {tag} {i}", 3, 32, 126) for i in range(2)]
            si["children"] = [{**copy.deepcopy(x), "id": f"0{i}", "alias": w.socks[i]} for i, x in enumerate(si["children"][:2])]
            si["child_num"] = 2
        lat = c.int(f"lat {tag}", -900000, 900000)
        for k in ("latitude", "longitude", "latitude_i", "longitude_i"):
            si.pop(k, None)
        if kind == "bulb":
            w.loc = (None, None)
        elif kind == "dimmer":
            si.update({"latitude": lat, "longitude": -lat})
            w.loc = (lat, -lat)
        else:
            si.update({"latitude_i": lat, "longitude_i": -lat})
            w.loc = (lat / 10000, -lat / 10000)
        return w

    dev, s = sim.iot_device(d, getattr(K, cls))
    T_ = {"plug": T.Plug, "bulb": T.Bulb, "dimmer": T.Dimmer, "strip": T.Strip}[kind]

    def addr(got, want):
        if bare:
            return got.lower() == want.lower()
        return sym_eq(got, want_mac(want))

    def verify(w):
        info(c, dev, w, family, "kasa", T_)
        same(c, dev.alias, w.name, "the name is the one reported")
        c.check(addr(dev.mac, w.mac), "the address is the one reported, with colons", lambda: (dev.mac, w.mac))
        c.check(addr(dev.device_id, w.mac), "an older device is known by its address", lambda: dev.device_id)
        hw = dev.hw_info
        c.check(And(sym_eq(hw["sw_ver"], w.full_fw), sym_eq(hw["hw_ver"], w.hw), sym_eq(hw["oemId"], w.oem), sym_eq(hw["hwId"], w.hwid)), "the hardware information is as reported", lambda: hw)
        loc = dev.location
        c.check(sym_eq(loc["latitude"], w.loc[0]) and sym_eq(loc["longitude"], w.loc[1]), "the place is the one reported", lambda: (loc, w.loc))

    async def go():
        w = state("1", None)
        if first == "partly":
            dev.update_from_discover_info({"device_model": w.model + (f"({w.region})" if w.region else ""), "mac": w.mac, "device_type": "IOT.SMARTPLUGSWITCH", "ip": "127.0.0.1"})
            same(c, dev.model, w.model, "the model found is the one reported, without its region")
            c.check(addr(dev.mac, w.mac), "the address found is the one reported, with colons", lambda: (dev.mac, w.mac))
            c.reach("iot-partly")
        elif first:
            dev.update_from_discover_info(copy.deepcopy(hook.freeze({"system": {"get_sysinfo": si}})))
            verify(w)
            c.reach("iot-discovered")
        await dev.update()
        verify(w)
        if kind == "bulb":
            w2 = state("2", None if bare else w)
        else:
            w2 = state("2" if bare else "22", w)
            if bare:
                w2.mac = w.mac
        await dev.update()
        verify(w2)
        if kind == "strip":
            c.check(len(dev.children) == 2, "a strip has its sockets")
            for i, ch in enumerate(dev.children):
                same(c, ch.alias, w2.socks[i], "a socket's name is its own")
                c.check(addr(ch.mac, w2.mac), "a socket has its strip's address", lambda: ch.mac)
                c.check(addr(ch.device_id[: len(dev.mac)], w2.mac) and ch.device_id[len(dev.mac) :] == f"_0{i}", "a socket's id is its strip's with its own number", lambda: ch.device_id)
                c.check(ch.device_type is T.StripSocket and ch.parent is dev, "a socket is a socket of its strip", lambda: ch.device_type)
                same(c, ch.model, "Socket for " + w2.model + (f"({w2.region})" if w2.region else ""), "a socket's model tells its strip's")
            c.reach("socket")
        c.reach("iot")

    c.run(go())


SMART_KIND = {"P110M": "Plug", "L530E": "Bulb", "L900": "LightStrip", "HS220s": "Dimmer", "KS240": "WallSwitch", "RV20": "Vacuum", "H100": "Hub", "P300": "Strip"}


def smart(c, name):
    from kasa import DeviceType as T

    d = sim.data(name)
    gi = d["get_device_info"]
    family = gi["type"]
    nameless = bool(c.bool("no name"))
    sep = c.choice("separator", ["-", ":"])
    discovered = c.choice("discovery", ["none", "region", "plain"])
    dev, s = sim.smart_device(d)
    kids = name in ("H100", "P300")

    def state(tag, fixed=None):
        w = Who(c, tag, fixed, 0 if nameless else 4, sep)
        gi.update({"model": w.model, "specs": w.region or "", "hw_ver": w.hw, "fw_ver": w.full_fw, "mac": w.mac, "nickname": b64(w.name) if w.name else "", "oem_id": w.oem, "device_id": w.id})
        lat = c.int(f"lat {tag}", -900000, 900000)
        gi.update({"latitude": lat, "longitude": -lat})
        w.loc = (lat / 10000, -lat / 10000)
        if discovered == "region" and not fixed:
            w.region = "JP"
        elif discovered == "region":
            w.region = fixed.region
        if kids:
            for i, k in enumerate(d["get_child_device_list"]["child_device_list"][:2]):
                kw = Who(c, f"{tag} child {i}", fixed.kids[i] if fixed else None, 3, "", turn=w.turn + i + 1)
                k.update({"model": kw.model, "specs": kw.region or "", "hw_ver": kw.hw, "fw_ver": kw.full_fw, "mac": kw.mac, "nickname": b64(kw.name), "oem_id": kw.oem})
                kw.id = k["device_id"]
                kw.family, kw.category = k["type"], k["category"]
                w.__dict__.setdefault("kids", []).append(kw)
            lst = d["get_child_device_list"]
            lst["child_device_list"] = lst["child_device_list"][:2]
            lst["sum"] = 2
        return w

    def verify(w, kind=None):
        info(c, dev, w, family, "tapo" if "TAPO" in family else "kasa", kind)
        if w.name:
            same(c, dev.alias, w.name, "the name is the one reported")
        else:
            c.check(not dev.alias, "a device without a name has none", lambda: dev.alias)
            c.reach("no-name")
        c.check(sym_eq(dev.mac, want_mac(w.mac)), "the address is the one reported, with colons", lambda: (dev.mac, w.mac))
        c.check(sym_eq(dev.device_id, w.id), "the id is the one reported", lambda: (dev.device_id, w.id))
        hw = dev.hw_info
        c.check(And(sym_eq(hw["sw_ver"], w.full_fw), sym_eq(hw["hw_ver"], w.hw), sym_eq(hw["mac"], w.mac), sym_eq(hw["oemId"], w.oem), hw["type"] == family), "the hardware information is as reported", lambda: hw)
        loc = dev.location
        c.check(sym_eq(loc["latitude"], w.loc[0]) and sym_eq(loc["longitude"], w.loc[1]), "the place is the one reported", lambda: (loc, w.loc))

    async def go():
        nonlocal dev
        w = state("1")
        if discovered != "none":
            model = w.model + "(JP)" if discovered == "region" else w.model
            answer = {"device_id": "0123", "owner": "o", "device_type": family, "device_model": model, "ip": "127.0.0.1", "mac": w.mac, "mgt_encrypt_schm": {"is_support_https": False, "encrypt_type": "KLAP", "http_port": 80, "lv": 2}, "is_support_iot_cloud": True}
            from kasa import Credentials, DeviceConfig, Discover
            from kasa.discover import DiscoveryResult

            sim.model_from_dict(c, DiscoveryResult)
            c.patch(DiscoveryResult, "to_dict", lambda self: {k: v for k, v in vars(self).items() if v is not None})
            proto = dev.protocol
            dev = Discover._get_device_instance({"result": answer}, DeviceConfig("127.0.0.1", credentials=Credentials("u", "p")))
            dev.protocol = proto
            same(c, dev.model, w.model, "the model is the one discovered")
            c.check(sym_eq(dev.mac, want_mac(w.mac)), "the address is the one discovered")
            c.reach("smart-discovered")
            if discovered == "region":
                c.reach("smart-region")
        await dev.update()
        kind = getattr(T, SMART_KIND[name])
        verify(w, kind=kind)
        w2 = state("2", w)
        await dev.update()
        verify(w2, kind=kind)
        if kids:
            c.check(len(dev.children) == 2, "the children are the ones listed")
            for ch, kw in zip(dev.children, w2.kids):
                info(c, ch, kw, kw.family, "tapo" if "TAPO" in kw.family else "kasa")
                want = {"subg.trv": T.Thermostat, "plug.powerstrip.sub-plug": T.Plug}.get(kw.category, T.Sensor)
                c.check(ch.device_type is want, "a child's kind is its category's", lambda: (ch.device_type, kw.category))
                same(c, ch.alias, kw.name, "a child's name is its own")
                c.check(And(sym_eq(ch.mac, kw.mac), sym_eq(ch.device_id, kw.id), sym_eq(ch.hw_info["oemId"], kw.oem)), "a child's address and id are its own", lambda: (ch.mac, ch.device_id))
                c.check(ch.parent is dev, "a child knows its parent")
            c.reach("child")
        c.reach("smart")

    c.run(go())


def camera(c, hub):
    from kasa import DeviceType as T

    d = sim.data("H200" if hub else "C210")
    bi = d["getDeviceInfo"]["device_info"]["basic_info"]
    family = bi["device_type"]
    dev, s = sim.cam_device(d)
    kid = d["getChildDeviceList"]["child_device_list"][0] if hub else None
    if hub:
        s.children = {kid["device_id"]: {k: v for k, v in sim.data("D230").items() if k.startswith("get") and k != "getDeviceInfo"}}

    def state(tag, fixed=None):
        w = Who(c, tag, fixed, 4, "-")
        bi.update({"device_model": w.model, "hw_version": w.hw, "sw_version": w.full_fw, "mac": w.mac, "device_alias": w.name, "oem_id": w.oem, "hw_id": w.hwid, "dev_id": w.id})
        bi.pop("region", None)
        if w.region:
            bi["region"] = w.region
        if hub:
            kw = Who(c, f"{tag} child", fixed.kid if fixed else None, 4, ":", turn=w.turn + 1)
            kid.update({"device_model": kw.model, "hw_ver": kw.hw, "sw_ver": kw.full_fw, "mac": kw.mac, "alias": kw.name, "oem_id": kw.oem, "hw_id": kw.hwid})
            kid.pop("region", None)
            if kw.region:
                kid["region"] = kw.region
            kw.id = kid["device_id"]
            w.kid = kw
        return w

    def verify(dev, w, family, kind):
        info(c, dev, w, family, "tapo", kind)
        same(c, dev.alias, w.name, "the name is the one reported")
        c.check(sym_eq(dev.mac, want_mac(w.mac)), "the address is the one reported, with colons", lambda: (dev.mac, w.mac))
        c.check(sym_eq(dev.device_id, w.id), "the id is the one reported", lambda: (dev.device_id, w.id))
        hw = dev.hw_info
        c.check(And(sym_eq(hw["sw_ver"], w.full_fw), sym_eq(hw["hw_ver"], w.hw), sym_eq(hw["mac"], w.mac), sym_eq(hw["oemId"], w.oem), sym_eq(hw["hwId"], w.hwid)), "the hardware information is as reported", lambda: hw)

    async def go():
        w = state("1")
        await dev.update()
        verify(dev, w, family, T.Hub if hub else T.Camera)
        w2 = state("2", w)
        await dev.update()
        verify(dev, w2, family, T.Hub if hub else T.Camera)
        if hub:
            c.check(len(dev.children) == 1, "the children are the ones listed")
            ch = dev.children[0]
            verify(ch, w2.kid, kid["device_type"], T.Doorbell)
            c.check(ch.parent is dev, "a child knows its parent")
            c.reach("camera-child")
        c.reach("camera")

    c.run(go())


COMPONENTS = ["child_device", "light_strip", "dimmer_calibration", "brightness", "color", "energy_monitoring", "led"]
FAMILIES = ["SMART.KASAHUB", "SMART.TAPOHUB", "SMART.KASAPLUG", "SMART.TAPOPLUG", "SMART.KASASWITCH", "SMART.TAPOSWITCH", "SMART.TAPOBULB", "SMART.TAPOSENSOR", "SMART.KASAENERGY", "SMART.TAPOROBOVAC", "SMART.TAPOCHIME"]


def kind(c):
    """The kind of a newer device follows its family and what it can do."""
    from kasa import DeviceType as T
    from kasa.smart import SmartDevice

    fam = FAMILIES[c.pick("family", len(FAMILIES))]
    has = {x: bool(c.bool(x)) for x in COMPONENTS[:4]}
    comps = [x for x in COMPONENTS if has.get(x, False)] + ["device"]
    if c.bool("reversed"):
        comps.reverse()
    info = {
        "component_nego": {"component_list": [{"id": x, "ver_code": 1} for x in comps]},
        "get_device_info": {"model": "X1", "type": fam, "fw_ver": "1.0 Build 1", "hw_ver": "1", "specs": ""},
    }
    got = SmartDevice._get_device_info(info, None)
    if "HUB" in fam:
        want = T.Hub
    elif "PLUG" in fam:
        want = T.Strip if has["child_device"] else T.Plug
    elif has["light_strip"]:
        want = T.LightStrip
    elif "SWITCH" in fam and has["child_device"]:
        want = T.WallSwitch
    elif has["dimmer_calibration"]:
        want = T.Dimmer
    elif has["brightness"]:
        want = T.Bulb
    else:
        want = {"SWITCH": T.WallSwitch, "SENSOR": T.Sensor, "ENERGY": T.Thermostat, "ROBOVAC": T.Vacuum, "CHIME": T.Chime}.get(next((k for k in ("SWITCH", "SENSOR", "ENERGY", "ROBOVAC", "CHIME") if k in fam), None), T.Plug)
    c.check(got.device_type is want, "the kind of a device follows its family and what it can do", lambda: (fam, comps, got.device_type))
    c.reach("kind")


def lookup(c, legacy):
    """Children are found by id, by name in any case, and by position."""
    from kasa import KasaException
    from kasa.iot import IotStrip

    d = sim.data("HS300" if legacy else "P300")
    si = d["system"]["get_sysinfo"] if legacy else None
    kids = si["children"][:3] if legacy else d["get_child_device_list"]["child_device_list"][:3]
    if legacy:
        si["children"], si["child_num"] = kids, 3
    names = []

    def rename(tag):
        names[:] = [c.str(f"name {tag} {i}", 2, 65, 122) for i in range(3)]
        for k, n in zip(kids, names):
            k["alias" if legacy else "nickname"] = n if legacy else b64(n)

    rename("first")
    dev, s = sim.iot_device(d, IotStrip) if legacy else sim.smart_device(d)

    async def go():
        await dev.update()
        if c.bool("renamed"):
            rename("then")
            await dev.update()
        how = c.choice("how", ["id", "name", "plug name", "index"])
        ch = dev.children
        c.check(len(ch) == 3, "the children are the ones listed")
        if how == "id":
            i = c.pick("which", 3)
            k = ch[i].device_id
            c.check(dev.get_child_device(k) is ch[i], "a child is found by its id", lambda: k)
            want = f"{dev.mac}_{kids[i]['id']}" if legacy else kids[i]["device_id"]
            c.check(k == want, "children are in the order listed", lambda: (k, want))
            c.reach("by-id")
        elif how == "name":
            q = c.str("query", 2, 65, 122)
            o = c.attempt(dev.get_child_device, q)
            hits = [sym_eq(n.lower(), q.lower()) for n in names]
            c.check(o.ok, "looking for a child never fails", lambda: repr(o))
            if Or(*hits):
                c.check(o.value is not None and Or(*[And(h, o.value is x) for h, x in zip(hits, ch)]), "a child is found by its name in any case", lambda: (q, names, o.value))
                c.reach("by-name")
            else:
                c.check(o.value is None, "no child is found by a name none has", lambda: (q, names, o.value))
                c.reach("not-found")
        elif how == "plug name":
            q = c.str("query", 2, 65, 122)
            o = c.attempt(dev.get_plug_by_name, q)
            hits = [sym_eq(n, q) for n in names]
            if Or(*hits):
                c.check(o.ok and Or(*[And(h, o.value is x) for h, x in zip(hits, ch)]), "a socket is found by its name", lambda: (q, names, repr(o)))
            else:
                c.check(o.raised(KasaException), "no socket is found by a name none has", lambda: (q, names, repr(o)))
        else:
            i = c.int("index", -(2**31), 2**31)
            o = c.attempt(dev.get_plug_by_index, i)
            if And(i >= 0, i <= 2):
                c.check(o.ok and Or(*[And(sym_eq(i, j), o.value is ch[j]) for j in range(3)]), "a socket is found by its position", lambda: (i, repr(o)))
                c.reach("by-index")
            else:
                c.check(o.raised(KasaException), "there is no socket at another position", lambda: (i, repr(o)))
                c.reach("no-index")

    c.run(go())


def scenarios(tier):
    out = [(f"iot-{k}", iot, {"kind": k}) for k in IOT]
    out += [(f"smart-{k}", smart, {"name": k}) for k in SMART_KIND]
    out += [("camera", camera, {"hub": False}), ("camera-hub", camera, {"hub": True}), ("kind", kind, {})]
    out += [("lookup-legacy", lookup, {"legacy": True}), ("lookup", lookup, {"legacy": False})]
    return out
