"""Names, networks, accounts and streams: texts reach the device and come back exactly as given."""

from __future__ import annotations

import base64
from urllib.parse import unquote

import sim
import statesim
from engine.ctx import And, Implies, Not, Or, acatch, sym_eq
from engine.hook import H, untoken

BOUNDS = (
    "names, network names, passwords and accounts of any printable ASCII text of up to 3 (thorough: 6) characters or of 2 (4) characters from U+00A0 to U+00FF, and some longer and others; plugs, strips, hubs, cameras and their children; joining a network with every outcome (accepted, refused, no answer of three kinds); "
    "networks found with any subset of the optional details; stream addresses for any such account, given, configured or stored as hash; camera movements by any integers"
)
OUTSIDE = "whether the device can join the network; text that is not UTF-8"
WITNESSES = ["named", "child-named", "joined", "no-answer", "join-refused", "no-account", "fallback", "both-failed", "scanned", "account", "reboot", "reset", "stream", "no-stream", "hash", "child-stream", "moved"]
QUICK_S, THOROUGH_S = 200, 800

EXTRA = ["Küche ☕", "0123456789abcdef0123456789abcdef", "a b+c/d@e:f%20"]


def b64(t):
    t = H[base64.b64decode](base64.b64decode, t)
    return t.decode()


def text(c, name, low=0):
    n = 6 if c.deep else 3
    k = c.pick(f"{name} kind", 4)
    if k == 0:
        return c.str(name, n)
    if k == 3:
        # any text of accented and other letters up to U+00FF
        return c.str(name, 4 if c.deep else 2, 0xA0, 0xFF)
    if k == 1:
        return c.choice(f"{name} text", EXTRA)
    return c.str(name, low)


def same(a, b):
    a, b = (x if not isinstance(x, str) or (u := untoken(x)) is None else u for x in (a, b))
    return sym_eq(a, b)


def alias(c, kind):
    """The name of a device."""
    import kasa.iot as iot

    name = {"smart": "P110M", "smart-strip": "P300", "hub": "H100", "camera": "C210", "iot": "HS110v4", "iot-strip": "HS300", "iot-bulb": "KL130"}[kind]
    d = sim.data(name)
    if kind.startswith("iot"):
        dev, s = sim.iot_device(d, {"iot": iot.IotPlug, "iot-strip": iot.IotStrip, "iot-bulb": iot.IotBulb}[kind])
        statesim.iot(s)
    elif kind == "camera":
        dev, s = sim.cam_device(d)

        def on(target, method, params):
            if method == "setDeviceAlias":
                d["getDeviceInfo"]["device_info"]["basic_info"]["device_alias"] = params["system"]["sys"]["dev_alias"]
                return {"error_code": 0, "result": {}}
            return None

        s.on = on
    else:
        dev, s = sim.smart_device(d)
        statesim.smart(s)

    async def go():
        await dev.update()
        devs = [dev, *dev.children]
        before = [x.alias for x in devs]
        i = c.pick("which", min(len(devs), 3))
        t = text(c, "name")
        s.clear()
        o = await acatch(devs[i].set_alias(t))
        c.check(o.ok, "a name is set", lambda: repr(o))
        await dev.update()
        for j, x in enumerate([dev, *dev.children]):
            want = t if i == j else before[j]
            c.check(x.alias == want or (want == "" and x.alias is None) if isinstance(want, str) and type(want) is str else same(x.alias, want), "the device has the name given, others keep theirs", lambda: (i, j, t, x.alias, want))
        c.reach("child-named" if i else "named")

    c.run(go())


def join(c, legacy):
    from kasa import AuthenticationError, Credentials, DeviceError, KasaException
    from kasa.exceptions import TimeoutError as KTimeout
    from kasa.exceptions import _ConnectionError
    from kasa.iot import IotBulb, IotPlug

    ssid, pw = text(c, "ssid", 1), text(c, "password")
    faults = {"timeout": KTimeout, "connection": _ConnectionError, "kasa": KasaException}
    if legacy:
        bulb = bool(c.bool("bulb"))
        d = sim.data("KL130" if bulb else "HS100")
        dev, s = sim.iot_device(d, IotBulb if bulb else IotPlug)
        key = c.choice("key", ["0", "1", "2", "3", 3])
        outcome = {m: c.choice(m, ["ok", "refused"]) for m in ("netif", "smartlife.iot.common.softaponboarding")}

        def on(ctxt, mod, cmd, args):
            if cmd == "set_stainfo":
                return {"err_code": 0} if outcome[mod] == "ok" else {"err_code": -1, "err_msg": "module not support"}
            return None

        s.on = on

        async def go():
            await dev.update()
            s.clear()
            o = await acatch(dev.wifi_join(ssid, pw, key))
            sent = s.sets()
            want = {"ssid": ssid, "password": pw, "key_type": int(key)}
            tried = ["netif"] if outcome["netif"] == "ok" else list(outcome)
            c.check([x[1] for x in sent] == tried, "the second way is tried only after the first", lambda: sent)
            for x in sent:
                c.check(sym_eq(x[3], want), "the network is the one given", lambda: sent)
            good = outcome[tried[-1]] == "ok"
            c.check(o.ok is good and (good or o.raised(KasaException)), "joining fails only if both ways do", lambda: repr(o))
            c.reach("joined" if good and len(tried) == 1 else "fallback" if good else "both-failed")

        return c.run(go())

    d = sim.data("P110M")
    creds = None
    kind = c.choice("account", ["none", "given"])
    if kind == "given":
        creds = Credentials(c.str("user", 2), c.str("account password", 2))
    out = c.choice("outcome", ["ok", "refused", "timeout", "connection", "kasa"])
    dev, s = sim.smart_device(d)
    dev.protocol._transport._credentials = creds
    posts = []

    def on(target, method, params):
        if method == "set_qs_info":
            posts.append(params)
            if out in faults:
                raise faults[out]("gone")
            return {"error_code": 0 if out == "ok" else -1002}
        return None

    s.on = on

    async def go():
        await dev.update()
        s.clear()
        key = c.choice("key", ["wpa2_psk", "none", None])
        o = await acatch(dev.wifi_join(ssid, pw, key) if key else dev.wifi_join(ssid, pw))
        if creds is None:
            c.check(o.raised(AuthenticationError) and not posts, "without an account nothing is sent", lambda: (repr(o), posts))
            c.reach("no-account")
            return
        c.check(len(posts) == 1, "the network is sent once", lambda: posts)
        p = posts[0]
        w, a = p["wireless"], p["account"]
        c.check(And(same(b64(w["ssid"]), ssid), same(b64(w["password"]), pw), w["key_type"] == (key or "wpa2_psk")), "the network is the one given", lambda: p)
        c.check(And(same(b64(a["username"]), creds.username), same(b64(a["password"]), creds.password)), "the account is the one configured", lambda: p)
        c.check(sym_eq(p["time"], d["get_device_time"]), "the time is the one of the device", lambda: p)
        if out == "refused":
            c.check(o.raised(DeviceError), "an error of the device is reported", lambda: repr(o))
            c.reach("join-refused")
        else:
            c.check(o.ok, "a device that leaves without an answer is fine", lambda: repr(o))
            c.reach("joined" if out == "ok" else "no-answer")

    c.run(go())


def scan(c, kind):
    from kasa import KasaException
    from kasa.iot import IotPlug

    n = c.pick("networks", 3)
    nets = []
    for i in range(n):
        if kind == "iot":
            x = {"ssid": c.str(f"ssid{i}", 2), "key_type": c.int("key", 0, 3)}
            opt = {"cipher_type": c.int("cipher", 0, 5), "bssid": "00:00:00:00:00:01", "channel": c.int("ch", 1, 14), "rssi": c.int("rssi", -100, 0)}
        else:
            x = {"ssid": None, "name": c.str(f"ssid{i}", 2), "key_type": c.choice("key", ["wpa2_psk", "none"]), "signal_level": c.int("level", 0, 4)}
            opt = {"cipher_type": c.choice("cipher", [1, 2]), "bssid": "00", "channel": c.int("ch", 0, 14)}
            x["ssid"] = H[base64.b64encode](base64.b64encode, x.pop("name").encode()).decode()
        if i == 0 or kind == "iot":
            for k, v in opt.items():
                if c.bool(f"with {k}"):
                    x[k] = v
        nets.append(x)
    first = None
    if kind == "iot":
        dev, s = sim.iot_device(sim.data("HS100"), IotPlug)
        first = c.choice("netif", ["ok", "refused", "empty"])
        second = c.choice("softap", ["ok", "refused"])

        def on(ctxt, mod, cmd, args):
            if cmd != "get_scaninfo":
                return None
            out = first if mod == "netif" else second
            return {"ok": {"err_code": 0, "ap_list": nets}, "refused": {"err_code": -1, "err_msg": "no"}, "empty": {"err_code": 0}}[out]

        s.on = on
    else:
        d = sim.data("P110M" if kind == "smart" else "RV20")
        d["get_wireless_scan_info"] = {"ap_list": nets, "start_index": 0, "sum": n, "wep_supported": True}
        dev, s = sim.smart_device(d)

    async def go():
        await dev.update()
        s.clear()
        o = await acatch(dev.wifi_scan())
        c.check(not s.sets(), "looking for networks changes nothing", lambda: s.sets())
        if first and (first == "empty" or (first == "refused" and second == "refused")):
            c.check(o.raised(KasaException), "without a list of networks the search fails", lambda: repr(o))
            return
        c.check(o.ok and len(o.value) == n, "every network is listed", lambda: (repr(o), nets))
        if not o.ok:
            return
        for got, x in zip(o.value, nets):
            for k in ("key_type", "cipher_type", "bssid", "channel", "signal_level", "rssi"):
                c.check(sym_eq(getattr(got, k), x.get(k)), "networks have the details reported", lambda: (k, got, x))
            c.check(same(got.ssid, x["ssid"] if kind == "iot" else b64(x["ssid"])), "networks have the name reported", lambda: (got, x))
        c.reach("scanned")

    c.run(go())


def account(c):
    dev, s = sim.smart_device(d := sim.data("P110M"))
    from kasa.iot import IotPlug

    async def go():
        await dev.update()
        s.clear()
        cmd = c.choice("cmd", ["credentials", "reboot", "reset", "legacy reboot", "legacy reset", "legacy mac"])
        if cmd == "credentials":
            u, p = text(c, "user"), text(c, "password")
            await dev.update_credentials(u, p)
            c.check(len(s.sets()) == 1 and s.sets()[0][1] == "set_qs_info", "the account is sent once", lambda: s.sets())
            q = s.sets()[0][2]
            c.check(And(same(b64(q["account"]["username"]), u), same(b64(q["account"]["password"]), p)), "the account is the one given", lambda: q)
            c.check("wireless" not in q and sym_eq(q["time"], d["get_device_time"]), "nothing else is changed", lambda: q)
            c.reach("account")
            return
        delay = c.int("delay", 0, 10**6)
        if cmd == "reboot":
            await dev.reboot(delay)
            c.check(len(s.sets()) == 1 and s.sets()[0][1] == "device_reboot" and sym_eq(s.sets()[0][2], {"delay": delay}), "the device reboots as asked", lambda: s.sets())
            c.reach("reboot")
        elif cmd == "reset":
            await dev.factory_reset()
            c.check(len(s.sets()) == 1 and s.sets()[0][1] == "device_reset", "the device is reset", lambda: s.sets())
            c.reach("reset")
        else:
            old, z = sim.iot_device(sim.data("HS100"), IotPlug)
            await old.update()
            z.clear()
            if cmd == "legacy reboot":
                await old.reboot(delay)
                want = ("system", "reboot", {"delay": delay})
            elif cmd == "legacy mac":
                m = c.str("mac", 5)
                await old.set_mac(m)
                want = ("system", "set_mac_addr", {"mac": m})
            else:
                await old.factory_reset()
                want = ("system", "reset", {})
            c.check(len(z.sets()) == 1 and z.sets()[0][1:3] == want[:2] and sym_eq(z.sets()[0][3] or {}, want[2]), "the device does as asked", lambda: z.sets())

    c.run(go())


def parts(url, c):
    """(user, password, rest) of an address, as RFC 3986 takes it apart."""
    codes = type(url) is not str
    items = list(url.items) if codes else [ord(x) for x in url]
    pre = [ord(x) for x in "rtsp://"]
    if len(items) < 7 or not all(sym_eq(a, b) for a, b in zip(items, pre)):
        return None
    out, cur = [], []
    i = 7
    while i < len(items):
        x = items[i]
        if len(out) == 0 and x == 58:
            out.append(cur)
            cur = []
        elif len(out) == 1 and x == 64:
            out.append(cur)
            cur = []
        elif len(out) < 2 and x == 37:
            h = []
            for y in items[i + 1 : i + 3]:
                h.append(y - 48 if y <= 57 else y - 55 if y <= 70 else y - 87)
            cur.append(h[0] * 16 + h[1])
            i += 2
        elif len(out) < 2 and Or(*[x == ord(k) for k in "/?#[]@ "]):
            return None
        else:
            cur.append(x)
        i += 1
    return [*out, cur]


def codes(t):
    if type(t) is str:
        return list(t.encode())
    return list(t.items)


def stream(c):
    from kasa import Credentials, Module
    from kasa.smartcam.modules.camera import StreamResolution

    d = sim.data("C210")
    dev, s = sim.cam_device(d)

    async def go():
        await dev.update()
        mod = dev.modules[Module.Camera]
        n = 3 if c.deep else 2

        def acct(name):
            k = c.choice(name, ["any", "longer", "no user", "no password"])
            if k == "longer":
                return Credentials("user@example.com", "pass word+/:%20é")
            return Credentials(c.str(f"{name} user", 1 if k == "any" else 0), c.str(f"{name} password", n if k != "no password" else 0)) if k != "no password" else Credentials("u", "")

        src = c.choice("from", ["given", "config", "hash", "bad hash", "none"])
        given = None
        dev.config.credentials = dev.config.credentials_hash = None
        if src == "given":
            given = use = acct("account")
            if c.bool("also configured"):
                dev.config.credentials = Credentials("other", "other")
        elif src == "config":
            dev.config.credentials = use = acct("account")
        elif src == "hash":
            use = Credentials(c.choice("hu", ["a b", "user@example.com"]), c.choice("hp", ["x:y", "p/w +", "é"]))
            import json

            dev.config.credentials_hash = base64.b64encode(json.dumps({"un": use.username, "pwd": use.password}).encode()).decode()
        else:
            use = None
            if src == "bad hash":
                dev.config.credentials_hash = c.choice("hash", ["", "!", "bm90IGpzb24=", base64.b64encode(b'{"un": "a"}').decode()])
        res = c.choice("resolution", [None, StreamResolution.HD, StreamResolution.SD])
        s.clear()
        url = mod.stream_rtsp_url(given, stream_resolution=res) if res else mod.stream_rtsp_url(given)
        c.check(not s.log, "asking for the address sends nothing")
        c.check(mod.onvif_url() == "http://127.0.0.1:2020/onvif/device_service", "the camera is found at its address", lambda: mod.onvif_url())
        if src == "given" and given is not None and not (given.username and given.password) and dev.config.credentials:
            return  # incomplete credentials: either is fine
        if use is None or len(use.username) == 0 or len(use.password) == 0:
            c.check(url is None, "without an account there is no stream", lambda: url)
            c.reach("no-stream")
            return
        c.check(url is not None, "there is a stream", lambda: src)
        if url is None:
            return
        u = untoken(url) if type(url) is str else url
        p = parts(url if u is None else u, c)
        c.check(p is not None and len(p) == 3, "the address is well formed", lambda: url)
        if p is None or len(p) != 3:
            return
        c.check(And(sym_eq(p[0], codes(use.username)), sym_eq(p[1], codes(use.password))), "the address carries the account", lambda: (url, use))
        c.check(sym_eq(p[2], [ord(x) for x in "127.0.0.1:554/" + ("stream2" if res is StreamResolution.SD else "stream1")]), "the address is the one of the stream asked for", lambda: url)
        c.reach("hash" if src == "hash" else "stream")

    c.run(go())


def move(c):
    d = sim.data("C210")
    dev, s = sim.cam_device(d)

    async def go():
        await dev.update()
        mod = dev.modules["PanTilt"]
        ps, ts = c.int("pan step", -(2**31), 2**31), c.int("tilt step", -(2**31), 2**31)
        if c.bool("steps set"):
            o = await acatch(dev.features["pan_step"].set_value(ps))
            p = await acatch(dev.features["tilt_step"].set_value(ts))
            if not (o.ok and p.ok):
                return
        else:
            ps, ts = dev.features["pan_step"].value, dev.features["tilt_step"].value
        s.clear()
        cmd = c.choice("cmd", ["pan_left", "pan_right", "tilt_up", "tilt_down", "pan", "tilt", "move"])
        x, y = c.int("x", -(2**31), 2**31), c.int("y", -(2**31), 2**31)
        if cmd in dev.features:
            await dev.features[cmd].set_value(None)
            want = {"pan_left": (ps, 0), "pan_right": (0 - ps, 0), "tilt_up": (0, ts), "tilt_down": (0, 0 - ts)}[cmd]
        elif cmd == "move":
            await mod.move(pan=x, tilt=y)
            want = (x, y)
        else:
            await getattr(mod, cmd)(x)
            want = (x, 0) if cmd == "pan" else (0, x)
        c.check(len(s.log) == 1 and s.log[0][1] == "do", "one movement is asked for", lambda: s.log)
        m = s.log[0][2]["motor"]["move"]

        def val(t):
            u = untoken(t)
            return int(t) if u is None else u

        c.check(isinstance(m["x_coord"], str) and isinstance(m["y_coord"], str), "movements are sent as text", lambda: m)
        c.check(And(sym_eq(val(m["x_coord"]), want[0]), sym_eq(val(m["y_coord"]), want[1])), "the camera moves as asked", lambda: (m, want))
        c.reach("moved")

    c.run(go())


def child_stream(c):
    from kasa import Credentials, Module

    dev, s = sim.cam_device(sim.data("C210"))

    async def go():
        await dev.update()
        mod = dev.modules[Module.Camera]
        c.patch(type(dev), "_is_hub_child", True)
        c.check(mod.stream_rtsp_url(Credentials("a", "b")) is None and mod.onvif_url() is None, "cameras of a hub have no address of their own")
        c.reach("child-stream")

    c.run(go())


def scenarios(tier):
    return [
        *[(f"name-{k}", alias, {"kind": k}) for k in ("smart", "smart-strip", "hub", "camera", "iot", "iot-strip", "iot-bulb")],
        ("join-smart", join, {"legacy": False}),
        ("join-iot", join, {"legacy": True}),
        *[(f"scan-{k}", scan, {"kind": k}) for k in ("smart", "iot", "vacuum")],
        ("account", account, {}),
        ("stream", stream, {}),
        ("child-stream", child_stream, {}),
        ("move", move, {}),
    ]
