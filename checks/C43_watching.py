"""C43: watching changes nothing. With logging on, down to debug messages, every operation does what it does with logging
off, and every message can be written.

Scenarios of the other checks are run again with the package's logging on and a handler that writes each message."""

import importlib
import logging
import os
import re

import C19_features as feats
import C41_looking as looking
import C42_asking as asking
import sim
import statesim
import sym
from engine.ctx import acatch, sym_eq

BOUNDS = "scenarios of 38 other checks (82 in the quick tier, all in the thorough one) run again, within their bounds, with every logger of the package at debug level; 12 kinds of devices with any of 14 oddities in what they report, followed, read and told something, and searches finding 15 kinds of devices, with logging (masked or not) and without"
OUTSIDE = "what the messages say (sensitive values: C15); handlers other than one writing each message at once; levels other than debug"
WITNESSES = ["written", "odd", "found"]
QUICK_S, THOROUGH_S = 300, 800

# check module -> its scenarios taken in the quick tier (those that together write most kinds of messages); thorough takes all
SITES = os.environ.get("VERIF_LOG_SITES")
TAKEN = {
    "C02_xor_connection": ["history-connect-exc"],
    "C03_retry": ["iot-budget0", "smart-budget0"],
    "C04_query_exclusion": ["smart-first1", "smart-first2"],
    "C05_batching": ["cam-n2-size2"],
    "C06_pagination": ["cam-nobatch-n1"],
    "C07_error_codes": ["single-cam-str", "single-smart"],
    "C08_child_routing": ["envelope-smart-2", "envelope-smart-3"],
    "C09_klap_handshake": ["v1-creds-seed0-proof", "v1-none-seed0-status2"],
    "C10_klap_session": ["v1-first4"],
    "C11_aes_session": ["login-creds-v1-encrypted", "login-creds-v2-handshake"],
    "C12_camera_session": ["first-creds-empty-None-default-ok", "first-creds-empty-None-same", "first-creds-nonce-['3']-same", "history-plain", "proof-hash-86"],
    "C13_https_transports": ["linkie-lost", "linkie-valid", "login-creds-none", "login-hash-second"],
    "C14_http_client": ["seq-connecttimeout", "seq-oserror"],
    "C16_device_config": ["json", "roundtrip-values"],
    "C17_device_selection": ["connect-xorbulb", "family"],
    "C18_discovery": ["api-single", "legacy-shape", "legacy-type"],
    "C19_features": ["H200-alarm_volume"],
    "C20_light_commands": ["type-KS240-saturation", "type-KS240-value"],
    "C21_module_updates": ["info-cam-dead", "many-cam"],
    "C22_children": ["creation", "history-cam-components", "history-cam-kind", "history-smart-id", "history-smart-kind", "pairing-cam", "pairing-smart"],
    "C23_legacy_update": ["lacking-HS220"],
    "C24_strips": ["power-HS300", "sums-monthly"],
    "C25_energy": ["smart-v2"],
    "C26_time": ["no-on-time", "zones-iot"],
    "C27_presets": ["name-KL125", "set-KL430v1"],
    "C28_effects": ["brightness-L920", "bulb-others"],
    "C29_independence": ["HS3002-0"],
    "C30_commands": ["switch-KL130", "switch-KL430"],
    "C31_firmware": ["check", "update"],
    "C32_vacuum": ["clean"],
    "C33_try_all": ["search"],
    "C34_accounts": ["join-iot", "scan-iot", "scan-smart", "stream"],
    "C36_dumped_info": ["saved", "smart"],
    "C37_readings": ["camera", "sensor-T110"],
    "C38_identity": ["smart-L900", "smart-RV20"],
    "C39_old_names": ["read-KE100", "write-KE100"],
    "C40_what_is_offered": ["only-dimmer", "without-RV20"],
    "C41_looking": ["passive-KE100", "passive-KL120", "passive-KL430"],
    "C42_asking": ["encrypted", "found-all-20002"],
}


class Writer(logging.Handler):
    """Writes every record as a handler of the logging module does, symbolic values by a text of the same kind."""

    def __init__(self):
        super().__init__(logging.DEBUG)
        self.n, self.bad, self.sites = 0, [], []

    def emit(self, r):
        self.n += 1
        self.sites.append(f"{r.pathname.rsplit('/kasa/', 1)[-1]}:{r.lineno}")
        try:
            args = r.args
            if isinstance(args, dict):
                args = {k: plain(v) for k, v in args.items()}
            elif args:
                args = tuple(plain(v) for v in args)
            msg = r.msg
            if not args and isinstance(msg, str) and re.search(r"%[srd]", msg):
                self.bad.append(f"{r.pathname.rsplit('/kasa/', 1)[-1]}:{r.lineno} {msg!r}: nothing is given for its placeholders")
            if isinstance(msg, str):
                msg % args if args else msg
            else:
                str(msg)
        except Exception as ex:
            self.bad.append(f"{r.pathname.rsplit('/kasa/', 1)[-1]}:{r.lineno} {r.msg!r}: {type(ex).__name__}: {ex}")


def plain(v):
    if isinstance(v, sym.SymReal):
        return 0.0
    if isinstance(v, sym.SymInt):
        return 0
    if isinstance(v, sym.SymBool):
        return False
    return v


class watched:
    """Logging on, for the duration of a scenario."""

    def __enter__(self):
        self.h = Writer()
        self.lg = logging.getLogger("kasa")
        self.old = (self.lg.level, self.lg.propagate, logging.root.manager.disable)
        logging.disable(logging.NOTSET)
        self.lg.setLevel(logging.DEBUG)
        self.lg.propagate = False
        self.lg.addHandler(self.h)
        return self.h

    def __exit__(self, *a):
        self.lg.removeHandler(self.h)
        self.lg.setLevel(self.old[0])
        self.lg.propagate = self.old[1]
        logging.disable(self.old[2])


def again(c, func, kw, name=None):
    """A scenario of another check with logging on: the same assertions hold, and every message can be written."""
    import time
    t0 = time.time()
    try:
        with watched() as h:
            func(c, **kw)
    finally:
        if SITES:
            with open(SITES, "a") as f:
                f.writelines(f"{name} {time.time() - t0:.2f} {s}\n" for s in [*sorted(set(h.sites)), "end"])
    c.check(not h.bad, "every message can be written", lambda: "; ".join(h.bad)[:600])
    if h.n:
        c.reach("written")


def _info(d):
    return d["get_device_info"]


def _l530_range(d, c):
    _info(d).pop("color_temp_range", None)


def _presets(d, c):
    d["get_preset_rules"]["states"].append({"odd": c.int("odd", 0, 3)})


def _vacuum(d, c):
    d["getVacStatus"]["err_status"] = c.choice("errors", [[], [0], [1, 999], [999], [3, 2]])
    d["getVacStatus"]["status"] = c.choice("status", [0, 4, 77, 100])


def _states(d, c):
    _info(d)["trv_states"] = c.choice("states", [["heating", "shutdown"], ["odd"], ["odd", "low_battery"], ["odd", "heating"], []])


def _devs(d, c):
    x = d["smartlife.iot.LAS"]["get_config"]["devs"]
    x.extend(x[:1] * c.pick("more", 3))


def _adc(d, c):
    if c.bool("adc"):
        d["smartlife.iot.PIR"].pop("get_adc_value", None)
    if c.bool("enable"):
        d["smartlife.iot.PIR"]["get_config"].pop("enable", None)


def _model(d, c):
    d["system"]["get_sysinfo"]["model"] = c.choice("model", ["XX99(US)", "KL130(US)", "LB1000(EU)"])


def _location(d, c):
    si = d["system"]["get_sysinfo"]
    for k in ("latitude", "longitude", "latitude_i", "longitude_i"):
        si.pop(k, None)
    if c.bool("known"):
        si["latitude_i"], si["longitude_i"] = c.int("lat", -900000, 900000), 0


def _zone(d, c):
    d.setdefault("time", {"get_time": {"year": 2024, "month": 1, "mday": 2, "hour": 3, "min": 4, "sec": 5}})
    d["time"]["get_timezone"] = {"index": c.choice("zone", [39, 0, 109, 110, 500]), "err_code": 0}


def _rules(d, c):
    d["schedule"] = {"get_rules": {"rule_list": c.choice("rules", [[], [{"id": "1"}], [{"odd": 1}]]), "err_code": c.choice("code", [0, -1])}}


def _type(d, c):
    _info(d)["type"] = c.choice("type", ["SMART.ODD", "SMART.TAPOBULB", ""])


def _nothing(d, c):
    pass


ODD = {
    "L530E-range": _l530_range, "L530E-presets": _presets, "L530E-type": _type, "RV20-vacuum": _vacuum, "KE100-states": _states,
    "ES20M-devs": _devs, "ES20M-adc": _adc, "KL130-model": _model, "HS110v1-location": _location, "HS110v4-zone": _zone, "HS220-rules": _rules,
    "C210": _nothing, "H100": _nothing, "HS300": _nothing, "KS225": _nothing,
}  # fmt: skip


def odd(c, kind):
    """A device with something odd about it: what is seen of it, and what it is told, is the same with logging and without."""
    import C39_old_names as names

    name = kind.split("-")[0]
    d = sim.data(name)
    ODD[kind](d, c)
    (a, sa), (b, sb) = names.make(name, d), names.make(name, d)

    def silent(dev):
        """What a device does not know is not mentioned in its answers."""
        real = dev.protocol._transport.send

        async def send(request):
            r = await real(request)
            for cmds in r.values():
                for k in [k for k, v in cmds.items() if isinstance(v, dict) and v.get("err_code") == -2]:
                    del cmds[k]
            return r

        dev.protocol._transport.send = send

    async def go(dev, s):
        out = {}
        if kind == "ES20M-adc":
            silent(dev)
        for i in range(2):
            o = await acatch(dev.update())
            out["update", i] = o.ok if o.ok else type(o.exc).__name__
            out.update({(i, k): v for k, v in looking.look(c, dev).items()})
            out["features", i] = [repr(f) if k not in looking.CLOCK else k for k, f in sorted(dev.features.items())]
        o = await acatch(dev.set_alias("A name"))
        out["alias"] = o.ok if o.ok else type(o.exc).__name__
        return out, s.log

    with watched() as h:
        x, told = c.run(go(a, sa))
    y, quiet = c.run(go(b, sb))
    c.check(not h.bad, "every message can be written", lambda: "; ".join(h.bad)[:600])
    looking.same(c, x, y, "logging changes nothing", kind)
    c.check(len(told) == len(quiet) and all(sym_eq(p, q) for p, q in zip(told, quiet)), "logging changes nothing that is sent", lambda: (kind, told, quiet))
    c.reach("odd")
    if SITES:
        with open(SITES, "a") as f:
            f.writelines(f"C43-{kind} 0 {x}\n" for x in [*sorted(set(h.sites)), "end"])


def found(c, port):
    """What a search finds is the same with logging and without, and whether or not what is logged is masked."""
    import asyncio
    import copy
    import json

    from kasa import Discover

    if port == 9999:
        info = copy.deepcopy(asking.SYSINFO)
        si = info["system"]["get_sysinfo"]
        si.update(mac="50:C7:BF:12:34:56", deviceId="8006ABCDEF0123456789", alias="My plug", latitude_i=519_000, longitude_i=42_000)
        si["type"] = c.choice("type", ["IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "IOT.ODD"])
        if c.bool("children"):
            si["children"] = [{"id": "8006ABCDEF012345678901", "alias": "Socket", "state": 1}]
        data = asking.legacy_answer(info)
    else:
        info = asking.new_info(device_type=c.choice("type", ["SMART.TAPOPLUG", "SMART.KASAHUB", "IOT.SMARTPLUGSWITCH", "SMART.ODD"]))
        info["result"]["mgt_encrypt_schm"]["encrypt_type"] = c.choice("encryption", ["AES", "KLAP", "ODD"])
        info["result"].update(mac="50-C7-BF-12-34-56", device_id="8006ABCDEF0123456789", owner="1234567890")
        if c.bool("odd"):
            del info["result"][c.choice("lacks", ["ip", "mac", "device_model"])]
        data = b"\x02" + bytes(15) + json.dumps(info).encode()
    masked = bool(c.bool("masked"))
    if hasattr(Discover, "_redact_data"):
        c.patch(Discover, "_redact_data", masked)

    def search():
        wire, out = asking.Wire(), {}
        endpoint = asking.prepare(c, wire, [(0.5, data, (asking.HOST, port))])
        raw, odd = [], []

        async def go():
            asyncio.get_running_loop().create_datagram_endpoint = endpoint

            async def un(ex):
                odd.append((ex.host, ex.discovery_result, str(ex)))

            return await Discover.discover(on_discovered_raw=raw.append, on_unsupported=un)

        o = c.attempt(go())
        out["outcome"] = o.ok if o.ok else type(o.exc).__name__
        out["raw"], out["odd"], out["sent"] = raw, odd, len(wire.sent)
        for host, dev in (o.value if o.ok else {}).items():
            out[host, "config"] = dev.config.to_dict()
            out[host, "type"] = type(dev).__name__
            out.update({(host, k): v for k, v in looking.look(c, dev).items()})
            if port == 9999:
                c.check(dev.mac == "50:C7:BF:12:34:56" and dev.alias == "My plug", "what is found is not masked", lambda: (dev.mac, dev.alias))
        return out

    with watched() as h:
        x = search()
    y = search()
    c.check(not h.bad, "every message can be written", lambda: "; ".join(h.bad)[:600])
    looking.same(c, x, y, "logging changes nothing", port)
    c.reach("found")


def scenarios(tier):
    out = [(f"odd-{k}", odd, {"kind": k}) for k in ODD] + [(f"found-{p}", found, {"port": p}) for p in (9999, 20002)]
    for m, taken in TAKEN.items():
        mod = importlib.import_module(m)
        for s in mod.scenarios("quick"):
            name, func, kw = (*s, {})[:3]
            if tier != "quick" or name in taken:
                out.append((f"{m[:3]}-{name}", again, {"func": func, "kw": kw, "name": f"{m[:3]}-{name}"}))
    return out
