"""Devices that remember what they are told (environment, not code under test)."""

from __future__ import annotations

from engine.hook import freeze


def merge(dst, src):
    for k, v in (src or {}).items():
        if isinstance(v, dict) and isinstance(dst.get(k), dict):
            merge(dst[k], v)
        else:
            dst[k] = v


GETTER = {
    "set_led_info": "get_led_info",
    "set_auto_update_info": "get_auto_update_info",
    "set_auto_off_config": "get_auto_off_config",
    "set_protection_power": "get_protection_power",
    "set_alarm_configure": "get_alarm_configure",
    "set_on_off_gradually_info": "get_on_off_gradually_info",
    "set_lighting_effect": "get_lighting_effect",
    "setCleanAttr": "getCleanAttr",
    "setCarpetClean": "getCarpetClean",
    "setDustCollectionInfo": "getDustCollectionInfo",
    "setVolume": "getVolume",
    "setChildLockInfo": "getChildLockInfo",
    "set_preset_rules": "get_preset_rules",
    "set_device_usage": None,
}


def smart(sim):
    """SmartSim whose setters change what its getters answer."""

    def info(target):
        d = sim.d if target is None else sim.children.setdefault(target, {})
        out = [d.setdefault("get_device_info", {})]
        if target is not None:
            for e in sim.d.get("get_child_device_list", {}).get("child_device_list", []):
                if e.get("device_id") == target:
                    out.append(e)
        return out

    def on(target, method, params):
        if method.startswith(("get", "component_nego")):
            return None
        params = freeze(params)
        d = sim.d if target is None else sim.children.setdefault(target, {})
        if method in ("set_device_info", "set_inherit_info"):
            for i in info(target):
                merge(i, params)
        elif method == "set_child_protection":
            for i in info(target):
                i["child_protection"] = params["enable"]
        elif method == "set_temperature_unit":
            for i in info(target):
                i["temp_unit"] = params["temp_unit"]
        elif method == "set_dynamic_light_effect_rule_enable":
            r = d["get_dynamic_light_effect_rules"]
            r["enable"] = params["enable"]
            if params["enable"]:
                r["current_rule_id"] = params["id"]
            else:
                r.pop("current_rule_id", None)
            for i in info(target):
                i["dynamic_light_effect_enable"] = params["enable"]
                if params["enable"]:
                    i["dynamic_light_effect_id"] = params["id"]
                else:
                    i.pop("dynamic_light_effect_id", None)
        elif method == "edit_dynamic_light_effect_rule":
            (rule,) = [r for r in d["get_dynamic_light_effect_rules"]["rule_list"] if r["id"] == params["id"]]
            rule.update(params)
        elif method == "set_lighting_effect":
            d.setdefault("get_lighting_effect", {})
            merge(d["get_lighting_effect"], params)
            for i in info(target):
                merge(i.setdefault("lighting_effect", {}), {k: v for k, v in params.items() if k in ("enable", "name", "id", "custom", "brightness", "display_colors")})
        elif method == "edit_preset_rules":
            merge(d["get_preset_rules"]["states"][params["index"]], params["state"])
        elif method == "set_preset_rules" and "preset_state" in info(target)[-1]:
            for i in info(target):
                i["preset_state"] = [{"brightness": b} for b in params["brightness"]]
        elif method == "set_on_off_gradually_info" and "fade_on_time" in info(target)[0]:
            for i in info(target):
                for k in ("on", "off"):
                    st = params.get(f"{k}_state")
                    if st:
                        i[f"gradually_{k}_mode"] = 1 if st["enable"] else 0
                        i[f"fade_{k}_time"] = st["duration"]
        elif GETTER.get(method):
            from sim import MISSING_GETTERS
            import copy

            g = GETTER[method]
            if g not in d or not isinstance(d[g], dict):
                d[g] = copy.deepcopy(MISSING_GETTERS.get(g, {}))
            merge(d[g], params)
        return {"error_code": 0, "result": {}}

    sim.on = on
    return sim


def cam(sim):
    def on(target, method, params):
        if not method.startswith("set"):
            return None
        d = sim.d if target is None else sim.children.setdefault(target, {})
        params = freeze(params)
        g = "get" + method[3:]
        if method == "setSirenConfig":
            s = params["siren"]
            for k, v in s.items():
                d[g][k] = v
        elif method == "setSirenStatus":
            d[g]["status"] = params["siren"]["status"]
        elif isinstance(d.get(g), dict):
            merge(d[g], params)
        return {"error_code": 0, "result": {}}

    sim.on = on
    return sim


def iot(sim):
    """IotSim: relay, lights, dimmer and sensors remember."""

    def on(ctxt, mod, cmd, args):
        if cmd.startswith("get"):
            return None
        args = freeze(args) or {}
        si = sim.d["system"]["get_sysinfo"]
        if cmd == "transition_light_state" or cmd == "set_light_state":
            ls = si["light_state"]
            ls.pop("err_code", None)
            st = {k: v for k, v in args.items() if k in ("hue", "saturation", "color_temp", "brightness", "mode")}
            dft = ls.pop("dft_on_state", None)
            if dft is not None:
                ls.update(dft)
            ls.update(st)
            ls["on_off"] = args.get("on_off", ls.get("on_off", 1))
            if not ls["on_off"]:
                keep = {k: ls.pop(k) for k in ("hue", "saturation", "color_temp", "brightness", "mode") if k in ls}
                ls["dft_on_state"] = keep
            return {"err_code": 0, **ls}
        targets = [si]
        if ctxt:
            targets = [p for p in si["children"] if p["id"] in ctxt]
        if cmd == "set_relay_state":
            for t in targets:
                if ctxt:
                    t["state"] = args["state"]
                else:
                    t["relay_state"] = args["state"]
                    for p in si.get("children", []):
                        p["state"] = args["state"]
        elif cmd == "set_led_off":
            si["led_off"] = args["off"]
        elif cmd == "set_dev_alias":
            for t in targets:
                t["alias"] = args["alias"]
        elif mod == "smartlife.iot.dimmer":
            par = sim.d.get(mod, {}).get("get_dimmer_parameters", {})
            if cmd == "set_brightness":
                si["brightness"] = args["brightness"]
            elif cmd == "set_switch_state":
                si["relay_state"] = args["state"]
            elif cmd == "set_dimmer_transition":
                # a brightness of 0 turns the dimmer off and is not stored
                if args["brightness"] == 0:
                    si["relay_state"] = 0
                else:
                    si["brightness"] = args["brightness"]
                    si["relay_state"] = 1
            elif cmd == "calibrate_brightness":
                par["minThreshold"] = args["minThreshold"]
            elif cmd in ("set_fade_on_time", "set_fade_off_time"):
                par["fadeOnTime" if "on" in cmd[8:] and "off" not in cmd else "fadeOffTime"] = args["fadeTime"]
            elif cmd in ("set_gentle_on_time", "set_gentle_off_time"):
                par["gentleOnTime" if "off" not in cmd else "gentleOffTime"] = args["duration"]
            elif cmd == "set_button_ramp_rate":
                par["rampRate"] = args["rampRate"]
        elif mod == "smartlife.iot.PIR":
            cfg = sim.d[mod]["get_config"]
            if cmd == "set_enable":
                cfg["enable"] = args["enable"]
            elif cmd == "set_trigger_sens":
                cfg["trigger_index"] = args["index"]
                if "value" in args:
                    cfg["array"][3] = args["value"]
        elif mod == "smartlife.iot.LAS":
            if cmd == "set_enable":
                sim.d[mod]["get_config"]["devs"][0]["enable"] = args["enable"]
        elif cmd == "set_lighting_effect":
            si["lighting_effect_state"] = {k: args.get(k) for k in ("brightness", "custom", "enable", "id", "name")}
            sim.d.setdefault(mod, {})["get_lighting_effect"] = args
        elif cmd == "set_preferred_state":
            (entry,) = [e for e in si["preferred_state"] if e["index"] == args["index"]]
            merge(entry, args)
        return {"err_code": 0}

    sim.on = on
    return sim
