"""Hubs and strips: the children are the devices the parent lists, with their own data."""

from __future__ import annotations

import asyncio
import copy
import itertools

import sim
from engine.ctx import acatch, sym_eq

BOUNDS = (
    "a SMART hub, a camera hub and a strip with a pool of up to three children each (one of them without components, without an id, or of an unknown kind), two (quick) or three (thorough) updates, at each any "
    "subset listed in either order (the sockets and components of the strip in any), any rssi in +-1000, with or without updating children, and either list failing; pairing and unpairing any subset of two detected devices of which the hub accepts any subset, "
    "scanning for any whole number of seconds up to 100"
)
OUTSIDE = "lists longer than one page (C06); the same id listed twice; children that change their kind"
WITNESSES = ["added", "removed", "kept", "unsupported", "list-failed", "components-failed", "info", "no-child-update", "paired", "not-paired", "none-found", "unpaired", "init-failed"]
QUICK_S, THOROUGH_S = 240, 800

IDS = ["ID-A", "ID-B", "ID-C"]
ORDERS = list(itertools.permutations(IDS))


class Hub:
    def __init__(self, c, kind, odd):
        self.c, self.kind, self.odd = c, kind, odd
        self.pool = {}
        if kind == "smart":
            d = sim.data("H100")
            infos = d["get_child_device_list"]["child_device_list"]
            comps = {x["device_id"]: x for x in d["get_child_device_component_list"]["child_component_list"]}
            kids = d.get("child_devices", {})
            for i, src in ((0, 0), (1, 1), (2, 0)):
                self.add(IDS[i], infos[src], comps[infos[src]["device_id"]], kids.get(infos[src]["device_id"], {}))
            self.LIST, self.COMP = "get_child_device_list", "get_child_device_component_list"
            self.dev, self.s = sim.smart_device(d)
        elif kind == "strip":
            d = sim.data("P300")
            infos = d["get_child_device_list"]["child_device_list"]
            comps = {x["device_id"]: x for x in d["get_child_device_component_list"]["child_component_list"]}
            kids = d.get("child_devices", {})
            for i in range(3):
                x = infos[i]
                self.add(IDS[i], x, comps[x["device_id"]], kids.get(x["device_id"], {}))
            self.LIST, self.COMP = "get_child_device_list", "get_child_device_component_list"
            self.dev, self.s = sim.smart_device(d)
        else:
            d = sim.data("H200")
            info = d["getChildDeviceList"]["child_device_list"][0]
            comp = d["getChildDeviceComponentList"]["child_component_list"][0]
            h = sim.data("H100")
            sinfo = h["get_child_device_list"]["child_device_list"][1]
            scomp = [x for x in h["get_child_device_component_list"]["child_component_list"] if x["device_id"] == sinfo["device_id"]][0]
            cam = {k: v for k, v in sim.data("C210").items() if k.startswith("get")}
            self.add(IDS[0], info, comp, cam)
            self.add(IDS[1], sinfo, scomp, h.get("child_devices", {}).get(sinfo["device_id"], {}))
            self.add(IDS[2], info, comp, cam)
            self.LIST, self.COMP = "getChildDeviceList", "getChildDeviceComponentList"
            d.setdefault("getSupportChildDeviceCategory", {"device_category_list": [{"category": "ipcamera"}, {"category": "subg.trv"}]})
            self.dev, self.s = sim.cam_device(d)
        self.d = d
        self.s.children = {k: v[2] for k, v in self.pool.items()}
        self.fail = None
        self.listed = []
        self.comps = IDS
        self.rssi = {}
        if odd == "kind":
            self.pool[IDS[2]][0]["category"] = "subg.unheard.of"
        self.s.on = self.on

    def add(self, cid, info, comp, data):
        data = copy.deepcopy(data)
        if self.kind != "cam" or cid == IDS[1]:
            data.setdefault("get_connect_cloud_state", {"status": 0})
            if not isinstance(data["get_connect_cloud_state"], dict):
                data["get_connect_cloud_state"] = {"status": 0}
        self.pool[cid] = ({**copy.deepcopy(info), "device_id": cid}, {**copy.deepcopy(comp), "device_id": cid}, data)

    def on(self, target, method, params):
        if method == self.fail and (target is None or method == "get_connect_cloud_state"):
            return {"error_code": -1001}
        if target is not None:
            return None
        if method == self.LIST:
            lst = []
            for x in self.listed:
                e = {**self.pool[x][0], "rssi": self.rssi[x]}
                if x == IDS[2] and self.odd == "id":
                    del e["device_id"]
                lst.append(e)
            return {"result": {"child_device_list": lst, "start_index": 0, "sum": len(lst)}, "error_code": 0}
        if method == self.COMP:
            lst = [self.pool[x][1] for x in (self.comps if self.kind == "strip" else self.listed) if not (x == IDS[2] and self.odd == "components")]
            return {"result": {"child_component_list": lst, "start_index": 0, "sum": len(lst)}, "error_code": 0}
        return None

    def supported(self, x):
        if x != IDS[2] or self.odd is None:
            return True
        return self.odd == "kind" and self.kind == "smart"


def history(c, kind, odd, n, fault=None):
    h = Hub(c, kind, odd)
    seen: dict = {}
    bad = c.choice("bad", list(range(n))) if fault else None

    async def go():
        for i in range(n):
            present = [x for x in IDS if kind == "strip" or c.bool(f"{x}@{i}")]
            if kind == "strip":
                present = list(c.choice(f"order{i}", ORDERS))
                if not i:
                    h.comps = list(c.choice("components", ORDERS))
            elif len(present) > 1 and c.bool(f"swap{i}"):
                present.reverse()
            h.listed = present
            h.rssi = {x: c.int(f"r{x}@{i}", -1000, 1000) for x in present}
            h.fail = {"list": h.LIST, "components": h.COMP}.get(fault) if i == bad else None
            kids = bool(c.bool(f"kids{i}")) if kind != "strip" and fault is None else True
            h.s.clear()
            o = await acatch(h.dev.update(update_children=kids))
            c.check(o.ok, "an update succeeds", lambda: repr(o))
            if not o.ok:
                c.fail("stop")
                return
            now = {k.device_id: k for k in h.dev.children}
            c.check(len(h.dev.children) == len(now), "no child twice")
            if i == bad:
                c.check(now == seen, "children stay while they cannot be listed", lambda: (now, seen))
                c.reach("list-failed" if fault == "list" else "components-failed")
                return
            want = [x for x in present if h.supported(x)]
            c.check(set(now) == set(want), "the children are the supported devices listed", lambda: (list(now), want))
            if len(want) < len(present):
                c.reach("unsupported")
            for x in want:
                k = now.get(x)
                if k is None:
                    continue
                if x in seen:
                    c.check(k is seen[x], "a child that stays is the same object")
                    c.reach("kept")
                elif i:
                    c.reach("added")
                c.check(sym_eq(k.sys_info.get("rssi"), h.rssi[x]), "a child shows its own entry of the list", lambda: (x, k.sys_info.get("rssi"), h.rssi))
                c.check(k.parent is h.dev, "a child knows its parent")
                c.check(bool(k.modules) and bool(k.features), "a child is ready to use after the update", lambda: (x, list(k.modules)))
                c.reach("info")
            if set(seen) - set(now):
                c.reach("removed")
            asked = {t for t, _, _ in h.s.log if t is not None}
            c.check(asked <= set(want), "only listed children are asked", lambda: (asked, want))
            if not kids and set(seen) == set(now) and i:
                c.check(not asked, "children are not asked when not updated", lambda: asked)
                c.reach("no-child-update")
            for x in want:
                h.s.clear()
                o = await acatch(now[x].set_alias("Name")) if x in now else None
                c.check(o is not None and o.ok and [t for t, _, _ in h.s.log] == [x], "a command of a child goes to that child", lambda: (x, repr(o), h.s.log))
            seen.clear()
            seen.update(now)

    c.run(go())


def creation(c):
    """A child of a camera hub that cannot be asked while it is created."""
    h = Hub(c, "cam", None)
    how = c.choice("how", ["error", "transport"])
    first = bool(c.bool("first"))

    async def go():
        h.listed, h.rssi = ([], {}) if not first else ([IDS[0], IDS[1]], {IDS[0]: -10, IDS[1]: -20})
        if not first:
            await h.dev.update()
        h.listed, h.rssi = [IDS[0], IDS[1]], {IDS[0]: -10, IDS[1]: -20}
        if how == "error":
            h.fail = "get_connect_cloud_state"
        else:
            from kasa.exceptions import KasaException

            inner = h.s.on

            def on(target, method, params):
                if method == "get_connect_cloud_state":
                    raise KasaException("gone")
                return inner(target, method, params)

            h.s.on = on
        o = await acatch(h.dev.update())
        c.check(o.ok, "a child that does not answer does not fail the hub", lambda: repr(o))
        if o.ok:
            c.check({k.device_id for k in h.dev.children} == {IDS[0], IDS[1]}, "the children are the supported devices listed")
        c.reach("init-failed")

    c.run(go())


def pairing(c, kind):
    from kasa import Module

    h = Hub(c, kind, None)
    before = [x for x in (IDS[2],) if c.bool("before")]
    found = [x for x in IDS[:2] if c.bool(f"found{x}")]
    accepted = [x for x in found if c.bool(f"accepted{x}")]
    timeout = c.int("timeout", 0, 100)
    default = bool(c.bool("default"))
    h.listed, h.rssi = list(before), {x: -5 for x in IDS}
    inner = h.s.on
    seq = []
    loop = {}

    def on(target, method, params):
        t = asyncio.get_event_loop().time()
        if method in ("begin_scanning_child_device", "startScanChildDevice"):
            seq.append(("scan", t, None))
        if method in ("get_scan_child_device_list", "getScanChildDeviceList"):
            seq.append(("list", t, None))
            return {"error_code": 0, "result": {"child_device_list": [{"device_id": x, "device_model": f"M{x}", "category": h.pool[x][0]["category"]} for x in found]}}
        if method in ("add_child_device_list", "addScanChildDeviceList"):
            p = params if kind == "smart" else params["childControl"]
            seq.append(("add", t, [e["device_id"] for e in p["child_device_list"]]))
            h.listed = h.listed + accepted
        if method in ("remove_child_device_list", "removeChildDeviceList"):
            p = params if kind == "smart" else params["childControl"]
            seq.append(("remove", t, [e["device_id"] for e in p["child_device_list"]]))
            h.listed = [x for x in h.listed if x not in [e["device_id"] for e in p["child_device_list"]]]
        return inner(target, method, params)

    h.s.on = on

    async def go():
        await h.dev.update()
        cs = h.dev.modules[Module.ChildSetup]
        t0 = asyncio.get_event_loop().time()
        o = await acatch(cs.pair(timeout=timeout) if not default else cs.pair())
        c.check(o.ok, "pairing succeeds", lambda: repr(o))
        if not o.ok:
            return
        kinds = [x[0] for x in seq]
        c.check(kinds == (["scan", "list", "add"] if found else ["scan", "list"]), "pairing scans, waits, then adds what it found", lambda: kinds)
        if len(seq) > 1:
            c.check(sym_eq(seq[1][1] - seq[0][1], 10 if default else timeout), "the scan takes the time it is given", lambda: (seq, timeout))
        if found:
            c.check(seq[2][2] == found, "the devices found are added", lambda: seq)
        c.check([e["device_id"] for e in o.value] == accepted, "pairing returns the devices that were added", lambda: (o.value, accepted))
        c.reach("paired" if accepted else "not-paired" if found else "none-found")
        c.check({k.device_id for k in h.dev.children} == set(before + accepted), "paired devices are children", lambda: h.dev.children)
        kids = {k.device_id: k for k in h.dev.children}
        if not kids:
            return
        gone = c.choice("gone", sorted(kids))
        seq.clear()
        how = c.choice("how", ["module", "feature"])
        if how == "feature" and "unpair" in kids[gone].features:
            o = await acatch(kids[gone].features["unpair"].set_value(None))
        else:
            o = await acatch(cs.unpair(gone))
        c.check(o.ok and [(k, i) for k, _, i in seq] == [("remove", [gone])], "unpairing removes that device", lambda: (repr(o), seq))
        c.check({k.device_id for k in h.dev.children} == set(kids) - {gone}, "an unpaired device is no child any more")
        c.reach("unpaired")

    c.run(go())


def scenarios(tier):
    n = 2 if tier == "quick" else 3
    out = []
    for kind in ("smart", "cam"):
        for odd in (None, "components", "id", "kind"):
            out.append((f"history-{kind}-{odd}", history, {"kind": kind, "odd": odd, "n": n}))
        for fault in ("list", "components"):
            out.append((f"fault-{kind}-{fault}", history, {"kind": kind, "odd": None, "n": 2, "fault": fault}))
        out.append((f"pairing-{kind}", pairing, {"kind": kind}))
    out.append(("history-strip", history, {"kind": "strip", "odd": None, "n": 3}))
    out.append(("fault-strip", history, {"kind": "strip", "odd": None, "n": 2, "fault": "list"}))
    out.append(("creation", creation))
    return out
