"""C11: validating road networks.  spec/Validator.tla"""
from vlib import *
from values_common import seq

OPTS = ["dir", "inv", "hier", "groups", "zones", "pdr", "pbs", "rel"]
DX, DY = [1, 0, -1, 0], [0, 1, 0, -1]


def geometry(rng):
    """Rows of lanes, each laid end to end on the same line and drawn in either direction; consistent until faults come in."""
    rows, cols = rng.randrange(1, 4), rng.randrange(1, 4)
    juncs, segs, lanes, bps = [], [], [], {}

    def bp(name):
        if name not in bps:
            bps[name] = {"id": name, "o": len(bps) + 1, "owner": "rg", "inx": True, "null": False, "a": [], "b": []}
        return bps[name]
    vert = rng.random() < .5
    x0, y0 = rng.randrange(-5, 6), rng.randrange(-5, 6)
    njunc = 0
    xs = [0]
    for c in range(cols):
        xs.append(xs[-1] + rng.choice([2, 3, 4, 6]))
    for c in range(cols):
        if not juncs or rng.random() < .7:
            njunc += 1
            juncs.append({"id": "J%d" % njunc, "o": njunc, "owner": "rg", "inx": True})
        sg = "S%d" % (c + 1)
        segs.append({"id": sg, "o": c + 1, "j": juncs[-1]["id"], "owner": juncs[-1]["id"], "inx": True})
        turned = rng.random() < .4
        for r in range(rows):
            s, f = "P%d-%d" % (r, c), "P%d-%d" % (r, c + 1)
            back = turned != (rng.random() < .1)
            xa, xb = (xs[c + 1], xs[c]) if back else (xs[c], xs[c + 1])
            x, y, q = (x0 - 3 * r, y0 + xa, 3 if back else 1) if vert else (x0 + xa, y0 + 3 * r, 2 if back else 0)
            lid = "L%d-%d" % (r, c)
            sb, fb = (f, s) if back else (s, f)
            lanes.append({"id": lid, "o": r + 1, "seg": sg, "owner": sg, "idx": r + 1, "inx": True, "sb": sb, "fb": fb,
                          "x": x, "y": y, "q": q, "len": xs[c + 1] - xs[c], "t0": 0, "t1": 0})
            bp(s)["b"].append({"lane": lid, "end": "finish" if back else "start"})
            bp(f)["a"].append({"lane": lid, "end": "start" if back else "finish"})
    for b in bps.values():
        if rng.random() < .4:
            b["a"], b["b"] = b["b"], b["a"]
    # a lane that branches off the first or merges into the last
    if rng.random() < .4:
        l = dict(rng.choice(lanes), id="X", o=1 + max(0, 0))
        sg = "SX"
        segs.append({"id": sg, "o": 9, "j": juncs[0]["id"], "owner": juncs[0]["id"], "inx": True})
        b = bp(l["sb"])
        side = "a" if any(e["lane"] != "X" and e["lane"] == [k["id"] for k in lanes if k["sb"] == l["sb"] and (k["x"], k["y"]) == (l["x"], l["y"]) and k["q"] == l["q"]][0] for e in b["a"]) else "b"
        b[side].append({"lane": "X", "end": "start"})
        l.update(seg=sg, owner=sg, o=1, idx=1, fb="PX", len=rng.choice([1, 5]))
        bp("PX")["a"].append({"lane": "X", "end": "finish"})
        lanes.append(l)
    g = {"juncs": juncs, "segs": segs, "lanes": lanes, "bps": list(bps.values()), "lin": rng.choice([0, 0, 1, 2])}
    if rng.random() < .55:
        for _ in range(rng.choice([1, 1, 2])):
            fault(rng, g)
    return g


def fault(rng, g):
    l, b, j, s = rng.choice(g["lanes"]), rng.choice(g["bps"]), rng.choice(g["juncs"]), rng.choice(g["segs"])
    k = rng.randrange(16)
    if k < 4:
        l[rng.choice(["x", "y"])] += rng.choice([-3, -2, -1, 1, 2, 3])
    elif k < 7:
        l[rng.choice(["t0", "t1"])] += rng.choice([-3, -2, -1, 1, 2, 3])
    elif k == 7:
        l["idx"] += rng.choice([-1, 1])
    elif k == 8:
        l[rng.choice(["sb", "fb"])] = ""
    elif k == 9:
        rng.choice([l, b, j, s])["inx"] = False
    elif k == 10:
        rng.choice([b, j])["owner"] = "other"
    elif k == 11:
        l["owner"] = rng.choice(g["segs"])["id"]
    elif k == 12:
        s["owner"] = rng.choice(g["juncs"])["id"]
    elif k == 13:
        b["a"], b["b"] = b["b"], b["a"]
        if rng.random() < .3:
            b["null"] = True
    elif k == 14:
        rng.choice([lambda: g["juncs"].append({"id": "JJ", "o": 99, "owner": "rg", "inx": True}),
                    lambda: g["segs"].append({"id": "SS", "o": 99, "j": j["id"], "owner": j["id"], "inx": True}),
                    lambda: g["bps"].append({"id": "PP", "o": 99, "owner": "rg", "inx": True, "null": False, "a": [], "b": []})])() \
            if not any(x["o"] == 99 for x in g["juncs"] + g["segs"] + g["bps"]) else None
    else:
        e = (b["a"] + b["b"])
        if e:
            e = rng.choice(e)
            for side in "ab":
                if e in b[side]:
                    b[side].remove(e)


def rules(rng, g, bad):
    """A mostly consistent set of rules, lights and rings; bad: how often a reference is off."""
    ls = g["lanes"]

    def off():
        return rng.random() < bad

    def zone(n=None):
        l = rng.choice(ls)
        out, n = [], n or rng.choice([1, 2, 2, 3])
        d = rng.random() < .5
        while True:
            a, b = (0, l["len"]) if d else (l["len"], 0)
            if rng.random() < .1:
                a, b = sorted(rng.sample(range(l["len"] + 1), 2), reverse=not d)
            out.append({"lane": l["id"] if not off() else rng.choice(["nowhere"] + [x["id"] for x in ls]), "s0": a if not off() else rng.randrange(l["len"] + 1), "s1": b})
            if len(out) == n:
                break
            # go on with what starts where this one ends
            if b not in (0, l["len"]):
                out.append({"lane": l["id"], "s0": b, "s1": l["len"] if d else 0})
                break
            pose = (l["x"] + DX[l["q"]] * b, l["y"] + DY[l["q"]] * b, (l["q"] + (0 if d else 2)) % 4)
            nxt = [(x, e) for x in ls for e in (True, False)
                   if (x["x"] + (0 if e else DX[x["q"]] * x["len"]), x["y"] + (0 if e else DY[x["q"]] * x["len"]), (x["q"] + (0 if e else 2)) % 4) == pose]
            if not nxt:
                break
            l, d = rng.choice(nxt)
        return seq(out)
    rs, lights, rings = [], [], []
    for i, l in enumerate(ls):
        if not off():
            rs.append({"kind": "dir", "id": "d%d" % i, "zone": [{"i": 1, "lane": l["id"], "s0": 0, "s1": l["len"]}] if rng.random() < .7 else
                       [{"i": 1, "lane": l["id"], "s0": rng.randrange(l["len"] + 1), "s1": rng.randrange(l["len"] + 1)}], "vals": [], "lights": []})
    ids = ["r%d" % i for i in range(rng.randrange(0, 6))]

    def rel():
        return sorted({rng.choice(ids) if not off() else rng.choice(["gone", "d0", "w0"]) for _ in range(rng.choice([0, 0, 1, 2]))})
    for i in ids:
        kind = rng.choice(["dv", "dv", "rv"])
        vals, seen = [], set()
        for t in rng.sample("xyz", rng.randrange(1, 4)):
            vals.append({"text": t, "sev": rng.randrange(2), "rel": rel()})
        rs.append({"kind": kind, "id": i, "zone": zone(), "vals": vals, "lights": []})
    for i in range(rng.randrange(0, 4)):
        lights.append({"id": "t%d" % i, "groups": [{"id": n, "bulbs": [{"id": m, "states": rng.sample(["On", "Off", "Blinking"], rng.randrange(1, 4))}
                                                                      for m in rng.sample("bcd", rng.randrange(1, 4))]} for n in rng.sample("ghk", rng.randrange(1, 4))]})
    for i in range(rng.randrange(0, 3)):
        x = [{"id": t["id"] if not off() else "t9", "groups": [n["id"] for n in t["groups"] if rng.random() < .6] + (["zz"] if off() else [])}
             for t in rng.sample(lights, rng.randrange(0, len(lights) + 1))]
        x = list({y["id"]: y for y in x}.values())
        rs.append({"kind": "row", "id": "w%d" % i, "zone": zone(), "vals": [], "lights": x})
    used = set()
    for i in range(rng.randrange(0, 3)):
        dv = rng.sample([r for r in rs if r["kind"] == "dv"], min(len([r for r in rs if r["kind"] == "dv"]), rng.randrange(0, 3)))
        keys = [r["id"] for r in dv]
        bulbs = [(t["id"], n["id"], m["id"], m["states"]) for t in lights for n in t["groups"] for m in n["bulbs"]]
        bulbs = rng.sample(bulbs, min(len(bulbs), rng.randrange(0, 4)))
        bk = [[("t9" if off() else t), ("zz" if off() else n), ("e" if off() else m), st] for t, n, m, st in bulbs]
        bk = list({tuple(x[:3]): x for x in bk}.values())
        keys = [("gone%d" % i if off() else k) for k in keys]
        keys = [k for k in keys if k not in used]
        used.update(keys)
        dvs = {k: r["vals"] for k, r in zip(keys, dv)}
        ph = []
        for p in range(rng.randrange(1, 4)):
            ph.append({"id": "p%d" % p,
                       "dv": [{"rule": k, "val": dict(rng.choice(v)) if not off() else {"text": rng.choice("xyzw"), "sev": rng.randrange(2), "rel": rel()}} for k, v in dvs.items()],
                       "bulbs": [{"light": t, "group": n, "bulb": m, "state": rng.choice(st) if not off() else rng.choice(["On", "Off", "Blinking"])} for t, n, m, st in bk]})
        rings.append({"id": "R%d" % i, "phases": ph})
    return rs, lights, rings, zone


def ruled(ring):
    return {x["rule"] for p in ring["phases"] for x in p["dv"]}


def gen(rng, nwalks, steps):
    cmds = []
    for _ in range(nwalks):
        cmds.append({"op": "new", "u": rng.choice([1, .25, 16]),
                     "rpy": [0, 0, 0] if rng.random() < .2 else [rng.choice([0, 0, .1, -.3]), rng.choice([0, 0, .2, -.1]), rng.uniform(-3, 3)]})
        g = geometry(rng)
        bad = rng.choice([0, 0, .02, .1])
        rs, lights, rings, zone = rules(rng, g, bad)
        cmds.append({"op": "Load", "geo": g, "rules": list(rs), "lights": list(lights), "rings": list(rings)})
        noinv = any(b["null"] for b in g["bps"])

        def validate():
            o = rng.choice([OPTS, OPTS, [rng.choice(OPTS)], [x for x in OPTS if rng.random() < .7], [x for x in OPTS if rng.random() < .3]])
            cmds.append({"op": "Validate", "opts": [x for x in o if x != "inv" or not noinv]})
        for o in OPTS:
            if o != "inv" or not noinv:
                cmds.append({"op": "Validate", "opts": [o]})
        if not noinv:
            cmds.append({"op": "CheckInvariants"})
        more = rules(rng, g, .15)[:3]
        for _ in range(steps):
            x = rng.random()
            if x < .5:
                validate()
            elif x < .65:
                z = sorted(zone(2), key=lambda v: v["i"])
                w = z[1] if len(z) > 1 and rng.random() < .7 else rng.choice(zone())
                cmds.append({"op": "IsContiguous", "z": {k: z[0][k] for k in ("lane", "s0", "s1")}, "w": {k: w[k] for k in ("lane", "s0", "s1")}})
            elif x < .75 and rs:
                r = rs.pop(rng.randrange(len(rs)))
                cmds.append({"op": "RemoveRule", "kind": r["kind"], "id": r["id"]})
                validate()
            elif x < .85 and more[0]:
                r = more[0].pop()
                if any(q["id"] == r["id"] for q in rs):
                    continue
                rs.append(r)
                cmds.append({"op": "AddRule", "rule": r})
                validate()
            elif x < .9 and rings:
                cmds.append({"op": "RemoveRing", "id": rings.pop()["id"]})
                validate()
            elif x < .95 and more[2]:
                r = more[2].pop()
                if not any(q["id"] == r["id"] or ruled(q) & ruled(r) for q in rings):
                    rings.append(r)
                    cmds.append({"op": "AddRing", "ring": r})
                    validate()
            elif more[1]:
                r = more[1].pop()
                if not any(q["id"] == r["id"] for q in lights):
                    lights.append(r)
                    cmds.append({"op": "AddLight", "light": r})
                    validate()
    return cmds


def main():
    c = Check("C11")
    exe, = c.build("validator")
    walks = c.walks_of_graph(c.graph("MC_Validator", cfg="MC_Validator_rich.cfg" if c.thorough else None))
    for i, w in enumerate(walks):     # the same networks in differently turned frames
        if i % 3:
            w["new"] = dict(w["new"], u=[.25, 3][i % 2], rpy=[[0, 0, .7], [.1, -.2, 2.5]][i % 2])
    c.replay(exe, walks, "exhaustive")
    cmds = gen(c.rng, 2500 if c.thorough else 300, 20)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_Validator", cmds, parts=8)), "random")
    return c.finish()
