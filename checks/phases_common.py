"""Shared by C05 and C06.  spec/Phases.tla"""
from vlib import *


def seq(z):
    return [dict(r, i=i + 1) for i, r in enumerate(z)]


# Ids that are parts of one another, differ in case only, or are those of things of another kind.
RW = ["w", "w1", "w10", "W1", "d1"]
DV = ["d", "d1", "d10", "D1", "w1"]
LIGHTS = ["L", "L1", "L10"]
RINGS = ["A", "AB", "a", "ABC"]
PH = ["p", "p1", "p10", "P1"]
TYPES = ["t0", "t1"]
LANES = [{"id": "l%d" % i, "y": 2 * i, "len": 20} for i in range(3)]


def rrange(rng):
    return {"lane": rng.choice(LANES)["id"], "s0": rng.randrange(21), "s1": rng.randrange(21)}


def cfg(rng):
    dvdesc = []
    for d in DV[:4]:
        dvdesc.append({"id": d, "type": rng.choice(TYPES), "zone": seq([rrange(rng) for _ in range(rng.choice([1, 2, 3]))]),
                       "states": rng.sample(["v0", "v1", "v2", "v3"], rng.choice([1, 2, 3]))})
    pts = []
    for i in range(8):
        l = rng.choice(LANES)
        s = rng.randrange(21)
        pts.append({"p": i, "x": s, "y": l["y"] + rng.choice([-1, 0, 0, 1]), "lane": l["id"], "s": s})
    return {"op": "new", "rings": RINGS + ["X"], "rwrules": RW + ["w9"], "dvrules": DV + ["d9"], "lights": LIGHTS, "inters": ["I", "IJ", "i"],
            "types": TYPES + ["none"], "dvdesc": dvdesc, "lanes": LANES, "points": pts,
            "regions": seq([{"ranges": seq([rrange(rng) for _ in range(rng.choice([1, 1, 2, 3]))]), "tol": rng.choice([0, 0, 1, 4])} for _ in range(6)])}


def ring(rng, rid, valid=.6):
    """A ring description; with probability 1-valid one thing about it is wrong (or it may be)."""
    n = rng.choice([1, 2, 2, 3, 4])
    rw = rng.sample(RW, rng.choice([0, 1, 1, 2, 3]))
    dv = rng.sample(DV, rng.choice([0, 1, 1, 2]))
    hasb = rng.random() < .5
    bulbs = rng.sample([(t, b) for t in LIGHTS for b in ("b0", "b1")], rng.choice([1, 2, 3])) if hasb else []
    ids = rng.sample(PH, n)
    phases = []
    for i, p in enumerate(ids):
        phases.append({"i": i + 1, "id": p, "hasb": hasb,
                       "rw": [{"rule": r, "state": rng.choice(["go", "stop", "wait"])} for r in rw],
                       "dv": [{"rule": r, "val": rng.choice(["v0", "v1", "v2"])} for r in dv],
                       "bulbs": [{"tl": t, "bulb": b, "state": rng.choice(["on", "off", "blinking"])} for t, b in bulbs]})
    hasnext = rng.random() < .7
    nxt = []
    if hasnext:
        for p in ids:
            nxt.append({"phase": p, "to": [{"i": k + 1, "id": rng.choice(ids), "dur": rng.choice([0, 0, 1, 7])} for k in range(rng.choice([0, 1, 1, 2, 3]))]})
    D = {"id": rid, "phases": phases, "hasnext": hasnext, "next": nxt}
    if rng.random() >= valid:
        k = rng.randrange(12)
        ph = rng.choice(phases)
        if k == 0:
            D["phases"], D["next"] = [], (nxt if rng.random() < .5 else [])
        elif k == 1:
            phases.append(dict(rng.choice(phases), i=n + 1))
        elif k == 2 and ph["rw"]:
            ph["rw"].pop()
        elif k == 3:
            ph["rw"].append({"rule": rng.choice([r for r in RW if r not in rw]), "state": "go"})
        elif k == 4 and ph["rw"]:
            ph["rw"][0]["rule"] = rng.choice([r for r in RW if r not in rw])
        elif k == 5 and ph["dv"]:
            ph["dv"][0]["rule"] = rng.choice([r for r in DV if r not in dv])
        elif k == 6 and ph["dv"]:
            ph["dv"].pop()
        elif k == 7:
            ph["dv"].append({"rule": rng.choice([r for r in DV if r not in dv]), "val": "v0"})
        elif k == 8 and hasb:
            ph["bulbs"][0]["bulb"] = "b7"
        elif k == 9 and hasb:
            if len(ph["bulbs"]) > 1 and rng.random() < .5:
                ph["bulbs"].pop()
            else:
                ph["hasb"], ph["bulbs"] = False, []
        elif k == 10 and hasnext:
            if rng.random() < .5:
                nxt.pop(rng.randrange(len(nxt)))
            else:
                nxt.append({"phase": "zz", "to": []})
        elif hasnext:
            rng.choice(nxt)["to"].append({"i": 9, "id": rng.choice(["zz"] + [p for p in PH if p not in ids]), "dur": 0})
    return D


def gen(rng, nwalks, steps, mode):
    conf = cfg(rng)
    cmds = []
    for _ in range(nwalks):
        cmds.append(conf)
        for _ in range(steps):
            x = rng.random()
            ph = lambda: rng.choice(PH if rng.random() < .8 else ["zz"])
            nx = lambda: "" if rng.random() < .4 else ph()
            du = lambda: rng.choice([0, 0, 3, 8])
            if mode == "book":
                w = [.55, .85, .9, .95, .96, .97, .98]
            else:
                w = [.15, .22, .35, .62, .78, .88, .97]
            if x < w[0]:
                cmds.append({"op": "AddRing", "ring": ring(rng, rng.choice(RINGS), .6 if mode == "book" else .9)})
            elif x < w[1]:
                cmds.append({"op": "RemoveRing", "id": rng.choice(RINGS + ["X"])})
            elif x < w[2]:
                cmds.append({"op": "ProvAdd", "ring": rng.choice(RINGS), "phase": ph(), "next": nx(), "dur": du()})
            elif x < w[3]:
                cmds.append({"op": "ProvSet", "ring": rng.choice(RINGS), "phase": ph(), "next": nx(), "dur": du()})
            elif x < w[4]:
                cmds.append({"op": "ManualSet", "rule": rng.choice(DV), "state": rng.choice(["v0", "v1", "v2"]),
                             "next": rng.choice(["", "", "v0", "v1", "v2"]), "dur": rng.choice([0, 0, 2, -3])})
            elif x < w[5]:
                cmds.append({"op": "AddInter", "id": rng.choice(["I", "IJ", "i"]), "ring": ring(rng, rng.choice(RINGS), .9),
                             "region": seq([rrange(rng) for _ in range(rng.choice([1, 2, 3]))])})
            elif x < w[6]:
                cmds.append({"op": "InterSet", "id": rng.choice(["I", "IJ", "i"]), "phase": ph(), "next": nx(), "dur": du()})
            else:
                cmds.append({"op": "Defaults"})
    return cmds


def run(pid, mc, mode, quick, thorough):
    c = Check(pid)
    exe, = c.build("phases")
    g = c.graph("MC_Phases", cfg=mc)
    c.replay(exe, c.walks_of_graph(g), "exhaustive")
    reps, n, s = thorough if c.thorough else quick
    for k in range(reps):
        cmds = gen(c.rng, n, s, mode)
        c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_Phases", cmds)), "random%d" % k)
    return c.finish()
