"""C21: sampling of lane routes; what lanes and networks contain.  spec/Waypoints.tla"""
from vlib import *
from values_common import seq


def gen(rng, nwalks, steps):
    cmds = []
    for _ in range(nwalks):
        n = rng.randrange(1, 6)
        lanes = []
        for k in range(n):
            w, a, b = rng.randrange(1, 4), rng.randrange(0, 4), rng.randrange(0, 4)
            lanes.append({"id": "l%d" % k, "seg": "s%d" % k, "x": rng.randrange(-9, 9), "y": rng.randrange(-9, 9), "z": rng.randrange(-2, 3),
                          "q": rng.randrange(4), "len": rng.choice([1, 2, 5, 7, 12, 30]), "rmin": -w, "rmax": w, "smin": -w - a, "smax": w + b,
                          "hmin": rng.choice([0, -1, -3]), "hmax": rng.choice([0, 2, 4]), "wide": rng.choice([0, 2, 5]), "tall": rng.choice([0, 0, 3])})
        fr = {"x": 0, "y": 0, "z": 0} if rng.random() < .3 else {"x": rng.randrange(-5, 6), "y": rng.randrange(-5, 6), "z": rng.randrange(-2, 3)}
        cmds.append({"op": "new", "u": rng.choice([1, .25, 8, 1 / 64.]), "lin": rng.choice([0, 0, 1, 1, 2, 5]), "lanes": lanes, "frame": fr})
        for _ in range(steps):
            x = rng.random()
            l = rng.choice(lanes)
            if x < .5:
                t = []
                for g in range(rng.choice([1, 1, 2, 3, 5])):
                    m = rng.choice(lanes)
                    a, b = rng.randrange(m["len"] + 1), rng.randrange(m["len"] + 1)
                    a, b = rng.choice([(a, b), (a, b), (0, m["len"]), (m["len"], 0), (a, a)])
                    t.append({"lane": m["id"], "s0": a, "s1": b})
                if rng.random() < .03:
                    rng.choice(t)["lane"] = "zz"
                cmds.append({"op": "Sample", "route": t, "rate": rng.choice([-1, 0, 1, 1, 2, 3, 3, 4, 5, 7, 11, 25, 1000])})
            elif x < .97:
                s = rng.choice([rng.randrange(-7, l["len"] + 8), rng.randrange(l["len"] + 1)])
                r = rng.choice([0, rng.randrange(l["smin"] - 12, l["smax"] + 12)])
                cmds.append({"op": "Holds", "lane": l["id"], "s": s, "r": r, "h": rng.choice([0, 0, rng.randrange(-9, 14)])})
            else:
                cmds.append({"op": "HasLane", "lane": rng.choice(["l0", "l1", "l3", "l9", "l", "s0"])})
    return cmds


def main():
    c = Check("C21")
    exe, = c.build("waypoints")
    c.replay(exe, c.walks_of_graph(c.graph("MC_Waypoints")), "exhaustive")
    n, s = (1200, 120) if c.thorough else (200, 100)
    cmds = gen(c.rng, n, s)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_Waypoints", cmds)), "random")
    return c.finish()
