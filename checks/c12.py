"""C12: road position queries.  spec/Positions.tla"""
from vlib import *


def gen(rng, nwalks, steps):
    cmds = []
    for _ in range(nwalks):
        lanes = []
        nseg = rng.choice([1, 2, 3, 4, 6])
        span = rng.choice([4, 10])
        deep = rng.random() < .3        # (lanes that go down far more than up)
        for k in range(nseg):
            q, z, hm, hM = rng.randrange(4), rng.choice([0, 0, 1, 2, 4, 7]), rng.choice([0, -5, -9] if deep else [0, 0, -1]), rng.choice([0, 0, 1] if deep else [0, 2, 4])
            x, y, ln, w = rng.randrange(span), rng.randrange(span), rng.randrange(1, span + 6), rng.randrange(1, 3)
            n = rng.choice([1, 1, 2, 3])
            c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][q]
            for i in range(n):
                off = 2 * w * i
                rmin = rng.choice([-w, -w, 0]) if n == 1 else -w
                rmax = rng.choice([w, w, w + 1]) if n == 1 else w
                lanes.append({"id": "l%d.%d" % (k, i), "seg": "s%d" % k, "x": x - s * off, "y": y + c * off, "z": z, "q": q, "len": ln,
                              "rmin": rmin, "rmax": rmax, "smin": -w - off if n > 1 else rmin - 1, "smax": 2 * w * n - w - off if n > 1 else rmax,
                              "hmin": hm, "hmax": hM})
        rng.random() < .02 and lanes.clear()
        fr = {"x": 0, "y": 0, "z": 0} if rng.random() < .5 else {"x": rng.randrange(-5, 6), "y": rng.randrange(-5, 6), "z": rng.randrange(-2, 3)}
        cmds.append({"op": "new", "u": rng.choice([1, .5, 8, 1 / 64., 2**-23]), "step": rng.choice([.25, .5, 1, 3, 7]), "lin": rng.choice([1, 1, 2]),
                     "lanes": lanes, "frame": fr})

        def P():
            if lanes and rng.random() < .6:
                l = rng.choice(lanes)
                c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][l["q"]]
                a, r = rng.randrange(-2, l["len"] + 3), rng.choice([l["rmin"], l["rmax"], 0, 0, l["rmax"] + 1, l["rmin"] - 1])
                p = (l["x"] + c * a - s * r, l["y"] + s * a + c * r, l["z"] + rng.choice([0, 0, 0, 1, 2, 4, -1, l["hmin"], l["hmin"] - 1]))
            else:
                p = (rng.randrange(-6, 2 * span), rng.randrange(-6, 2 * span), rng.randrange(-4, 10))
            return {"x": p[0] + fr["x"], "y": p[1] + fr["y"], "z": p[2] + fr["z"]}
        for _ in range(steps):
            x = rng.random()
            if x < .4:
                cmds.append({"op": "ToRoad", "p": P()})
            elif x < .75:
                cmds.append({"op": "Find", "p": P(), "radius": rng.choice([-2, -1, 0, 0, 1, 1, 2, 2, 3, 5, 9])})
            elif x < .8:
                cmds.append({"op": "Filter", "p": P(), "keep": rng.sample([l["id"] for l in lanes], rng.randrange(len(lanes) + 1)),
                             "d2": rng.choice([0, 1, 4, 100, 400])})
            elif lanes:
                l = rng.choice(lanes)
                if x < .88:
                    cmds.append({"op": "ToRoadHint", "p": P(), "hint": l["id"] if rng.random() < .97 else "null"})
                elif x < .95:
                    cmds.append({"op": "Lane", "p": P(), "lane": l["id"]})
                else:
                    cmds.append({"op": "ToInertial", "lane": l["id"], "s": rng.randrange(l["len"] + 1), "r": rng.randrange(l["rmin"], l["rmax"] + 1),
                                 "h": rng.randrange(l["hmin"], l["hmax"] + 1)})
    return cmds


def main():
    c = Check("C12")
    exe, = c.build("positions")
    c.replay(exe, c.walks_of_graph(c.graph("MC_Positions")), "exhaustive")
    n, s = (1500, 100) if c.thorough else (250, 60)
    cmds = gen(c.rng, n, s)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_Positions", cmds)), "random")
    return c.finish()
