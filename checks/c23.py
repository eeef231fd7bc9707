"""C23: meshes.  spec/Mesh.tla"""
from vlib import *
from values_common import seq
import math


def gen(rng, nwalks, steps):
    cmds = []
    for _ in range(nwalks):
        cmds.append({"op": "new", "u": rng.choice([1, .5, 3, 20]), "axis": rng.randrange(3)})
        for _ in range(steps):
            w, h = rng.randrange(1, 6), rng.randrange(1, 6)
            s = rng.random()
            gx, gy = rng.randrange(-1, 2), rng.randrange(-1, 2)
            t = [[0 if s < .3 else gx * i + gy * j if s < .5 else rng.randrange(2) if s < .7 else (rng.random() < .2) * 1 if s < .9
                  else max(gx * i, gy * j) for i in range(w + 1)] for j in range(h + 1)]
            keep = rng.choice([1, 1, .9, .8, .7, .6])
            mix = rng.choice([[0], [0], [0, 1, 2], [1, 2]])
            cells = [{"i": i, "j": j, "k": rng.choice(mix)} for i in range(w) for j in range(h) if rng.random() < keep]
            rng.random() < .5 and rng.shuffle(cells)
            if cells:
                cmds.append({"op": "Simplify", "h": t, "cells": cells, "rot": rng.randrange(4)})
    return cmds


def scenes(rng, nwalks, steps):
    cmds = []
    for _ in range(nwalks):
        lanes, z = [], rng.choice([0, 0, 1])
        for k in range(rng.choice([1, 2, 3])):
            q, n, ln = rng.randrange(4), rng.choice([1, 1, 2, 3]), rng.choice([4, 7, 12, 20])
            x, y = rng.randrange(-12, 12), rng.randrange(-12, 12)
            c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][q]
            ws = [rng.choice([(-rng.randrange(1, 3), rng.randrange(1, 4))] * 6 + [(0, 2), (-3, 0)]) for _ in range(n)]
            ext = (rng.randrange(0, 2), rng.randrange(0, 3))
            off = 0
            total = sum(b - a for a, b in ws)
            pos = 0
            hm = (rng.choice([0, 0, -1]), rng.choice([5, 5, 6, 7]))
            for i, (a, b) in enumerate(ws):
                centre = pos - a          # distance of the lane's axis from the segment's right side
                lanes.append({"id": "l%d%d" % (k, i), "seg": "s%d" % k, "o": i, "x": x - s * centre, "y": y + c * centre, "z": z, "q": q, "len": ln,
                              "rmin": a, "rmax": b, "smin": -centre - ext[0], "smax": total - centre + ext[1], "hmin": hm[0], "hmax": hm[1], "gl": 0, "gr": 0})
                if n == 1 and rng.random() < .4:
                    g = rng.choice([(rng.randrange(-2, 4), rng.randrange(-2, 4)), (rng.randrange(-2, 4), 0), (0, rng.randrange(-2, 4))])
                    lanes[-1]["gl"], lanes[-1]["gr"] = max(g[0], -b), max(g[1], a)
                    if b - a + sum(lanes[-1][x] for x in ("gl", "gr")) < 1:
                        lanes[-1]["gl"] = lanes[-1]["gr"] = 0
                pos += b - a
        at = []
        bps = ["b%d" % k for k in range(rng.choice([0, 1, 2, 3, 4]))]
        for l in lanes:
            for e in ("start", "finish"):
                if bps and rng.random() < .8:
                    at.append({"lane": l["id"], "end": e, "bp": rng.choice(bps), "side": rng.choice("AB")})
        rng.shuffle(at)
        fr = {"x": 0, "y": 0, "z": 0} if rng.random() < .5 else {"x": rng.randrange(-5, 6), "y": rng.randrange(-5, 6), "z": rng.randrange(-2, 3)}
        lin = rng.choice([1, 1, 64, 256])
        cmds.append({"op": "new", "u": rng.choice([1, .5, 4]), "lin512": lin, "lanes": lanes, "at": at, "frame": fr})
        segs = sorted({l["seg"] for l in lanes})
        used = sorted({e["bp"] for e in at})

        def F():
            b = lambda: rng.random() < .8
            g = rng.choice([1, .5, 2, .7, 5])
            return {"grid": g, "row": math.ceil(g + lin / 512), "res": rng.choice([1, 2, 3, 5]), "stripes": b(), "arrows": b(), "haze": b(), "branches": b(),
                    "bounds": b(), "off": rng.random() < .3, "simplify": rng.choice([0, 0, 1, 1, 2]), "width": 2, "stripeh": 2, "arrowh": 3,
                    "hazeh": rng.choice([0, 1]), "glowh": rng.choice([2, 4]), "glow": rng.choice([1, 2]), "order": used,
                    "marked": rng.sample(segs, rng.randrange(len(segs) + 1)) if rng.random() < .5 else [], "net": b(), "urdf": rng.random() < .4}
        for _ in range(steps):
            x, f = rng.random(), F()
            if x < .4:
                cmds.append({"op": "Draw", "f": f})
            elif x < .6:
                cmds.append({"op": "Write", "f": f, "o": {"x": rng.randrange(-3, 4), "y": rng.randrange(-3, 4), "z": rng.randrange(-3, 4)}})
            elif x < .7:
                cmds.append({"op": "Parts", "f": f})
            elif x < .9:
                k = rng.choice(["lane", "segment", "bp"] if used else ["lane", "segment"])
                cmds.append({"op": "One", "kind": k, "f": f, "id": rng.choice(lanes)["id"] if k == "lane" else rng.choice(segs) if k == "segment" else rng.choice(used),
                             "what": rng.choice(["asphalt", "lane", "marker", "h_bounds", "glow", "grayed_asphalt", "grayed_lane", "grayed_marker", "sidewalk"])})
            else:
                cmds.append({"op": "Arrows", "lane": rng.choice(lanes)["id"], "f": f})
    return cmds


def main():
    c = Check("C23")
    exe, exe2 = c.build("meshes", "scene")
    c.replay(exe, c.walks_of_graph(c.graph("MC_Mesh")), "exhaustive")
    n, s = (400, 60) if c.thorough else (60, 30)
    cmds = gen(c.rng, n, s)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_Mesh", cmds)), "random")
    n, s = (500, 20) if c.thorough else (150, 12)
    cmds = scenes(c.rng, n, s)
    c.replay(exe2, c.walks_of_oracle(cmds, c.oracle("OR_Scene", cmds)), "scenes")
    return c.finish()
