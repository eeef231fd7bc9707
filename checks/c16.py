"""C16: routes computed by DistanceRouter.  spec/Router.tla, Routes.tla, RoadGraph.tla, Topo.tla"""
from vlib import *

COS, SIN = [1, 0, -1, 0], [0, 1, 0, -1]
NONE = -99


def net(rng):
    """Segments between stations on a line, of contiguous lanes at lateral slots; maybe a dead-end lane of half the length."""
    ns = rng.choice([2, 3, 3, 4, 4])
    xs = [0]
    for _ in range(ns - 1):
        xs.append(xs[-1] + 8 * rng.choice([1, 1, 2, 3]))
    turn = rng.randrange(4)
    W = rng.choice([1, 2, 3])
    w = rng.choice([1, 2])
    lanes, at = [], []
    nseg = rng.choice([1, 2, 3, 3, 4, 5, 6])
    dense = rng.random() < .5            # many ways from one station to the next
    if dense:
        nseg = rng.choice([4, 5, 6, 7])
    flip = rng.choice([0, 0, .1, .4])
    for k in range(nseg):
        u = k % (ns - 1) if k < ns - 1 and rng.random() < .8 else rng.randrange(ns)
        v = u + 1 if k < ns - 1 and u < ns - 1 and rng.random() < .8 else rng.choice([i for i in range(ns) if i != u])
        if rng.random() < .35:
            u, v = v, u
        n = rng.randrange(1, W + 1)
        if dense and rng.random() < .7:
            n = W
        lo = rng.randrange(W - n + 1)
        rev = v < u
        ln = abs(xs[u] - xs[v])
        sides = {}
        for e, st, far in (("start", u, v), ("finish", v, u)):
            side = "A" if far < st else "B"
            sides[e] = side if rng.random() >= flip else "AB"[side == "A"]
        half = rng.choice(["start", "finish"]) if n > 1 and rng.random() < .25 else None
        who = rng.choice([0, n - 1])
        for j in range(n):
            slot = lo + (n - 1 - j if rev else j)
            dead = half if j == who else None
            q = 2 if rev else 0
            px, py = xs[u] + (COS[q] * ln // 2 if dead == "start" else 0), 2 * w * slot
            q = (q + turn) % 4
            l = {"id": "l%d.%d" % (k, j), "seg": "s%d" % k, "o": j, "x": COS[turn] * px - SIN[turn] * py, "y": SIN[turn] * px + COS[turn] * py, "z": 0,
                 "q": q, "len": ln // 2 if dead else ln, "rmin": -w, "rmax": w, "smin": -w, "smax": w, "hmin": 0, "hmax": 3}
            lanes.append(l)
            for e, st in (("start", u), ("finish", v)):
                at.append({"lane": l["id"], "end": e, "bp": "dead%d" % k if dead == e else "b%d.%d" % (st, slot), "side": sides[e]})
    return {"lanes": lanes, "at": at, "frame": {"x": rng.choice([0, 3]), "y": 0, "z": 0}, "lin": rng.choice([0, 0, 1])}


def gen(rng, nwalks, steps):
    cmds = []
    for _ in range(nwalks):
        c = net(rng)
        lanes = c["lanes"]
        cmds.append(dict(c, op="new", u=rng.choice([1, .5, 8, 1 / 64.]), tol=rng.choice([0, 0, 1, 3])))

        def pos():
            if rng.random() < .01:
                return {"lane": rng.choice(["null", "stray", "twin"]), "s": 0, "r": 0, "h": 0}
            l = rng.choice(lanes)
            return {"lane": l["id"], "s": 4 * rng.randrange(l["len"] // 4 + 1), "r": rng.choice([0, 0, 1]), "h": rng.choice([0, 0, 0, 1])}

        def cost():
            x = rng.random()
            return NONE if x < .6 else 0 if x < .65 else -1 if x < .67 else 2 * rng.randrange(rng.choice([8, 16, 40])) + 1
        for _ in range(steps):
            rng.random() < .05 and cmds.append({"op": "NewRouter", "tol": rng.choice([-1, 0, 1, 3])})
            cmds.append({"op": "Compute", "a": pos(), "b": pos(), "c": {"phase": cost(), "route": cost(), "switch": rng.random() < .65}})
    return cmds


def main():
    c = Check("C16")
    exe, = c.build("router")
    c.replay(exe, c.walks_of_graph(c.graph("MC_Router")), "exhaustive")
    cmds = gen(c.rng, 2500 if c.thorough else 350, 40)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_Router", cmds)), "random")
    return c.finish()
