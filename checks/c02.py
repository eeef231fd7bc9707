"""C02: rulebook queries reflect exactly the rules present.  spec/Rulebook.tla"""
from vlib import *


def rnd_range(rng, lanes):
    return {"lane": rng.choice(lanes), "s0": rng.randrange(0, 30), "s1": rng.randrange(0, 30)}


def seq(z):
    return [dict(r, i=i + 1) for i, r in enumerate(z)]


def gen(rng, nwalks, steps):
    cmds = []
    lanes = ["l", "l1", "L1"]
    ids = ["r", "r1", "r10", "R1", "1r", "r1 "]
    types = ["t0", "t1", "t2"]
    queries = []
    for i in range(14):
        queries.append({"ranges": seq([rnd_range(rng, lanes) for _ in range(rng.choice([1, 1, 2, 3]))]), "tol": rng.choice([0, 0, 1, 3])})
    cfg = {"op": "new", "ids": ids, "types": types, "queries": queries}
    for _ in range(nwalks):
        cmds.append(cfg)
        for _ in range(steps):
            x = rng.random()
            kind = rng.choice(["rw", "sl", "du", "dv", "rv"])
            if x < .55:
                n = 1 if kind in ("sl", "du") else rng.choice([0, 1, 2, 2, 3, 4])
                z = [rnd_range(rng, lanes) for _ in range(n)]
                cmds.append({"op": "Add", "kind": kind, "id": rng.choice(ids), "type": rng.choice(types) if kind in ("dv", "rv") else "",
                             "zone": seq(z)})
            elif x < .9:
                cmds.append({"op": "Remove", "kind": kind, "id": rng.choice(ids)})
            elif x < .93:
                cmds.append({"op": "RemoveAll"})
            else:
                cmds.append({"op": "Find", "ranges": seq([rnd_range(rng, lanes) for _ in range(rng.choice([1, 2, 4]))]),
                             "tol": rng.choice([0, 1, 2, 5, -1])})
    return cmds


def main():
    c = Check("C02")
    exe, = c.build("rulebook")
    g = c.graph("MC_Rulebook", workers=4)
    cfg = {"ids": ["a", "b"], "types": ["t", "u"], "queries": g_queries()}
    c.replay(exe, c.walks_of_graph(g, cfg), "exhaustive")
    n, s = (600, 40) if c.thorough else (60, 40)
    cmds = gen(c.rng, n, s)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_Rulebook", cmds)), "random")
    return c.finish()


def g_queries():
    R = lambda l, a, b: {"lane": l, "s0": a, "s1": b}
    q = [([R("p", 5, 5)], 0), ([R("p", 5, 5)], 1), ([R("p", 2, 0)], 0), ([R("q", 4, 4), R("p", 3, 3)], 0),
         ([R("q", 0, 9), R("p", 9, 0)], 0), ([R("x", 0, 9)], 5), ([], 1)]
    return [{"ranges": seq(r), "tol": t} for r, t in q]
