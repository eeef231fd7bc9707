"""C14: the routing graph and its edge sequences.  spec/RoadGraph.tla, Topo.tla"""
from vlib import *


def gen(rng, nwalks, steps):
    cmds = []
    for k in range(nwalks):
        ns = rng.choice([2, 3, 4, 5, 6, 7])
        nb = rng.choice([2, 3, 4, 6, 9, 12])
        lanes, at = [], []
        nn = rng.choice([2, 3, 4, 5])                           # junction points of the road-like kind
        for s in range(ns):
            w = min(rng.choice([1, 1, 2, 2, 3]), nb)
            names = ["l%d%s" % (s, "abc"[i]) for i in range(w)]
            lanes += [{"id": n, "seg": "s%d" % s, "i": len(lanes) + i} for i, n in enumerate(names)]
            if k % 2:
                # road-like: all lanes of a segment go from one junction point to another; branch points are lane slots there
                u, v = rng.randrange(nn), rng.randrange(nn)
                fl = rng.random() < .4
                e0, e1 = ("finish", "start") if fl else ("start", "finish")
                for e, p, side in ((e0, u, "B"), (e1, v, "A")):
                    slots = rng.sample(range(3), w)
                    for n, b in zip(names, slots):
                        at.append({"lane": n, "end": e, "bp": "b%d%d" % (p, b), "side": side if rng.random() < .9 else "AB"[side == "A"]})
            else:
                for e in ("start", "finish"):
                    for n, b in zip(names, rng.sample(range(nb), w)):
                        at.append({"lane": n, "end": e, "bp": "b%d" % b, "side": rng.choice("AB")})
        order = list(range(ns))
        rng.shuffle(order)
        nj = rng.choice([1, 2, ns])
        segs = [{"id": "s%d" % s, "i": i, "jn": "j%d" % rng.randrange(nj)} for i, s in enumerate(order)]
        cmds.append({"op": "new", "lanes": lanes, "segs": segs, "at": at})
        E = ("start", "finish")
        for _ in range(steps):
            a, b = rng.choice(lanes)["id"], rng.choice(lanes)["id"]
            x = rng.random()
            if x < .15:
                cmds.append({"op": "FindNode", "lane": a, "end": rng.choice(E)})
            elif x < .8:
                cmds.append({"op": "FindSeqs", "a": a, "ae": rng.choice(E), "b": b, "be": rng.choice(E)})
            elif x < .84:
                cmds.append({"op": "FindStray", "which": rng.choice(["start", "end"]), "a": a, "ae": rng.choice(E)})
            else:
                cmds.append({"op": "EdgeEnd", "s": "s%d" % rng.randrange(ns), "t": "s%d" % rng.randrange(ns)})
    return cmds


def main():
    c = Check("C14")
    exe, = c.build("roadgraph")
    c.tlc_ok("MC_RoadGraph", workers=6)
    cmds = gen(c.rng, 4000 if c.thorough else 450, 25)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_RoadGraph", cmds)), "random")
    return c.finish()
