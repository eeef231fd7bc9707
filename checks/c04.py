"""C04: states set by hand.  spec/Providers.tla"""
from vlib import *
from values_common import *

TYPES = ["Right-Of-Way Rule Type", "t0", "t1"]


def gen(rng, nwalks, steps):
    ids = ["r", "r1", "r10", "R1", "1r", "r1 "]
    lanes = ["p", "pq", "P"]
    R = lambda: {"lane": rng.choice(lanes), "s0": rng.randrange(20), "s1": rng.randrange(20)}
    pts = [{"p": i, "lane": rng.choice(lanes), "s": rng.randrange(20), "tol": rng.choice([0, 0, 0, 1, 3, -1])} for i in range(10)]
    cmds = []
    for _ in range(nwalks):
        cmds.append({"op": "new", "ids": ids + ["zz"], "rwids": ["w0", "w1", "w2"], "types": TYPES + ["none"], "points": pts})
        known = {}
        for _ in range(steps):
            x = rng.random()
            i = rng.choice(ids)
            if x < .25:
                kind = rng.choice(["dv", "rv"])
                vs = [value(rng, kind, .6) for _ in range(rng.choice([1, 2, 3]))]
                cmds.append({"op": "AddRule", "kind": kind, "id": i, "type": rng.choice(TYPES),
                             "zone": seq([R() for _ in range(rng.choice([1, 2, 3]))]), "values": values(vs)})
                known.setdefault(i, (kind, vs))
            elif x < .32:
                cmds.append({"op": "RemoveRule", "id": i})
                known.pop(i, None)
            elif x < .85:
                kind, vs = known.get(i, ("dv", [value(rng, "dv")]))
                if rng.random() < .05:
                    kind = "rv" if kind == "dv" else "dv"

                def pick():
                    v = rng.choice(vs)
                    if rng.random() < .15:
                        v = dict(v, rel=rel(rng, .8))
                    elif rng.random() < .1:
                        v = value(rng, kind)
                    if rng.random() < .3 and v["rel"]:       # another order of the related ids is the same state
                        v = dict(v, rel=[dict(r, ids=[dict(y, i=len(r["ids"]) + 1 - y["i"]) for y in r["ids"]]) for r in v["rel"]])
                    return v
                n = [] if rng.random() < .4 else [pick()]
                if rng.random() < .05:
                    cmds.append({"op": "SetStateZero", "kind": kind, "id": i, "state": pick(), "next": n})
                else:
                    cmds.append({"op": "SetState", "kind": kind, "id": i if rng.random() < .95 else "zz", "state": pick(), "next": n,
                                 "dur": rng.choice([0, 0, 0, 2, 9, -1]) if n or rng.random() < .2 else 0})
            elif x < .95:
                cmds.append({"op": rng.choice(["RwAdd", "RwSet"]), "id": rng.choice(["w0", "w1", "w2"]), "state": rng.choice(["go", "stop"])})
            else:
                cmds.append({"op": "Defaults"})
    return cmds


def main():
    c = Check("C04")
    exe, = c.build("providers")
    c.replay(exe, c.walks_of_graph(c.graph("MC_Providers")), "exhaustive")
    reps, n, s = (12, 120, 60) if c.thorough else (2, 60, 50)
    for k in range(reps):
        cmds = gen(c.rng, n, s)
        c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_Providers", cmds)), "random%d" % k)
    return c.finish()
