"""C13: lane sequences and the routes derived from them.  spec/LaneSeqs.tla, Topo.tla"""
from vlib import *
import itertools


def queries(rng, lanes, n):
    out = []
    tot = sum(l["len"] for l in lanes)
    for _ in range(n):
        a, b = rng.choice(lanes), rng.choice(lanes)
        mx = rng.choice([tot, tot, 0, rng.randrange(-1, tot + 1), rng.randrange(0, tot + 1)])
        x = rng.random()
        if x < .6:
            out.append({"op": "Find", "a": a["id"], "b": b["id"], "max": mx, "nou": rng.random() < .6})
        elif x < .65:
            out.append({"op": "Edge", "a": a["id"], "b": b["id"]})
        else:
            s, t = rng.randrange(a["len"] + 1), rng.randrange(b["len"] + 1)
            an, bn = a["id"], b["id"]
            if rng.random() < .01:
                an = "null"
            if rng.random() < .01:
                bn = "null"
            out.append({"op": "Derive", "a": an, "s": s, "b": bn, "t": t, "max": mx})
    return out


def small(names):
    """Every connectivity of a few lanes over two branch points, with every query."""
    lanes = [{"id": n, "len": 2 ** i} for i, n in enumerate(names)]
    ends = [(n, e) for n in names for e in ("start", "finish")]
    pl = [(b, s) for b in ("b1", "b2") for s in "AB"]
    cmds = []
    for f in itertools.product(pl, repeat=len(ends) - 1):
        at = [{"lane": n, "end": e, "bp": p[0], "side": p[1]} for (n, e), p in zip(ends, (("b1", "A"),) + f)]
        cmds.append({"op": "new", "lanes": lanes, "at": at})
        for a, b in itertools.product(names, repeat=2):
            for mx in (0, 2 ** len(names)):
                cmds.append({"op": "Find", "a": a, "b": b, "max": mx, "nou": False})
            cmds.append({"op": "Find", "a": a, "b": b, "max": 2 ** len(names), "nou": True})
            cmds.append({"op": "Edge", "a": a, "b": b})
            cmds.append({"op": "Derive", "a": a, "s": 1, "b": b, "t": 0, "max": 2 ** len(names)})
    return cmds


def gen(rng, nwalks, steps):
    cmds = []
    for k in range(nwalks):
        n = rng.choice([3, 4, 5, 6, 6, 7])
        names = ["l%d" % i for i in range(n)]
        lanes = [{"id": m, "len": rng.choice([1, 2, 3, 5, 8])} for m in names]
        nb = rng.choice([2, 3, 4, n, n + 2])
        at = []
        if k % 3 == 0:
            for m in names:
                for e in ("start", "finish"):
                    at.append({"lane": m, "end": e, "bp": "b%d" % rng.randrange(nb), "side": rng.choice("AB")})
        else:
            # a road-like network: lanes between junction points, some of them digitised against the traffic; a lane end
            # is on the side from which it comes
            for m in names:
                u, v = rng.sample(range(nb), 2) if nb > 1 else (0, 0)
                fl = rng.random() < .4
                es = ("finish", "start") if fl else ("start", "finish")
                at.append({"lane": m, "end": es[0], "bp": "b%d" % u, "side": "B" if rng.random() < .9 else "A"})
                at.append({"lane": m, "end": es[1], "bp": "b%d" % v, "side": "A" if rng.random() < .9 else "B"})
        cmds.append({"op": "new", "lanes": lanes, "at": at})
        cmds += queries(rng, lanes, steps)
    return cmds


def main():
    c = Check("C13")
    exe, = c.build("laneseqs")
    c.tlc_ok("MC_LaneSeqs", workers=6)
    cmds = small("pqr")
    if not c.thorough:
        # a third of the connectivities on each run, chosen by the seed
        keep, out = False, []
        for x in cmds:
            if x["op"] == "new":
                keep = c.rng.random() < .4
            if keep:
                out.append(x)
        cmds = out
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_LaneSeqs", cmds)), "small")
    cmds = gen(c.rng, 2500 if c.thorough else 250, 40)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_LaneSeqs", cmds)), "random")
    return c.finish()
