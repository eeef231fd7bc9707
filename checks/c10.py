"""C10: branch points.  spec/Branches.tla"""
from vlib import *


def gen(rng, nwalks, steps):
    cmds = []
    for _ in range(nwalks):
        nl, ns, nb = rng.choice([(3, 2, 2), (5, 3, 3), (6, 5, 5), (7, 6, 6)])
        lanes = [{"id": ["l", "l1", "l10", "L1", "1l", "l 1", "l1 "][i], "seg": "s%d" % (i if i < ns else rng.randrange(ns))} for i in range(nl)]
        bps = ["b", "b1", "b10", "B1", "1b", "b 1"][:nb]
        cmds.append({"op": "new", "lanes": lanes, "bps": bps})
        ends = [(l["id"], e) for l in lanes for e in ("start", "finish")]
        todo = ends[:]
        rng.shuffle(todo)
        placed = {}
        for _ in range(steps):
            x = rng.random()
            if todo and x < .5:
                l, e = todo.pop()
                b, s = rng.choice(bps), rng.choice("AB")
                placed[l, e] = (b, s)
                cmds.append({"op": "Add", "bp": b, "side": s, "lane": l, "end": e})
            elif x < .6:
                l, e = rng.choice(ends)
                if (l, e) in placed or rng.random() < .1:
                    if (l, e) not in placed:
                        l = "null"
                    cmds.append({"op": "Add", "bp": rng.choice(bps), "side": rng.choice("AB"), "lane": l, "end": e})
            else:
                e, f, b = rng.choice(ends), rng.choice(ends), rng.choice(bps)
                if e in placed and rng.random() < .9:
                    b, s = placed[e]
                    c = [g for g in placed if placed[g][0] == b and (placed[g][1] != s or rng.random() < .1)]
                    if c:
                        f = rng.choice(c)
                cmds.append({"op": "SetDefault", "bp": b, "lane": e[0], "end": e[1], "to": f[0], "toend": f[1]})
    return cmds


def main():
    c = Check("C10")
    exe, = c.build("branches")
    c.replay(exe, c.walks_of_graph(c.graph("MC_Branches")), "exhaustive")
    cmds = gen(c.rng, 1500 if c.thorough else 120, 50)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_Branches", cmds)), "random")
    return c.finish()
