"""C09: assembling a road geometry.  spec/Assembly.tla"""
from vlib import *


def gen(rng, nwalks):
    cmds = []
    for _ in range(nwalks):
        dup = rng.choice([0, 0, .03, .1])
        elems, ids = [], {}
        for k, n in (("J", 3), ("S", 5), ("L", 9), ("B", 3)):
            for i in range(1, n + 1):
                used = ids.setdefault(k, [])
                used.append(rng.choice(used) if used and rng.random() < dup else rng.choice(["a", "A", "a1", "b"]) + str(i))
                elems.append({"h": "%s%d" % (k, i), "kind": k, "id": used[-1]})
        cmds.append({"op": "new", "elems": elems})
        todo = [e["h"] for e in elems]
        if rng.random() < .5:
            rng.shuffle(todo)
        elif rng.random() < .5:
            todo.sort(key=lambda h: "BLSJ".index(h[0]))
        for h in todo:
            p = {"J": "rg", "B": "rg", "S": "J%d" % rng.randrange(1, 4), "L": "S%d" % rng.randrange(1, 6)}[h[0]]
            if rng.random() < .03:
                cmds.append({"op": "AttachNull", "kind": h[0], "p": p})
            cmds.append({"op": "Attach", "h": h, "p": p})
    return cmds


def main():
    c = Check("C09")
    exe, = c.build("assembly")
    c.replay(exe, c.walks_of_graph(c.graph("MC_Assembly")), "exhaustive")
    cmds = gen(c.rng, 1500 if c.thorough else 150)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_Assembly", cmds)), "random")
    return c.finish()
