"""C08: ranges, lists of ranges and regions.  spec/RangeAlg.tla"""
from vlib import *
from values_common import seq


def gen(rng, nwalks, steps):
    cmds = []
    for _ in range(nwalks):
        lanes = [{"id": n, "x": rng.randrange(4), "y": 2 * k + rng.randrange(2), "len": rng.randrange(3, 20), "w": rng.randrange(1, 3)}
                 for k, n in enumerate("pqr")]
        names = "pqr" if rng.random() < .7 else "pp"
        hi = rng.choice([4, 12, 40])

        def R():
            a, b = rng.randrange(hi), rng.randrange(hi)
            if rng.random() < .2:
                b = a
            return {"lane": rng.choice(names), "s0": a, "s1": b}

        def route(n):
            return seq([R() for _ in range(rng.randrange(n))])
        cmds.append({"op": "new", "tols": [-3, -1, 0, 1, 4], "den": rng.choice([1, 2, 64, 1024]), "lanes": lanes})
        for _ in range(steps):
            x = rng.random()
            i = rng.choice([1, 2])
            if x < .15:
                cmds.append({"op": rng.choice(["SetS0", "SetS1"]), "i": i, "v": rng.randrange(-1, hi)})
            elif x < .25:
                cmds.append({"op": "Make", "i": i, "u": rng.randrange(-1, hi), "v": rng.randrange(0, hi)})
            elif x < .3:
                cmds.append({"op": "SetLane", "i": i, "lane": rng.choice("pq")})
            elif x < .75:
                cmds.append({"op": "Routes", "a": route(5), "b": route(5), "tol": rng.choice([0, 0, 0, 1, 2, -1, -2])})
            else:
                l = rng.choice(lanes)
                z = seq([dict(lane=n["id"], s0=rng.randrange(n["len"] + 1), s1=rng.randrange(n["len"] + 1))
                         for n in [rng.choice(lanes) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]])
                if z and rng.random() < .03:
                    z[-1]["lane"] = "zz"
                cmds.append({"op": "Included", "x": rng.randrange(-1, l["x"] + l["len"] + 3), "y": l["y"] + rng.randrange(-4, 5), "z": z})
    return cmds


def main():
    c = Check("C08")
    exe, = c.build("rangealg")
    c.replay(exe, c.walks_of_graph(c.graph("MC_RangeAlg")), "exhaustive")
    n, s = (600, 200) if c.thorough else (90, 120)
    cmds = gen(c.rng, n, s)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_RangeAlg", cmds)), "random")
    return c.finish()
