"""C27: descriptions of networks, graphs and values.  spec/Describe.tla"""
from vlib import *


def number(rng, digits):
    """A number of at most so many digits as it is usually written."""
    x = rng.random()
    if x < .2:
        return "0"
    n = rng.randint(1, 10 ** rng.randint(1, digits) - 1)
    k = rng.randint(0, min(len(str(n)), 4)) if rng.random() < .6 else 0
    t = str(n)
    if k:
        t = t.rjust(k + 1, "0")
        t = (t[:-k] + "." + t[-k:]).rstrip("0").rstrip(".")
    return ("-" if rng.random() < .4 and t != "0" else "") + t


def gen(rng, nwalks, steps):
    cmds = []
    for _ in range(nwalks):
        n, segs, net = 0, [], []
        for j in range(rng.choice([0, 1, 1, 2, 3, 4])):
            ss = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                ls = []
                for _ in range(rng.choice([1, 1, 2, 3, 4])):
                    ls.append({"id": "l:%d" % n, "x": rng.randint(-300, 300), "y": rng.randint(-300, 300), "z": rng.randint(-9, 9), "q": rng.randrange(4),
                               "len": rng.choice([1, 10, 75, 900, 12345])})
                    n += 1
                ss.append({"id": "s_%d" % len(segs), "lanes": ls})
                segs.append(ss[-1]["id"])
            net.append({"id": "j%d" % j, "segments": ss})
        cmds.append({"op": "new", "net": net})
        for _ in range(steps):
            x = rng.random()
            if x < .35:
                cmds.append({"op": "Network", "o": {k: rng.random() < .6 for k in ("labels", "geometry", "junctions", "segments", "lanes", "details")}})
            elif x < .55:
                have = [s for s in segs if rng.random() < .8]
                rng.shuffle(have)
                edges = [{"id": "e%d" % i, "a": "n%d" % rng.randrange(5), "b": "n%d" % rng.randrange(5), "seg": s} for i, s in enumerate(have)]
                route = [rng.choice(have if rng.random() < .93 else segs) for _ in range(rng.choice([0, 1, 2, 3, 3, 5, 9]))] if have else []
                cmds.append({"op": "Dot", "edges": edges, "route": route})
            elif x < .75:
                cmds.append({"op": "Fixed", "n": rng.choice([1, -1]) * rng.choice([0, 1, rng.randint(0, 20), rng.randint(0, 4095)]), "k": rng.randint(0, 6), "p": rng.choice([-1, 0, 0, 1, 1, 2, 2, 3, 4, 5])})
            elif x < .92:
                k = rng.choice(["inertial", "lane", "rotation", "quaternion", "vector", "vector", "id"])
                v = [number(rng, 15 if k == "vector" else 6) for _ in range({"quaternion": 4, "vector": rng.randint(2, 4)}.get(k, 3))]
                if k == "rotation":
                    v = [rng.choice(["0", "0", "0.5", "-1.25", "1"]) if i == rng.randrange(3) else "0" for i in range(3)]
                if k == "id":
                    v = [rng.choice(["a", "l:1_0", "x y", "0"])]
                cmds.append({"op": "Say", "kind": k, "v": v})
            elif x < .97:
                m = rng.choice([2, 3, 4])
                cmds.append({"op": "Matrix", "n": m, "v": [number(rng, 12) for _ in range(m * m)]})
            else:
                cmds.append({"op": "Names", "type": rng.choice(["end", "relation", "color", "bulb", "state", "usage", "level"])})
    cmds.append({"op": "new", "net": []})
    cmds += [{"op": "Names", "type": t} for t in ("end", "relation", "color", "bulb", "state", "usage", "level")]
    cmds += [{"op": "Fixed", "n": s * n, "k": k, "p": p} for n in (0, 1, 3, 7, 31, 63, 64) for s in (1, -1) for k in (0, 1, 3, 5) for p in range(4)]
    return cmds


def main():
    c = Check("C27")
    exe, = c.build("describe")
    cmds = gen(c.rng, 1200 if c.thorough else 200, 40)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_Describe", cmds, parts=8)), "random")
    return c.finish()
