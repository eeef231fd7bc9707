"""C19: k-d tree searches and axis-aligned boxes.  spec/KdTree.tla"""
from vlib import *


def gen(rng, nwalks, steps):
    cmds = []
    for _ in range(nwalks):
        d = rng.choice([1, 2, 3, 3, 3, 3, 4])
        n = rng.choice([1, 2, 3, 4, 5, 7, 8, 15, 16, 30, 60])
        hi = rng.choice([1, 2, 4, 12, 30])
        big = d == 3 and rng.random() < .12       # enough points for regions that are bounded on every side
        if big:
            n, hi = rng.choice([100, 200, 300]), rng.choice([4, 12, 30])
        dims = [hi if big or rng.random() < .8 else 0 for _ in range(d)]     # flat and collinear sets too
        base = [rng.choice([0, 0, -x // 2, -x // 2, -x, -x - 3, 5]) for x in dims]

        def P(m=0):
            return [o + rng.randrange(-m, x + 1 + m) for o, x in zip(base, dims)]
        pts = [P() for _ in range(n)]
        if rng.random() < .4:
            pts += [rng.choice(pts) for _ in range(rng.randrange(1, 6))]
        if rng.random() < .2:
            pts.sort()
        cmds.append({"op": "new", "pts": pts, "u": rng.choice([1, .25, 1 / 1024., 64]), "iter": rng.random() < .3,
                     "plain": d == 3 and rng.random() < .2})
        plain = cmds[-1]["plain"]

        def box(tols=(0, 0, 0, 0, 1, 2)):
            a, b = P(2), P(2)
            if big and len(dims) == 3 and rng.random() < .7:
                a = [o + rng.randrange(-1, x // 3 + 1) for o, x in zip(base, dims)]
                b = [o + x + 1 - rng.randrange(0, x // 3 + 1) for o, x in zip(base, dims)]
            if rng.random() < .15:
                b = a
            lo, up = [min(x, y) for x, y in zip(a, b)], [max(x, y) for x, y in zip(a, b)]
            for k in range(len(lo)):
                if rng.random() < .06:
                    lo[k] = -1000
                if rng.random() < .06:
                    up[k] = 1000
            return {"lo": lo, "hi": up, "tol": rng.choice(tols), "zero": rng.random() < .5}
        for _ in range(steps):
            x = rng.random()
            if x < .45 or (d != 3 or plain) and x < .95:
                q = list(rng.choice(pts)) if rng.random() < .15 else P(3)
                cmds.append({"op": "Nearest", "q": q, "tol": rng.choice([-1000] * 5 + [-1, 0, 1, 1, 2, 5])})
            elif x < .8 and d == 3 and not plain:
                cmds.append({"op": "Range", "b": box()})
            elif x < .98:
                keep = dims, base, big
                dims, base, big = [rng.randrange(1, 6)] * 3, [rng.choice([0, -2, -9]) for _ in range(3)], False
                a, b = box(), box()
                if rng.random() < .1:
                    b = dict(a, tol=b["tol"])
                if rng.random() < .05:
                    k = rng.randrange(3)
                    a["lo"][k], a["hi"][k] = 3, 2
                if rng.random() < .03:
                    b["tol"] = -1
                cmds.append({"op": "Boxes", "a": a, "b": b, "p": P(3)})
                dims, base, big = keep
            else:
                cmds.append({"op": "BuildEmpty"})
    return cmds


def main():
    c = Check("C19")
    exe, = c.build("kdtree")
    c.tlc_ok("MC_KdTree", cfg="MC_KdTree_big.cfg" if c.thorough else "MC_KdTree.cfg")
    n, s = (1500, 150) if c.thorough else (300, 90)
    cmds = gen(c.rng, n, s)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_KdTree", cmds)), "random")
    return c.finish()
