"""C22: rotations, matrices and vectors.  spec/Rotations.tla"""
from math import isqrt
from vlib import *

# (axis, its integer length)
AXES = [([1, 0, 0], 1), ([0, 1, 0], 1), ([0, 0, 1], 1), ([0, 0, -2], 2), ([0, 3, 4], 5), ([-3, 0, 4], 5), ([1, 2, 2], 3),
        ([2, -1, 2], 3), ([-2, 2, -1], 3), ([2, 3, 6], 7), ([0, 0, 0], 0)]


def gen(rng, nwalks, steps):
    cmds = []

    def I(m):
        return rng.randrange(-m, m + 1)

    def V(n, m=3):
        return [I(m) * (rng.random() < .8) for _ in range(n)]

    def quat(m=3, zero=False):
        q = quat1(m)
        return q if any(q) or zero else [1, 0, 0, 0]

    def quat1(m):
        return rng.choice([[I(m) for _ in range(4)], V(4, 2), [I(1) for _ in range(4)],
                           [rng.choice([-1, 1]) if k in rng.sample(range(4), 2) else 0 for k in range(4)]])

    def M(n, m=3):
        w = rng.random()
        a = [V(n, m) for _ in range(n)]
        if w < .2:
            a[rng.randrange(n)] = list(a[rng.randrange(n)])
        elif w < .3:
            a = [[int(i == j) for j in range(n)] for i in range(n)]
        return a

    def text(n):
        if rng.random() < .6:
            v = [rng.choice([0, 1, 7, 42, 1000, -3, -250]) for _ in range(n)]
            sp = lambda: rng.choice(["", "", " ", "  ", "\t"])
            num = lambda x: rng.choice([str(x), str(x), "%d.0" % x, "%de0" % x, "+%d" % x if x > 0 else str(x)])
            return "{" + ",".join(sp() + num(x) + sp() for x in v) + "}", v
        parts = [rng.choice(["1", "2", "-3"]) for _ in range(n)]
        w = rng.randrange(9)
        if w == 0:
            parts[rng.randrange(n)] = rng.choice(["a", "", "x1", " "])
        elif w == 1:
            parts[rng.randrange(n)] = rng.choice(["1 2", "1a", "1-", "3.5.2"])
        elif w == 2:
            parts = parts[:-1] if rng.random() < .5 else parts + ["4"]
        s = "{" + ", ".join(parts) + "}"
        if w == 3:
            s = s[1:]
        elif w == 4:
            s = s[:-1]
        elif w == 5:
            s = "}" + s[1:-1] + "{"
        elif w == 6:
            s = rng.choice(["x", "7", "1 "]) + s
        elif w == 7:
            s = s + rng.choice(["x", "7", " 1"])
        elif w == 8:
            s = rng.choice(["{" + s + "}", "", "{}", s + s, "[" + s[1:-1] + "]"])
        if w == 2 and n == 1 and parts == []:
            s = "{}"
        return s, []

    for _ in range(nwalks):
        d = 1
        cmds.append({"op": "new"})
        for _ in range(steps):
            w = rng.random()
            if w < .12:
                q = quat(3, True)
                d = sum(x * x for x in q) or 1
                cmds.append({"op": "SetQuat", "q": q})
            elif w < .22:
                d = 125
                cmds.append({"op": "SetRpy", "o": [rng.randrange(1, 9) for _ in range(3)]})
            elif w < .27:
                a, n = rng.choice(AXES)
                k = rng.randrange(1, 9)
                d = 5 * n * n or 1
                cmds.append({"op": "SetAxis", "a": a, "n": n, "k": k})
            elif w < .3:
                while True:
                    (a, n), (b, m) = rng.choice(AXES), rng.choice(AXES)
                    h = n * m + sum(x * y for x, y in zip(a, b))
                    if n * m and h > 0:
                        break
                d = n * m * h
                cmds.append({"op": "SetTwo", "a": a, "b": b, "n": n * m})
            elif w < .36:
                q = quat(2)
                n = sum(x * x for x in q) or 1
                if d * n <= 4000:
                    d *= n
                    cmds.append({"op": rng.choice(["After", "Before"]), "q": q})
            elif w < .4:
                cmds.append({"op": rng.choice(["Reverse", "Invert"])})
            elif w < .44:
                cmds.append({"op": "Apply", "v": V(3, 5)})
            elif w < .52:
                cmds.append({"op": "Compare", "q": quat(2)})
            elif w < .56:
                ax, l = rng.choice(AXES[:9])
                a = rng.choice([5, 6, 7])
                n = rng.randrange(1, 4 if a == 6 else 5)
                if d * 625 * l * l < 40000000:
                    cmds.append({"op": "Slerp", "ax": ax, "l": l, "a": a, "n": n, "k": rng.randrange(n + 1), "neg": rng.random() < .4})
            elif w < .63:
                a = V(3, 4)
                b = rng.choice([V(3, 4), [-x for x in a], list(a), [-2 * x for x in a], [x * 3 for x in a], [a[1], -a[0], 0]])
                if any(a) and any(b):
                    cmds.append({"op": "Two", "a": a, "b": b})
            elif w < .68:
                cmds.append({"op": "Dt", "o": [rng.randrange(1, 9) for _ in range(3)], "v": V(3)})
            elif w < .72:
                p = quat()
                q = rng.choice([quat(), list(p), [x + rng.choice([0, 0, 1]) for x in p], [-x for x in p]])
                cmds.append({"op": "Quats", "p": p, "q": q, "k": rng.randrange(0, 12)})
            elif w < .79:
                n = rng.choice([2, 3, 3, 4])
                a = M(n)
                cmds.append({"op": "Mats", "m": a, "n": rng.choice([M(n), a]), "v": V(n)})
            elif w < .83:
                n = rng.choice([2, 3, 4])
                cmds.append({"op": "Cell", "m": M(n), "i": rng.randrange(n + 1), "j": rng.randrange(n + 1)})
            elif w < .88:
                n = rng.choice([1, 2, 3, 3, 4])
                u = V(n, 6)
                cmds.append({"op": "Vecs", "u": u, "v": rng.choice([V(n, 6), u])})
            elif w < .94:
                n = rng.choice([1, 2, 3, 4])
                s, v = text(n)
                cmds.append({"op": "Parse", "n": n, "text": s, "v": v})
            elif w < .96:
                cmds.append({"op": "Saturate", "x": I(4), "lo": I(3), "hi": I(3)})
            elif w < .99:
                while True:
                    x = {"op": "Validate", "x": I(12), "lo": I(4), "hi": I(9), "tol": rng.choice([0, 1, 2, 3, 3, -1]), "eps": rng.choice([0, 0, 1, 1, 2, 4, -1]),
                         "rel": rng.random() < .4}
                    w = (x["hi"] - x["lo"]) * x["eps"]
                    e = w // 8 if x["rel"] else x["eps"]
                    if (not x["rel"] or w % 8 == 0) and (x["lo"] + e > x["hi"] or x["lo"] + 2 * e <= x["hi"]):
                        break
                cmds.append(x)
            else:
                cmds.append({"op": "Bounds", "lo": I(2), "hi": I(2)})
    return cmds


def main():
    c = Check("C22")
    exe, = c.build("rotations")
    n, s = (1200, 100) if c.thorough else (250, 80)
    cmds = gen(c.rng, n, s)
    answers = c.oracle("OR_Rotations", cmds, parts=8)
    for x, y in zip(cmds, answers):    # denominators and cosines, which the driver divides by or takes angles of
        x.update({k: y["a"][k] for k in ("d", "den", "cos", "trace") if k in y["a"]})
    c.replay(exe, c.walks_of_oracle(cmds, answers), "random")
    return c.finish()
