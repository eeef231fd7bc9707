"""C20: oriented bounding boxes.  spec/Boxes.tla"""
from vlib import *


def gen(rng, nwalks, steps):
    cmds = []
    for _ in range(nwalks):
        span = rng.choice([2, 4, 8])
        turn = rng.choice(["any", "any", "yaw", "one", "quarter"])

        def P(m=span):
            return [rng.randrange(-m, m + 1) for _ in range(3)]

        def box():
            if turn == "any":
                o = [rng.randrange(1, 9) for _ in range(3)]
            elif turn == "yaw":
                o = [1, 1, rng.randrange(1, 9)]
            elif turn == "one":
                o = [1, 1, 1]
                o[rng.randrange(3)] = rng.randrange(1, 9)
            else:
                o = [rng.randrange(1, 5) for _ in range(3)]
            return {"c": P(), "h": [rng.choice([0, 1, 1, 2, 3, 6]) for _ in range(3)], "o": o, "tol": rng.choice([0, 0, 0, 0, 1, 2])}
        a = box()
        cmds.append({"op": "new", "u": rng.choice([1, .25, 16]), "a": a, "b": box()})
        for _ in range(steps):
            w = rng.choice("ab")
            if rng.random() < .6:
                x = box()
                if rng.random() < .06:
                    x["h"][rng.randrange(3)] = -1
                elif rng.random() < .03:
                    x["tol"] = -1
                elif rng.random() < .15:
                    x = dict(a, h=[rng.randrange(k + 1) for k in a["h"]])
                    w = "b"
                if w == "a" and min(x["h"]) >= 0 and x["tol"] >= 0:
                    a = x
                cmds.append({"op": "Make", "which": w, "box": x})
            else:
                cmds.append({"op": "Contains", "which": w, "p": P(2 + span)})
    return cmds


def main():
    c = Check("C20")
    exe, = c.build("boxes")
    n, s = (900, 60) if c.thorough else (300, 40)
    cmds = gen(c.rng, n, s)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_Boxes", cmds, parts=8)), "random")
    return c.finish()
