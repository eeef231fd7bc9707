"""C28: arc length integrators.  spec/ArcLen.tla"""
from vlib import *


def gen(rng, nwalks, steps):
    cmds = []
    for _ in range(nwalks):
        cmds.append({"op": "new"})
        kind = rng.choice(["arc", "arc", "inv", "inv", "poly"])
        how = rng.choice([1, 4]) if kind == "inv" and rng.random() < .5 else rng.randint(1, 6)
        # with k2 * k2 < 3 * k1 the integrand is positive all along
        ks = rng.sample([[1, 0], [2, 1], [3, 2], [5, -1], [4, 3], [1, -1]], 3)
        cmds.append({"op": "Open", "c": {"kind": kind, "lo": rng.randint(-3, 3), "im": 0 if kind == "arc" else rng.randint(-3, 6)}, "how": how})
        top = {"arc": 12, "inv": 5, "poly": 6}[kind]
        k = rng.choice(ks)
        for _ in range(steps):
            if rng.random() < .3:
                k = rng.choice(ks)
            x, n = rng.random(), rng.randint(1, top)
            if x < .35:
                cmds.append({"op": "Evaluate", "k": k, "n": rng.choice([rng.randint(0, top), rng.randint(0, top), rng.randint(-3, top)])})
            elif x < .42:
                cmds.append({"op": "EvaluateBroken", "k": k, "n": n, "m": rng.randint(1, n)})
            elif x < .6:
                a, b = sorted(rng.sample(range(0, top + 1), 2))
                if rng.random() < .1:
                    a = -rng.randint(1, 3)
                    b = rng.choice([b, b, a + 1 if a < -1 else b])
                cmds.append({"op": "Make", "s": rng.choice("ab"), "k": k, "a": a, "b": b, "tol": rng.choice([1, 10, 300])})
            elif x < .65:
                a, b = sorted(rng.sample(range(0, top + 1), 2))
                cmds.append({"op": "MakeBroken", "s": rng.choice("ab"), "k": k, "a": a, "b": b, "m": rng.randint(1, b)})
            elif x < .66:
                cmds.append({"op": "Drop"})
            else:
                cmds.append({"op": "Call", "s": rng.choice("ab"), "n": rng.randint(0, top),
                             "side": rng.choice(["at", "at", "at", "nearbelow", "nearabove", "farbelow", "farabove"])})
    return cmds


def main():
    c = Check("C28")
    exe, = c.build("arclen")
    c.replay(exe, c.walks_of_graph(c.graph("MC_ArcLen")), "graph")
    cmds = gen(c.rng, 3000 if c.thorough else 300, 40)
    # Steps the specification does not take are not asked of the code either.
    done = [(x, a) for x, a in zip(cmds, c.oracle("OR_ArcLen", cmds)) if a["a"]["op"] != "Skip"]
    # (the arguments are those the specification worked out)
    c.replay(exe, c.walks_of_oracle([{k: v for k, v in a["a"].items() if k != "res"} for _, a in done], [a for _, a in done]), "random")
    return c.finish()
