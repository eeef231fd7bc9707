"""C29: the value types of the API.  spec/ValueTypes.tla"""
from vlib import *


def related(rng):
    keys = rng.sample(["k", "m", "Yield Group"], rng.choice([0, 0, 1, 2]))
    if rng.random() < .04:
        keys.append("")
    out = []
    for k in keys:
        of = rng.sample(["x", "y", "z", "w"], rng.randint(0, 3))
        if of and rng.random() < .08:
            for x in [rng.choice(of)] * rng.choice([1, 1, 2, 3]):
                of.insert(rng.randint(0, len(of)), x)
        out.append({"key": k, "of": of})
    return out


def states(rng, kind):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5])
    out = []
    for i in range(n):
        s = {"sev": rng.choice([0, 0, 0, 1, 2]) if rng.random() > .05 else -1, "rules": related(rng), "uids": related(rng)}
        if kind == "dv":
            s["value"] = rng.choice(["a", "b", "c", ""])
        else:
            a, b = sorted([rng.randint(-4, 4), rng.randint(-4, 4)])
            if rng.random() < .06:
                a, b = b, a
            s.update({"min": a, "max": b, "desc": rng.choice(["d", "e", ""])})
        out.append(s)
    if out and rng.random() < .15:
        for x in [rng.choice(out)] * rng.choice([1, 1, 2]):
            out.insert(rng.randint(0, len(out)), dict(x))
    # (whether the order of related ids tells states apart is not documented)
    key = lambda s: json.dumps({**s, **{f: sorted([r["key"], sorted(r["of"])] for r in s[f]) for f in ("rules", "uids")}}, sort_keys=True)
    seen, res = {}, []
    for s in out:
        s = seen.setdefault(key(s), s)
        res.append(s)
    return res


def rule(rng):
    k = rng.choice(["sl", "du", "rw", "dv", "rv"])
    c = {"id": rng.choice(["i", "j"]), "lane": rng.choice(["l1", "l2"])}
    ids = ["a", "b", "c", "d", "e", "f"]
    if k == "sl":
        c.update({"sev": rng.choice(["strict", "advisory"]), "min": rng.randint(-1, 4), "max": rng.randint(-1, 4)})
    elif k == "du":
        ss = [{"id": i, "type": rng.choice(["WithS", "AgainstS", "Bidirectional", "NoUse", "Parking"]), "sev": rng.choice(["strict", "preferred"])}
              for i in rng.sample(ids, rng.choice([0, 1, 1, 1, 2, 3]))]
        if len(ss) > 1:
            ss.insert(rng.randint(0, len(ss)), {**rng.choice(ss), "type": "NoUse"})
        c["states"] = ss
    elif k == "rw":
        ss = [{"id": i, "type": rng.choice(["Go", "Stop", "StopThenGo"]), "yield": rng.sample(["y1", "y2", "y3"], rng.randint(0, 3))}
              for i in rng.sample(ids, rng.randint(0, 5))]
        if ss and rng.random() < .2:
            ss.insert(rng.randint(0, len(ss)), {**rng.choice(ss), "type": "Go"})
        gs = []
        for t in rng.sample(["t1", "t2", "t3"], rng.randint(0, 3)):
            b = rng.sample(["g", "h", "k"], rng.randint(0, 3))
            if b and rng.random() < .1:
                for x in [rng.choice(b)] * rng.choice([1, 1, 2]):
                    b.insert(rng.randint(0, len(b)), x)
            gs.append({"light": t, "bulbs": b})
        c.update({"stop": rng.random() < .5, "states": ss, "groups": gs})
    else:
        c.update({"type": rng.choice(["T", "U"]), "states": states(rng, k)})
    return {"op": "Rule", "k": k, "c": c}


def gen(rng, nwalks, steps):
    cmds = []
    strings = ["", " ", "a", "A", "b", "ab", "ba", "a b", "aa", "0", "a\u00e9", "a" * 40, "a" * 39 + "b"]
    for _ in range(nwalks):
        cmds.append({"op": "new"})
        for _ in range(steps):
            x = rng.random()
            n = lambda: rng.choice([0, rng.randint(-9, 9), rng.randint(-300, 300)])
            if x < .12:
                cmds.append({"op": "Bound", "w": rng.choice("rh"), "how": rng.choice(["make", "min", "max"]), "a": rng.choice([-n(), -abs(n())]),
                             "b": rng.choice([n(), abs(n())])})
            elif x < .24:
                cmds.append({"op": "Place", "w": rng.choice("pql"), "how": rng.choice(["make", "from", "set", "x", "y", "z"]), "x": n(), "y": n(), "z": n()})
            elif x < .34:
                cmds.append({"op": "Combine", "w": rng.choice("pq"), "how": rng.choice(["plus", "minus", "left", "right"]), "n": rng.randint(-3, 3)})
            elif x < .5:
                cmds.append({"op": "Identify", "how": rng.choice(["insert", "insert", "erase", "equal", "equal"]), "s": rng.choice(strings)})
            elif x < .58:
                cmds.append({"op": "EndOp", "how": rng.choice(["insert", "insert", "erase"]), "l": rng.randint(0, 4), "e": rng.choice(["start", "finish"])})
            elif x < .64:
                a = rng.randint(-20, 20)
                cmds.append({"op": "Validator", "mode": rng.choice(["abs", "rel"]), "a": a, "b": a + rng.choice([-1, 0, 1, 2, rng.randint(0, 30)]),
                             "t": rng.randint(-1, 60), "e": rng.choice([0, 1, rng.randint(-1, 40)])})
            elif x < .76:
                cmds.append({"op": "Validate", "s": rng.randint(-400, 900)})
            else:
                cmds.append(rule(rng))
    return cmds


def main():
    c = Check("C29")
    exe, = c.build("valuetypes")
    c.replay(exe, c.walks_of_graph(c.graph("MC_ValueTypes")), "graph")
    cmds = gen(c.rng, 2000 if c.thorough else 300, 60)
    # Steps the specification does not take are not asked of the code either.
    done = [(x, a) for x, a in zip(cmds, c.oracle("OR_ValueTypes", cmds)) if a["a"]["op"] != "Skip"]
    c.replay(exe, c.walks_of_oracle([x for x, _ in done], [a for _, a in done]), "random")
    return c.finish()
