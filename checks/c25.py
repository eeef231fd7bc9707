"""C25: the comparison helpers.  spec/Compare.tla"""
import copy
from vlib import *

# Schemas: ("of", [values]) | ("list", schema, min, max, unique) | ("map", keys, schema, min) | ("opt", schema) | {field: schema}
ID = ("of", ["a", "b", "c"])
NUM = ("of", [0, 1, 2, 3])


def lst(s, lo=0, hi=3, unique=False):
    return ("list", s, lo, hi, unique)


RANGE = {"lane": ID, "s0": ("of", [0, 1, 2]), "s1": ("of", [3, 4, 5])}
ZONE = lst(RANGE, 1, 3)
IDS = lst(ID, 1, 3, True)
DV = {"sev": ("of", [0, 1, 2]), "text": ("of", ["x", "y"]), "rr": ("map", ["g", "h"], IDS, 0), "ru": ("map", ["g", "h"], IDS, 0)}
RV = dict(DV, min=("of", [0, 1]), max=("of", [2, 3]))
DVMAP = ("map", ["a", "b", "c"], DV, 0)
RSTATES = ("map", ["a", "b", "c"], ("of", ["go", "stop"]), 0)
BSTATES = ("map", ["a", "b", "c"], ("of", ["Off", "On", "Blinking"]), 0)
NEXT = {"id": ID, "dur": ("opt", NUM)}
DUV = {"type": ("of", ["WithS", "AgainstS", "Bidirectional", "BidirectionalTurnOnly", "NoUse", "Parking"]), "sev": ("of", ["strict", "preferred"])}
RWT = ("of", ["go", "stop", "stopthengo"])
RWV = {"type": RWT, "yield": lst(ID, 0, 2, True)}
GROUPS = ("map", ["a", "b", "c"], IDS, 0)
K3 = ("of", [0, 1, 2, 3])
BULB = {"id": ID, "pos": K3, "rot": K3, "color": ("of", ["Red", "Yellow", "Green"]), "type": ("of", ["Round", "Arrow"]), "arrow": ("opt", NUM),
        "states": lst(("of", ["Off", "On", "Blinking"]), 1, 3, True), "bb": ("of", list(range(7)))}
BULBS = lst(BULB, 1, 3, "id")
GROUP = {"id": ID, "pos": K3, "rot": K3, "bulbs": BULBS}
PTR = ("of", [0, 1, 2, 3])
KINDS = {
    "bool": ("of", [True, False]), "double": NUM, "size": ("of", [0, 1, 2, 1000000]), "id": ID, "junction": PTR, "segment": PTR, "lane": PTR,
    "branch": PTR, "inertial": K3, "rotation": K3, "which": ("of", ["start", "finish"]), "srange": {"s0": ("of", [0, 1, 5]), "s1": ("of", [0, 2, 5])},
    "lane-range": RANGE, "lane-ranges": lst(RANGE, 0, 3), "route": ZONE, "lane-end": {"lane": PTR, "end": ("of", ["start", "finish"])},
    "lane-end-equal": {"lane": PTR, "end": ("of", ["start", "finish"])}, "dv": DV, "dvs": lst(DV, 0, 3), "dv-map": DVMAP,
    "dv-rule": {"id": ID, "type": ID, "zone": ZONE, "values": lst(DV, 1, 3, True)}, "rv": RV, "rvs": lst(RV, 0, 3),
    "rv-rule": {"id": ID, "type": ID, "zone": ZONE, "values": lst(RV, 1, 3, True)}, "rule-states": RSTATES,
    "phase": {"id": ID, "rules": RSTATES, "values": DVMAP, "bulbs": ("opt", BSTATES)}, "next": NEXT, "nexts": lst(NEXT, 0, 3),
    "du-type": DUV["type"], "du-sev": DUV["sev"], "du-state": dict(DUV, id=ID), "du-map": ("map", ["a", "b", "c"], DUV, 0),
    "du-rule": {"id": ID, "zone": RANGE, "states": ("map", ["a", "b", "c"], DUV, 1)}, "rw-type": RWT, "rw-zone": ("of", ["stop", "nostop"]),
    "rw-ids": lst(ID, 0, 3), "rw-state": {"id": ID, "v": RWV}, "rw-map": ("map", ["a", "b", "c"], RWV, 0),
    "rw-rule": {"id": ID, "zone": ZONE, "ztype": ("of", ["stop", "nostop"]), "states": ("map", ["a", "b", "c"], RWV, 1), "groups": GROUPS},
    "rw-result": {"state": ID, "next": ("opt", NEXT)}, "sl-sev": ("of", ["strict", "advisory"]),
    "sl-rule": {"id": ID, "zone": RANGE, "sev": ("of", ["strict", "advisory"]), "min": ("of", [0, 1]), "max": ("of", [2, 3])},
    "groups": GROUPS, "color": BULB["color"], "bulb-type": BULB["type"], "bulb-state": ("of", ["Off", "On", "Blinking"]), "bulbs": ("opt", BSTATES),
    "opt-double": ("opt", NUM), "box": BULB["bb"], "bulb": BULB, "bulb-list": lst(BULB, 0, 3), "group": GROUP,
    "light": {"id": ID, "pos": K3, "rot": K3, "groups": lst(GROUP, 1, 2, "id")},
}
CLOSE = {"inertial": 3, "lane-position": 3, "rotation": 3, "r-bounds": 2, "h-bounds": 2, "lane-result": 7, "road": 7, "phase-position": 7, "route-position": 7}


def number(vs):
    return [{"i": i + 1, "v": v} for i, v in enumerate(vs)]


def gen(rng, s):
    if isinstance(s, dict):
        v = {k: gen(rng, x) for k, x in s.items()}
        if "arrow" in v:
            fix(rng, v)
        return v
    if s[0] == "of":
        return rng.choice(s[1])
    if s[0] == "opt":
        return number([gen(rng, s[1])] if rng.random() < .6 else [])
    if s[0] == "map":
        ks = rng.sample(s[1], rng.randint(s[3], len(s[1])))
        return [{"k": k, "v": gen(rng, s[2])} for k in ks]
    out, n = [], rng.randint(s[2], s[3])
    for _ in range(40):
        if len(out) == n:
            break
        v = gen(rng, s[1])
        if not clash(s, out, v):
            out.append(v)
    return number(out)


def clash(s, out, v):
    if s[4] == "id":
        return any(v["id"] == w["id"] for w in out)
    return bool(s[4]) and v in out


def fix(rng, v):
    if v["type"] == "Arrow" and not v["arrow"]:
        v["arrow"] = number([rng.choice([0, 1, 2, 3])])
    if v["type"] != "Arrow":
        v["arrow"] = []


def other(rng, s, v):
    """v with one thing changed somewhere inside."""
    v = copy.deepcopy(v)
    if isinstance(s, dict):
        k = rng.choice(sorted(s))
        v[k] = other(rng, s[k], v[k])
        if "arrow" in v:
            fix(rng, v)
        return v
    if s[0] == "of":
        return rng.choice([x for x in s[1] if x != v] or [v])
    if s[0] == "opt":
        return number([] if v and rng.random() < .5 else [other(rng, s[1], v[0]["v"]) if v else gen(rng, s[1])])
    if s[0] == "map":
        r = rng.random()
        free = [k for k in s[1] if k not in [e["k"] for e in v]]
        if v and r < .5:
            n = rng.randrange(len(v))
            v[n]["v"] = other(rng, s[2], v[n]["v"])
        elif free and r < .7:
            v.append({"k": rng.choice(free), "v": gen(rng, s[2])})
        elif free and v and r < .85:
            v[rng.randrange(len(v))]["k"] = rng.choice(free)
        elif len(v) > s[3]:
            v.pop(rng.randrange(len(v)))
        rng.shuffle(v)
        return v
    vs = [e["v"] for e in v]
    old = list(vs)
    for _ in range(20):
        vs = list(old)
        r = rng.random()
        if vs and r < .45:
            n = rng.randrange(len(vs))
            vs[n] = other(rng, s[1], vs[n])
        elif r < .6 and len(vs) < s[3]:
            vs.insert(rng.randrange(len(vs) + 1), gen(rng, s[1]))
        elif r < .7 and len(vs) > s[2]:
            vs.pop(rng.randrange(len(vs)))
        elif r < .8 and len(vs) > 1:
            vs[rng.randrange(len(vs))] = copy.deepcopy(rng.choice(vs))
        elif r < .95:
            rng.shuffle(vs)
        if all(not clash(s, vs[:n], x) for n, x in enumerate(vs)):
            break
        vs = list(old)
    return number(vs)


def build(rng, per):
    cmds = []
    for kind, s in sorted(KINDS.items()):
        cmds.append({"op": "new", "u": rng.choice([1, .125, 16])})
        if isinstance(s, tuple) and s[0] == "of":
            for a in s[1]:
                for b in s[1]:
                    cmds.append({"op": "Equal", "kind": kind, "a": a, "b": b})
            continue
        for _ in range(per):
            a = gen(rng, s)
            b = copy.deepcopy(a)
            for _ in range(rng.choice([0, 1, 1, 1, 1, 1, 2, 4])):
                b = other(rng, s, b)
            if rng.random() < .05:
                b = gen(rng, s)
            cmds.append({"op": "Equal", "kind": kind, "a": a, "b": b})
    for kind, n in sorted(CLOSE.items()):
        cmds.append({"op": "new", "u": rng.choice([1, .125, 16])})
        for _ in range(per):
            tol = rng.choice([0, 1, 2, 3])
            lo = 0 if "bounds" in kind else -9
            a = {"x": [rng.randint(lo, 9) for _ in range(n)]}
            b = copy.deepcopy(a)
            for k in range(n):
                if rng.random() < .5:
                    b["x"][k] = max(lo, b["x"][k] + rng.randint(-tol, tol))
            if rng.random() < .6:
                k = rng.randrange(n)
                b["x"][k] = a["x"][k] + rng.choice([1, -1]) * rng.choice([tol, tol + 1, tol + 1, tol + 4])
                b["x"][k] = max(lo, b["x"][k])
            if kind == "road":
                a["lane"] = rng.choice([0, 1, 1, 1, 2, 3])
                b["lane"] = a["lane"] if rng.random() < .8 else rng.randrange(4)
            if kind in ("phase-position", "route-position"):
                a["index"], a["phase"] = rng.randrange(3), rng.randrange(3)
                b["index"], b["phase"] = a["index"], a["phase"]
                if rng.random() < .2:
                    b[rng.choice(["index", "phase"])] = rng.randrange(3)
            cmds.append({"op": "Close", "kind": kind, "a": a, "b": b, "tol": tol})
    for _ in range(8):
        cmds.append({"op": "new", "u": 1})
        for _ in range(per):
            n, m = rng.choice([2, 3, 4]), rng.random() < .5
            tol = rng.choice([0, 0, 1, 4, 8, 16])

            def entry():
                return {"c": rng.choice(["num"] * 12 + ["nan", "inf", "-inf"]), "v": 0}
            a = [entry() for _ in range(n * n if m else n)]
            for e in a:
                if e["c"] == "num":
                    e["v"] = rng.randint(-12, 12) * rng.choice([1, 1, 1, 8])
            b = copy.deepcopy(a)
            for e in b:
                if e["c"] == "num" and rng.random() < .5:
                    e["v"] += rng.randint(-tol, tol) // 4
            if rng.random() < .7:
                k = rng.randrange(len(b))
                if rng.random() < .4:
                    b[k] = entry()
                else:
                    b[k] = {"c": "num", "v": rng.choice([1, -1]) * (a[k]["v"] + rng.choice([-1, 1]) * rng.choice([0, 1, tol // 4, tol // 4 + 1, 2 * tol]))}
                if b[k]["c"] == "num" and rng.random() < .2:
                    b[k]["v"] = -a[k]["v"]
            cmds.append({"op": "Array", "a": a, "b": b, "tol": tol, "relative": rng.random() < .5, "matrix": m, "size": n})
    words = ["a", "b", "a-b", "b-a", "aa"]
    for kind in ("typed", "unique", "bulb", "bulb-group", "range", "end"):
        cmds.append({"op": "new", "u": rng.choice([1, .125])})
        for _ in range(per):
            def key():
                if kind in ("typed", "unique"):
                    return rng.choice(words)
                if kind == "range":
                    return gen(rng, RV)
                if kind == "end":
                    return gen(rng, KINDS["lane-end"])
                return {k: rng.choice(words) for k in ("tgb" if kind == "bulb" else "tg")}
            vs = [key() for _ in range(rng.randint(2, 4))]
            if kind == "range" and rng.random() < .8:
                vs = [other(rng, RV, vs[0]) for _ in vs]
            cmds.append({"op": "Keys", "kind": kind, "vs": vs})
    cmds.append({"op": "new", "u": 1})
    for n in range(5):
        for bits in range(2 ** n):
            cmds.append({"op": "Collect", "fails": [bool(bits >> k & 1) for k in range(n)]})
    parts = [{"what": w, "id": j + x} for w, x in (("junction", ""), ("segment", "s"), ("lane", "l"), ("branch", "p")) for j in "abc"]
    cmds.append({"op": "Index", "faults": []})
    for p in parts:
        for how in ("missing", "other"):
            cmds.append({"op": "Index", "faults": [dict(p, how=how)]})
    for _ in range(20):
        cmds.append({"op": "Index", "faults": [dict(p, how=rng.choice(["missing", "other"])) for p in rng.sample(parts, 2)]})
    return cmds


def main():
    c = Check("C25")
    exe, = c.build("compare")
    cmds = build(c.rng, 1500 if c.thorough else 250)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_Compare", cmds, parts=8)), "pairs")
    return c.finish()
