"""C17: loading descriptions.  spec/Loaders.tla"""
from vlib import *
import copy

LANES = [{"id": "p", "len": 10}, {"id": "q", "len": 20}, {"id": "w", "len": 5}]
ROW = ["Go", "Stop", "StopThenGo"]


def tree(x):
    if isinstance(x, dict):
        return {"t": "map", "kv": [{"k": k, "v": tree(v)} for k, v in x.items()]}
    if isinstance(x, list):
        return {"t": "seq", "v": [tree(v) for v in x]}
    return {"t": "num" if isinstance(x, int) else "str", "v": x}


def shuffled(rng, d):
    ks = list(d)
    rng.shuffle(ks)
    return {k: d[k] for k in ks}


class Docs:
    """Consistent descriptions, each of the context that the earlier ones make."""

    def __init__(self, rng):
        self.r = rng
        self.registry()

    def sub(self, xs, lo=0, hi=None):
        xs = list(xs)
        return self.r.sample(xs, self.r.randint(min(lo, len(xs)), len(xs) if hi is None else min(hi, len(xs))))

    def registry(self):
        r = self.r
        self.types = {}
        for t in self.sub(["Right", "Light", "Speed", "Vehicle", "Use"], 1):
            if r.random() < .65:
                self.types[t] = ("dv", [(v, r.choice([0, 0, 1])) for v in self.sub(ROW + ["Any", "None"], 1)])
            else:
                self.types[t] = ("rv", [(d, a, a + r.choice([0, 1, 4]), r.choice([0, 0, 1])) for d in self.sub(["slow", "fast", "mid"], 1) for a in [r.randrange(5)]])

        def val(kind, x):
            d = {"value": x[0]} if kind == "dv" else {"description": x[0], "range": [x[1], x[2]]}
            if x[-1] or r.random() < .5:
                d["severity"] = x[-1]
            for k in ("related_rules", "related_unique_ids"):
                if r.random() < .4:
                    d[k] = self.sub(["Yield", "Bulbs", "More"])
            return shuffled(r, d)
        self.registry_doc = {"RuleRegistry": {t: [val(k, x) for x in vs] for t, (k, vs) in self.types.items()}}
        # what a rule of the type may say: only keys that the type's value has
        self.allowed = {t: (k, [(x, self.registry_doc["RuleRegistry"][t][i]) for i, x in enumerate(vs)]) for t, (k, vs) in self.types.items()}

    def zone(self, lk, rk):
        out = []
        for l in self.sub(LANES, 0 if self.r.random() < .05 else 1):
            d = {lk: l["id"]}
            if self.r.random() < .5:
                d[rk] = [self.r.choice([0, l["len"], self.r.randint(0, l["len"])]) for _ in range(2)]
            out.append(d)
        return out

    def rules(self):
        r = self.r
        out = []
        self.dv = {}
        ids = ["r%d" % i for i in range(r.randrange(0 if r.random() < .05 else 1, 5))]
        for i in ids:
            t = r.choice(list(self.allowed))
            kind, vs = self.allowed[t]
            st = []
            for x, tv in self.sub(vs, 1):
                d = {"value": x[0]} if kind == "dv" else {"description": x[0], "range": [x[1], x[2]]}
                if x[-1] or r.random() < .5:
                    d["severity"] = x[-1]
                for k, pool in (("related_rules", ids + ["zz"]), ("related_unique_ids", ["u", "v"])):
                    keys = tv.get(k, [])
                    d[k] = [{kk: self.sub(pool, 1) for kk in self.sub(keys, len(keys) if r.random() < .8 else 0)}]
                    d[k] = [m for m in d[k] if m]
                    if len(d[k]) == 1 and len(d[k][0]) > 1 and r.random() < .5:
                        d[k] = [{a: b} for a, b in d[k][0].items()]
                    if d[k] and r.random() < .1:
                        d[k].append({r.choice(keys): ["again"]})
                st.append(shuffled(r, d))
            out.append(shuffled(r, {"id": i, "type": t, "zone": self.zone("lane_id", "s_range"), "values" if kind == "dv" else "ranges": st}))
            if kind == "dv":
                self.dv[i] = [d["value"] for d in st]
        self.ringable = {i: v for i, v in self.dv.items() if set(v) & set(ROW)}
        return {"RoadRulebook": out}

    def old(self):
        r = self.r
        ids = ["r%d" % i for i in range(r.randrange(0 if r.random() < .1 else 1, 4))]
        rows = []
        self.ringable = {}
        for i in ids:
            d = {"ID": i, "States": {s: self.sub([x for x in ids + ["y"] if x != i]) for s in self.sub(ROW, 1)}, "Zone": self.zone("Lane", "SRange")}
            self.ringable[i] = list(d["States"])
            if r.random() < .6:
                d["ZoneType"] = r.choice(["StopExcluded", "StopAllowed"])
            if r.random() < .6:
                d["RelatedBulbGroups"] = {t: self.sub(["g", "h"]) for t in self.sub(["t", "u"])}
            rows.append(shuffled(r, d))
        dirs = []
        for i in range(r.randrange(3)):
            z = []
            while not z:
                z = self.zone("Lane", "SRange")
            dirs.append(shuffled(r, {"ID": "d%d" % i, "Zone": z[0], "States": [
                shuffled(r, {"ID": "n%d" % k, "Severity": r.choice(["Strict", "Preferred"]),
                             "Type": r.choice(["WithS", "AgainstS", "Bidirectional", "BidirectionalTurnOnly", "NoUse", "Parking"])}) for k in range(1)]}))
        return {"RoadRulebook": shuffled(r, {"RightOfWayRules": rows, "DirectionUsageRules": dirs})}

    def pose(self, of):
        q = [0, 0, 0, 0]
        q[self.r.randrange(4)] = self.r.choice([1, 1, -1])
        return {"position_" + of: [self.r.randint(-9, 9) for _ in range(3)], "orientation_" + of: q}

    def lights(self):
        r = self.r
        self.tl = {}

        def bulb(i):
            d = {"ID": i, "Pose": self.pose("bulb_group"), "Color": r.choice(["Red", "Yellow", "Green"]), "Type": r.choice(["Round", "Arrow"])}
            st = ["Off", "On"]
            if d["Type"] == "Arrow":
                d["ArrowOrientation"] = r.randint(-3, 3)
            if r.random() < .6:
                d["States"] = self.sub(["Off", "On", "Blinking"], 0 if r.random() < .2 else 1)
                st = d["States"] or st
            if r.random() < .5:
                lo = [r.randint(-5, 0) for _ in range(3)]
                d["BoundingBox"] = {"min": lo, "max": [x + r.randint(1, 5) for x in lo]}
            return shuffled(r, d), st
        out = []
        for t in self.sub(["t", "u", "v"], 0 if r.random() < .1 else 1):
            self.tl[t] = {}
            groups = []
            for g in self.sub(["g", "h"], 0 if r.random() < .2 else 1):
                self.tl[t][g] = {}
                bulbs = []
                for b in self.sub(["b", "c", "d"], 1):
                    d, st = bulb(b)
                    bulbs.append(d)
                    self.tl[t][g][b] = st
                groups.append(shuffled(r, {"ID": g, "Pose": self.pose("traffic_light"), "Bulbs": bulbs}))
            out.append(shuffled(r, {"ID": t, "Pose": self.pose("road_network"), "BulbGroups": groups}))
        return {"TrafficLights": out}

    def rings(self, old):
        r = self.r
        left = list(self.ringable)
        r.shuffle(left)
        self.phases = {}
        out = []
        for R in self.sub(["R", "Q", "P"], 1):
            mine = [left.pop() for _ in range(min(len(left), r.choice([1, 1, 2])))]
            ids = self.sub(["a", "b", "c"], 1)
            self.phases[R] = ids
            lit = {t: {g: [b for b in bs] for g, bs in self.sub(gs.items())} for t, gs in self.sub(self.tl.items())}
            has = r.random() < .6
            ph = []
            for p in ids:
                d = {"ID": p}
                if old or mine and r.random() < .75:
                    d["RightOfWayRuleStates"] = {i: r.choice(self.ringable[i]) for i in self.sub(mine)}
                if has:
                    d["TrafficLightStates"] = {t: {g: {b: r.choice(self.tl[t][g][b]) for b in self.sub(bs)} for g, bs in gs.items()} for t, gs in lit.items()}
                ph.append(shuffled(r, d))
            d = {"ID": R, "Rules": mine, "Phases": ph}
            if r.random() < .6:
                d["PhaseTransitionGraph"] = {p: [dict({"ID": x}, **({"duration_until": r.randint(1, 60)} if r.random() < .5 else {})) for x in self.sub(ids)] for p in ids}
            out.append(shuffled(r, d))
        return {"PhaseRings": out}

    def inters(self):
        r = self.r
        rings = list(self.phases)
        if r.random() < .05:
            return {}
        return {"Intersections": [shuffled(r, {"ID": "i%d" % k, "PhaseRing": R, "InitialPhase": r.choice(self.phases[R])})
                                  for k, R in enumerate(self.sub(rings) + ([r.choice(rings)] if r.random() < .2 else []))]}


def words(d, out):
    if isinstance(d, dict):
        for k, v in d.items():
            out.add(k)
            words(v, out)
    elif isinstance(d, list):
        for v in d:
            words(v, out)
    elif isinstance(d, str):
        out.add(d)
    return out


def mutate(rng, doc):
    doc = copy.deepcopy(doc)
    pool = sorted(words(doc, set()))
    spots = []

    def visit(n, depth):
        if isinstance(n, (dict, list)):
            for k in (n if isinstance(n, dict) else range(len(n))):
                spots.append((n, k, depth))
                visit(n[k], depth + 1)
    visit(doc, 1)
    if not spots:
        return doc
    pairs = [s[0][s[1]] for s in spots if isinstance(s[0][s[1]], list) and len(s[0][s[1]]) == 2 and all(isinstance(x, int) for x in s[0][s[1]])]
    if pairs and rng.random() < .08:
        rng.choice([x for x in pairs if x[0] != x[1]] or pairs).reverse()
        return doc
    n, k, _ = rng.choice([s for s in spots if s[2] >= rng.choice([1, 2, 3, 4])] or spots)
    x = rng.random()
    v = n[k]
    if x < .2:
        del n[k]
    elif x < .35 and isinstance(n, list):
        n.insert(rng.randrange(len(n) + 1), copy.deepcopy(v))
    elif x < .35:
        new = rng.choice(pool + ["?", ""])
        if new not in n:
            del n[k]
            n[new] = v
    elif x < .45:
        n[k] = rng.choice([{}, [], "?", 1])
    elif x < .6 and isinstance(v, (dict, list)):
        o = rng.choice(spots)
        n[k] = copy.deepcopy(o[0][o[1]])
    elif isinstance(v, int):
        n[k] = rng.choice([-1, 0, 1, 2, 3, 5, 7, 10, 11, 20, 21])
    elif isinstance(v, str):
        n[k] = rng.choice(pool + ["?", "", "Go", "Stop", "On", "Off"])
    elif isinstance(v, list) and len(v) > 1:
        rng.shuffle(v)
    elif isinstance(v, list):
        v.append(rng.choice(pool))
    return doc


def gen(rng, nwalks):
    cmds = []
    for _ in range(nwalks):
        cmds.append({"op": "new", "lanes": LANES})

        def load(what, doc, pre=[]):
            cmds.append({"op": "Load", "what": what, "doc": tree(doc), "pre": pre})
        for _ in range(rng.choice([1, 1, 2])):
            d = Docs(rng)
            old = rng.random() < .4
            if old:
                seq = [("Old", d.old), ("Lights", d.lights), ("OldRings", lambda: d.rings(True)), ("Inters", d.inters)]
            else:
                seq = [("Registry", lambda: d.registry_doc), ("Rules", d.rules), ("Lights", d.lights), ("Rings", lambda: d.rings(False)), ("Inters", d.inters)]
            if rng.random() < .3:
                seq[-3:-2] = []
                d.tl = {}
                load("Lights", {"TrafficLights": []})
            for what, make in seq:
                doc = make()
                pre = [{"ring": x, "phase": p} for x in d.sub(list(getattr(d, "phases", {})) + ["Z"], 0, 2) for p in [rng.choice(getattr(d, "phases", {}).get(x, ["z"]))]] if what == "Inters" else []
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    m = mutate(rng, doc)
                    if rng.random() < .2:
                        m = mutate(rng, m)
                    load(what, m, pre)
                load(what, doc, pre)
    return cmds


def main():
    c = Check("C17")
    exe, = c.build("loaders")
    c.replay(exe, c.walks_of_graph(c.graph("MC_Loaders")), "exhaustive")
    cmds = gen(c.rng, 6000 if c.thorough else 500)
    ans = c.oracle("OR_Loaders", cmds, parts=8)
    keep = [k for k, a in enumerate(ans) if a["a"]["res"] != "open"]
    c.replay(exe, c.walks_of_oracle([cmds[k] for k in keep], [ans[k] for k in keep]), "random")
    return c.finish()
