"""C03: the registry of rule types and the rules built with it.  spec/Registry.tla"""
from vlib import *
from values_common import *

BUILTIN = ["Right-Of-Way Rule Type", "Direction-Usage Rule Type", "Vehicle-Stop-In-Zone-Behavior Rule Type"]


def gen(rng, nwalks, steps):
    types = ["t", "t1", "t10", "T1", "1t"] + BUILTIN
    cmds = []
    for _ in range(nwalks):
        cmds.append({"op": "new", "types": types + ["absent"]})
        known = {}
        for _ in range(steps):
            x = rng.random()
            kind = rng.choice(["dv", "rv"])
            ty = rng.choice(types)
            zone = seq([{"lane": rng.choice("pq"), "s0": rng.randrange(9), "s1": rng.randrange(9)} for _ in range(rng.choice([0, 1, 2, 3]))])
            if x < .05:
                cmds.append({"op": "RegisterBuiltin", "name": rng.choice(BUILTIN)})
            elif x < .3:
                vs = [value(rng, kind, .2) for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))]
                cmds.append({"op": "Register", "kind": kind, "type": ty, "values": values(vs)})
                if vs:
                    known.setdefault(ty, (kind, vs))
            elif x < .85:
                if known and rng.random() < .9:
                    ty = rng.choice(sorted(known))
                    kind, base = known[ty]
                    if rng.random() < .1:
                        kind = "rv" if kind == "dv" else "dv"
                    vs = [dict(v, rel=rel(rng, .5, .05)) for v in rng.sample(base, rng.randrange(1, len(base) + 1))]
                    r = rng.random()
                    if r < .15:
                        vs.insert(rng.randrange(len(vs) + 1), value(rng, kind))
                    elif r < .3:
                        v = dict(rng.choice(vs))
                        f = rng.choice(["sev", "text", "max", "min"] if kind == "rv" else ["sev", "text"])
                        v[f] = {"sev": v["sev"] + 1, "text": v["text"] + "x", "max": v["max"] + 1, "min": v["min"] - 1}[f]
                        vs[rng.randrange(len(vs))] = v
                    elif r < .4:
                        vs.append(dict(rng.choice(vs), rel=rel(rng, .8)))
                else:
                    vs = [value(rng, kind) for _ in range(rng.choice([0, 1, 2]))]
                if kind == "dv":
                    vs = [dict(v, min=0, max=0) for v in vs]
                cmds.append({"op": "Build", "kind": kind, "id": rng.choice(["r1", "r2"]), "type": ty, "zone": zone, "values": values(vs)})
            else:
                vs = [value(rng, kind, .5, .15) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                if vs and rng.random() < .1:
                    vs[-1]["sev"] = -1
                if vs and kind == "rv" and rng.random() < .1:
                    vs[-1]["max"] = vs[-1]["min"] - 1
                cmds.append({"op": "Make", "kind": kind, "id": "m", "type": "t", "zone": zone, "values": values(vs)})
    return cmds


def main():
    c = Check("C03")
    exe, = c.build("registry")
    c.replay(exe, c.walks_of_graph(c.graph("MC_Registry")), "exhaustive")
    n, s = (600, 60) if c.thorough else (60, 60)
    cmds = gen(c.rng, n, s)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_Registry", cmds)), "random")
    return c.finish()
