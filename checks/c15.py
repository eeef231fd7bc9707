"""C15: routing phases and routes.  spec/Routes.tla, Positions.tla, Topo.tla"""
from vlib import *

COS, SIN = [1, 0, -1, 0], [0, 1, 0, -1]


def road(rng):
    """A straight road of segments between stations, with lanes in lateral slots; every segment goes one way or the other."""
    k = rng.choice([1, 2, 2, 3, 3, 4])
    xs = [0]
    for _ in range(k):
        xs.append(xs[-1] + 2 * rng.randrange(1, 6))
    turn = rng.randrange(4)            # direction of the whole road
    w = rng.choice([1, 1, 2])
    lanes, at, segs = [], [], []
    for i in range(k):
        lo = rng.randrange(3)
        n = rng.choice([1, 2, 2, 3, 4])
        rev = rng.random() < .45
        ids = []
        z = rng.choice([0, 0, 0, 0, 1])
        for j in range(n):
            slot = lo + (n - 1 - j if rev else j)
            a, b = (xs[i + 1], xs[i]) if rev else (xs[i], xs[i + 1])
            px, py = a, 2 * w * slot
            q = (turn + (2 if rev else 0)) % 4
            l = {"id": "l%d.%d" % (i, j), "seg": "s%d" % i, "o": j, "x": COS[turn] * px - SIN[turn] * py, "y": SIN[turn] * px + COS[turn] * py, "z": z,
                 "q": q, "len": abs(b - a), "rmin": -w, "rmax": w, "smin": -w, "smax": w, "hmin": 0, "hmax": 3}
            lanes.append(l)
            ids.append((l["id"], slot))
            for e, st in (("start", i + rev), ("finish", i + 1 - rev)):
                at.append({"lane": l["id"], "end": e, "bp": "b%d.%d.%d" % (st, slot, z if rng.random() < .97 else 9), "side": "A" if st == i + 1 else "B"})
        segs.append((ids, rev, xs[i], xs[i + 1]))
    return {"lanes": lanes, "at": at, "frame": {"x": rng.choice([0, 0, 3]), "y": 0, "z": rng.choice([0, 1])}, "lin": rng.choice([0, 0, 1])}, segs


def pos(lane, s, r=0, h=0):
    return {"lane": lane, "s": s, "r": r, "h": h}


def route(rng, segs, by):
    """Phases along the road (or back), maybe with segments cut in two."""
    a = rng.randrange(len(segs))
    b = rng.randrange(a, len(segs)) if rng.random() < .4 else len(segs) - 1
    parts = []
    for ids, rev, x0, x1 in segs[a:b + 1]:
        cuts = [x0, x1]
        if rng.random() < .25 and x1 - x0 > 1:
            cuts = [x0, rng.randrange(x0 + 1, x1), x1]
        if rng.random() < .06:
            cuts.insert(1, cuts[1])    # an empty stretch
        for u, v in zip(cuts, cuts[1:]):
            parts.append((ids, rev, x0, x1, u, v))
    back = rng.random() < .35
    if back:
        parts = [(i, r, x0, x1, v, u) for i, r, x0, x1, u, v in reversed(parts)]
    tol = rng.choice([0, 0, 1])
    phases = []
    for k, (ids, rev, x0, x1, u, v) in enumerate(parts):
        S = lambda x: x1 - x if rev else x - x0
        m = rng.randrange(len(ids))
        n = rng.randrange(m, len(ids))
        if rng.random() < .6:
            m, n = 0, len(ids) - 1
        sel = ids[m:n + 1]
        phases.append({"tol": tol, "sel": sel, "rng": [{"lane": i, "s0": S(u), "s1": S(v)} for i, _ in sel], "s0": S(u), "s1": S(v)})
    out = []
    for k, p in enumerate(phases):
        slots = dict((s, i) for i, s in p["sel"])
        def shared(j):
            return [s for s in slots if s in dict((s, i) for i, s in phases[j]["sel"])]
        st = shared(k - 1) if k else []
        en = shared(k + 1) if k + 1 < len(phases) else []
        starts = [pos(slots[s], p["s0"]) for s in st] or [pos(rng.choice(p["sel"])[0], p["s0"])]
        ends = [pos(slots[s], p["s1"]) for s in en] or [pos(rng.choice(p["sel"])[0], p["s1"])]
        for q in (starts, ends):
            rng.shuffle(q)
            x = rng.random()
            if x < .06 and len(q) > 1:
                q.pop()
            elif x < .1:
                q.append(dict(q[0]))
            elif x < .14:
                q.append(pos(rng.choice(p["sel"])[0], p["s0"]))
            elif x < .17:
                q[0] = dict(q[0], s=max(0, q[0]["s"] + rng.choice([-1, 1]))) if tol else q[0]
        if rng.random() < .3:          # lanes the route does not start or end at may be left early, or entered late
            used = {x["lane"] for x in starts + ends}
            for g in p["rng"]:
                if g["lane"] not in used and rng.random() < .7:
                    w = 1 if g["s1"] > g["s0"] else -1
                    d = abs(g["s1"] - g["s0"])
                    i = rng.randrange(d + 1)
                    j = rng.randrange(i, d + 1)
                    g["s0"], g["s1"] = g["s0"] + w * i, g["s0"] + w * j
        out.append({"tol": tol, "starts": starts, "ends": ends, "ranges": p["rng"]})
    return out


def bad(rng, ph, lanes):
    """Breaks a rule of a phase, mostly."""
    ph = json.loads(json.dumps(ph))
    L = [l["id"] for l in lanes]
    index, netw = rng.choice([0, 0, 1, 5]), True
    x = rng.randrange(16)
    q = rng.choice([ph["starts"], ph["ends"]])
    g = rng.choice(ph["ranges"])
    if x == 0:
        index = -1
    elif x == 1:
        ph["tol"] = -1
    elif x == 2:
        q.clear()
    elif x == 3:
        rng.choice(q)["lane"] = "null"
    elif x == 4:
        netw = False
    elif x == 5:
        ph["ranges"] = []
    elif x == 6:
        g["lane"] = "nosuch"
    elif x == 7:
        g["s0" if rng.random() < .5 else "s1"] += rng.choice([1, 2, 5])
    elif x == 8:
        rng.choice(q)["lane"] = rng.choice(L)
    elif x == 9:
        p = rng.choice(q)
        p["s"] = max(0, p["s"] + rng.choice([-2, -1, 1, 2]))
    elif x == 10:
        rng.shuffle(ph["ranges"])
    elif x == 11:
        ph["ranges"].append(dict(g, lane=rng.choice(L)))
    elif x == 12 and len(ph["ranges"]) > 2:
        ph["ranges"].pop(1)
    elif x == 13:
        ph["ranges"].append(dict(g))
    elif x == 14:
        q.append(pos(rng.choice(L), g["s0"]))
    return {"op": "Phase", "index": index, "netw": netw, "ph": ph}


def gen(rng, nwalks, steps):
    cmds = []
    for _ in range(nwalks):
        net, segs = road(rng)
        cmds.append(dict(net, op="new", u=rng.choice([1, .5, 8, 1 / 64.])))
        lanes = net["lanes"]
        by = {l["id"]: l for l in lanes}
        for _ in range(2):
            P = route(rng, segs, by)
            rng.random() < .03 and cmds.append({"op": "SetRoute", "phases": [], "netw": True})
            rng.random() < .03 and cmds.append({"op": "SetRoute", "phases": P, "netw": False})
            cmds.append({"op": "SetRoute", "phases": P, "netw": True})
            cmds.append({"op": "Validate"})
            R = [g for p in P for g in p["ranges"]]

            def point():
                l = rng.choice(lanes)
                q = l["q"]
                s, r = rng.randrange(-2, l["len"] + 3), rng.choice([0, 0, 1, -1, l["rmax"], -l["rmax"], l["rmax"] + 1, -5])
                return {"x": l["x"] + net["frame"]["x"] + COS[q] * s - SIN[q] * r, "y": l["y"] + net["frame"]["y"] + SIN[q] * s + COS[q] * r,
                        "z": l["z"] + net["frame"]["z"] + rng.choice([0, 0, 0, 1, -1, 5])}

            def rpos():
                if rng.random() < .02:
                    return pos("null", 0)
                l = rng.choice(lanes)
                return pos(l["id"], rng.randrange(l["len"] + 1), rng.choice([0, 0, 1, -1]), rng.choice([0, 0, 1]))

            def rng_():
                g = rng.choice(R)
                x = rng.random()
                if x < .6:
                    return g
                if x < .75:
                    a, b = rng.randrange(min(g["s0"], g["s1"]), max(g["s0"], g["s1"]) + 1), rng.randrange(min(g["s0"], g["s1"]), max(g["s0"], g["s1"]) + 1)
                    return {"lane": g["lane"], "s0": a, "s1": b}
                if x < .85:
                    return {"lane": g["lane"], "s0": g["s0"], "s1": g["s1"] + rng.randrange(3)}
                l = rng.choice(lanes)
                return {"lane": l["id"] if rng.random() < .9 else "nosuch", "s0": 0, "s1": l["len"]}
            for _ in range(steps):
                x = rng.random()
                k = rng.randrange(len(P)) + 1
                if x < .3:
                    cmds.append({"op": "Relate", "a": rng_(), "b": rng_()})
                elif x < .45:
                    cmds.append({"op": "LaneRoute", "p": rpos()})
                elif x < .57:
                    cmds.append(bad(rng, P[k - 1], lanes))
                elif x < .67:
                    cmds.append({"op": "PhaseAt", "k": k, "p": point()})
                elif x < .73:
                    cmds.append({"op": "PhaseAtRoad", "k": k, "p": rpos()})
                elif x < .83:
                    cmds.append({"op": "RouteAt", "p": point()})
                elif x < .92:
                    cmds.append({"op": "RouteAtRoad", "p": rpos()})
                elif x < .96:
                    cmds.append({"op": "Get", "k": rng.randrange(len(P) + 2), "i": rng.randrange(4)})
                else:
                    cmds.append({"op": "Within", "p": rpos(), "ranges": rng.choice([[], P[k - 1]["ranges"], P[k - 1]["ranges"]]), "tol": rng.choice([-1, 0, 0, 1, 2])})
    return cmds


def main():
    c = Check("C15")
    exe, = c.build("routes")
    c.replay(exe, c.walks_of_graph(c.graph("MC_Routes")), "exhaustive")
    cmds = gen(c.rng, 1500 if c.thorough else 220, 40)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_Routes", cmds)), "random")
    return c.finish()
