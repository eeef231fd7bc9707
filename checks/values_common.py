"""Random rule values.  spec/Values.tla"""


def seq(z):
    return [dict(r, i=i + 1) for i, r in enumerate(z)]


def rel(rng, p=.35, bad=0.):
    out = []
    if rng.random() < p:
        for what, k in rng.sample([("rules", "Yield Group"), ("rules", "g"), ("ids", "Bulb Group"), ("ids", "g")], rng.choice([1, 1, 2])):
            ids = rng.sample(["x", "y", "z"], rng.choice([1, 1, 2, 3]))
            if rng.random() < bad:
                ids.append(rng.choice(ids))
            out.append({"what": what, "k": "" if rng.random() < bad / 2 else k, "ids": [{"i": i + 1, "id": x} for i, x in enumerate(ids)]})
    return out


def value(rng, kind, p=.35, bad=0.):
    v = {"sev": rng.choice([0, 0, 1, 2]), "text": rng.choice("abc"), "min": 0, "max": 0, "rel": rel(rng, p, bad)}
    if kind == "rv":
        v["min"] = rng.randrange(3)
        v["max"] = v["min"] + rng.randrange(3)
    return v


def values(vs):
    return [{"i": i + 1, "v": v} for i, v in enumerate(vs)]
