"""C07: traffic lights and their book.  spec/Lights.tla"""
from vlib import *
from values_common import seq


def kids(hs):
    return seq([{"h": h} for h in hs])


def gen(rng, nwalks, steps):
    B, G, T = ["x", "y", "z", "x-y", "g-x"], ["g", "h", "g-x", "x-g"], ["t", "u", "t-g", "t-g-x"]
    cmds = []
    for _ in range(nwalks):
        cmds.append({"op": "new", "bids": B + ["?"], "gids": G + ["?"], "lids": T + ["?"]})
        n = 0
        lb, lg, lt, book = {}, {}, {}, set()
        for _ in range(steps):
            x = rng.random()
            n += 1
            if x < .45:
                ty = rng.choice(["Round", "Round", "Arrow"])
                arrow = rng.choice([1, 2, 6]) if ty == "Arrow" else 0
                if rng.random() < .08:
                    arrow = 0 if arrow else 1
                h, i = "b%d" % n, rng.choice(B)
                cmds.append({"op": "MakeBulb", "h": h, "id": i, "color": rng.choice(["Red", "Yellow", "Green"]), "type": ty, "arrow": arrow,
                             "states": rng.sample(["Off", "On", "Blinking"], rng.choice([0, 1, 2, 3])), "pos": rng.randrange(1, 9), "bb": rng.randrange(4)})
                if (ty == "Arrow") == (arrow != 0):
                    lb[h] = i
            elif x < .7:
                h, i = "g%d" % n, rng.choice(G)
                k = rng.sample(sorted(lb), min(len(lb), rng.choice([0, 1, 2, 2, 3, 4])))
                if rng.random() < .8:      # mostly without repeated ids
                    k = list({lb[b]: b for b in k}.values())
                ids = [lb[b] for b in k]
                for b in k:
                    del lb[b]
                if rng.random() < .05:
                    k.insert(rng.randrange(len(k) + 1), "null")
                cmds.append({"op": "MakeGroup", "h": h, "id": i, "kids": kids(k), "pos": rng.randrange(1, 9)})
                if k and "null" not in k and len(set(ids)) == len(ids):
                    lg[h] = i
            elif x < .85:
                h, i = "t%d" % n, rng.choice(T)
                k = rng.sample(sorted(lg), min(len(lg), rng.choice([0, 1, 1, 2, 3])))
                if rng.random() < .8:
                    k = list({lg[b]: b for b in k}.values())
                ids = [lg[b] for b in k]
                for b in k:
                    del lg[b]
                if rng.random() < .05:
                    k.insert(rng.randrange(len(k) + 1), "null")
                cmds.append({"op": "MakeLight", "h": h, "id": i, "kids": kids(k), "pos": rng.randrange(1, 9)})
                if "null" not in k and len(set(ids)) == len(ids):
                    lt[h] = i
            elif lt:
                h = rng.choice(sorted(lt))
                cmds.append({"op": "AddLight", "h": h})
                del lt[h]
            else:
                cmds.append({"op": "AddNull"})
    return cmds


def main():
    c = Check("C07")
    exe, = c.build("lights")
    c.replay(exe, c.walks_of_graph(c.graph("MC_Lights")), "exhaustive")
    n, s = (600, 60) if c.thorough else (60, 50)
    cmds = gen(c.rng, n, s)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_Lights", cmds)), "random")
    return c.finish()
