"""C24: directory helpers.  spec/Files.tla"""
import os
from vlib import *

NAMES = ["a", "bb", "c.d", ".e", "f g"]


def spelled(rng, parts, cwd):
    sp = {"abs": rng.random() < .5, "parts": list(parts), "gap": rng.choice(["/", "/", "/", "//", "///"]), "slash": rng.random() < .25, "set": rng.random() < .5}
    if not sp["abs"] and parts[:len(cwd)] == cwd and len(parts) > len(cwd):
        sp["parts"] = list(parts[len(cwd):])
    if rng.random() < .15:
        sp["parts"].insert(rng.randint(0, len(sp["parts"])), ".")
    if not sp["parts"]:
        sp["slash"] = sp["abs"] and sp["slash"]
    return sp


def gen(rng, nwalks, steps):
    cmds = []
    for _ in range(nwalks):
        cmds.append({"op": "new"})
        cwd, known = [], [[]]
        names = rng.sample(NAMES, 2)

        def somewhere():
            if rng.random() < .5:
                return list(rng.choice(known))
            return list(rng.choice(known))[:3] + [rng.choice(names) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        for _ in range(steps):
            x, p = rng.random(), somewhere()
            sp = spelled(rng, p, cwd)
            if x < .2:
                cmds.append({"op": rng.choice(["Create", "CreateAll", "CreateAll"]), "sp": sp})
                known.append(p)
            elif x < .35:
                if p:
                    cmds.append({"op": "Write", "at": p, "content": rng.randint(1, 4)})
                    known.append(p)
            elif x < .42:
                cmds.append({"op": "Enter", "at": p})
                # (the specification knows whether it is one)
                cmds.append({"op": "Ask", "sp": dict(sp, abs=True, parts=list(p))})
            elif x < .52:
                cmds.append({"op": "RemoveFile", "sp": sp})
            elif x < .62:
                cmds.append({"op": "RemoveDir", "sp": sp})
            elif x < .74:
                cmds.append({"op": "Read", "sp": sp})
            elif x < .88:
                cmds.append({"op": "Ask", "sp": sp})
            elif x < .93:
                cmds.append({"op": "Append", "sp": sp, "tail": spelled(rng, somewhere(), [])})
            elif x < .96:
                cmds.append({"op": "Spell", "sp": sp})
            else:
                cmds.append({"op": "Temp", "set": [v for v in ("TMPDIR", "TEMPDIR", "TMP", "TEMP") if rng.random() < .4]})
    return cmds


def main():
    c = Check("C24")
    os.chmod(c.tmp, 0o711)  # the driver works in it as nobody
    exe, = c.build("files")
    c.replay(exe, c.walks_of_graph(c.graph("MC_Files")), "graph")
    cmds = gen(c.rng, 1500 if c.thorough else 200, 40)
    # Steps the specification does not take are not asked of the code either.
    done = [(x, a) for x, a in zip(cmds, c.oracle("OR_Files", cmds, parts=8)) if a["a"]["op"] != "Skip"]
    c.replay(exe, c.walks_of_oracle([x for x, _ in done], [a for _, a in done]), "random")
    return c.finish()
