"""C18: plugins.  spec/Plugins.tla"""
from vlib import *


def gen(rng, nwalks, steps):
    cmds = []
    for _ in range(nwalks):
        dirs = [[]]
        for _ in range(rng.randrange(1, 6)):
            d = rng.choice(dirs) + [rng.choice(["a", "b", "c", "lib.so", "so", "x.d"])]
            if d not in dirs:
                dirs.append(d)
        dirs = dirs[1:]
        ids = rng.sample(["x", "y", "z", "libx.so", "the plugin", "X"], rng.randrange(1, 5))
        tag = [0]
        quality = rng.choice([0, 0, .05, .2])     # broken ones
        used = []

        def file():
            tag[0] += 1
            for _ in range(99):
                f = {"dir": rng.choice(dirs), "name": rng.choice([["p%d" % rng.randrange(4), "so"], ["p%d" % rng.randrange(4), "so"], ["", "so"], ["p", "so", "1"], ["so"], ["p"],
                                                                  ["q", "txt"], ["p", "x", "so"], ["p", "SO"], ["soso"], ["p", "aso"]])}
                if (f["dir"], f["name"]) not in used and f["dir"] + [".".join(f["name"])] not in dirs:
                    break
            else:
                return None
            used.append((f["dir"], f["name"]))
            lib = f["name"][-1] == "so" and len(f["name"]) > 1
            bad = rng.random() < (quality if lib else .3)
            kind = rng.choice(["noid", "notype", "text", "dangling", "ok"]) if bad else rng.choice(["ok"] * 5 + ["noentry"])
            f.update(kind=kind, id="" if bad and kind in ("ok", "noid") else rng.choice(ids), tag=tag[0], type=rng.choice(["loader", "loader", "other"]), to="")
            if f["id"] and kind == "ok" and rng.random() < .15:
                c = [g for g in files if g["kind"] in ("ok", "noentry") and not g["to"] and g["id"]]
                if c:
                    g = rng.choice(c)
                    f.update(kind=g["kind"], id=g["id"], tag=g["tag"], type=g["type"], to="/".join(g["dir"] + [".".join(g["name"])]))
            return f
        files = []
        for _ in range(rng.randrange(0, 9)):
            f = file()
            if f:
                files.append(f)
        cmds.append({"op": "new", "dirs": dirs, "files": [dict(f) for f in files]})

        def at():
            if files and rng.random() < .85:
                f = rng.choice(files)
                return {"dir": f["dir"], "name": f["name"]}
            return {"dir": rng.choice(dirs), "name": ["nothing", "so"]}

        def entry():
            x = rng.random()
            if x < .85:
                return {"t": "dir", "d": rng.choice(dirs)}
            if x < .92:
                return {"t": "dir", "d": ["nowhere"]}
            if x < .96:
                a = at()
                return {"t": "file", "dir": a["dir"], "name": a["name"]}
            return {"t": "raw", "s": rng.choice(["", "/nonexistent/verif"])}

        def path():
            p = [entry() for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
            while p and p[-1].get("s") == "":
                p.pop()
            return p
        up = False
        for _ in range(steps):
            x = rng.random()
            if x < .2 or not up and x < .5:
                p = path()
                cmds.append({"op": "Start", "path": p})
                libs = [f for f in files for e in p if e["t"] == "dir" and e["d"] in dirs and f["dir"][:len(e["d"])] == e["d"] and f["name"][-1] == "so" and len(f["name"]) > 1]
                up = up or all(f["kind"] in ("ok", "noentry") and f["id"] for f in libs)
            elif x < .3:
                f = file()
                if f:
                    files.append(f)
                    cmds.append({"op": "Put", "file": dict(f)})
            elif x < .4:
                cmds.append({"op": "FilesIn", "d": rng.choice(dirs), "suffix": rng.choice(["", "so", "so", "1", "txt"])})
            elif x < .55:
                cmds.append({"op": "Session", "path": path(), "calls": [
                    {"what": rng.choice(["create", "create", "loader"]), "id": rng.choice(ids + ["?"]),
                     "props": [{"k": k, "v": rng.choice(["", "1", "a:b"])} for k in rng.sample(["a", "b", "fail"], rng.choice([0, 1, 1, 2]))]} for _ in range(3)]})
            elif up and x < .75:
                cmds.append({"op": "Add", "at": at()})
            elif up and x < .77:
                cmds.append({"op": "AddNothing"})
            elif up and x < .9:
                cmds.append({"op": "Get", "id": rng.choice(ids + ["?"])})
            elif up:
                cmds.append({"op": "Call", "id": rng.choice(ids + ["?"]), "what": rng.choice(["Sum", "Sum", "Nothing"]), "a": rng.randrange(9), "b": rng.randrange(9)})
    return cmds


def main():
    c = Check("C18")
    exe, = c.build("plugins")
    c.replay(exe, c.walks_of_graph(c.graph("MC_Plugins")), "exhaustive")
    cmds = gen(c.rng, 6000 if c.thorough else 500, 25)
    c.replay(exe, c.walks_of_oracle(cmds, c.oracle("OR_Plugins", cmds, parts=8)), "random")
    return c.finish()
