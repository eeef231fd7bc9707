"""C01: the thread pool runs every queued task exactly once and always drains.  spec/ThreadPool.tla, ThreadPoolImpl.tla

TLC checks that the pool's algorithm refines the client's view and always finishes; the real pool is then run under a
controlled scheduler (harness/detsched.cc) for many programs and schedules, and every distinct trace of calls, task
starts and ends and future results is checked by TLC to be a behaviour of ThreadPool."""
from vlib import *

FIXED = [
    (2, ["Q1", "Q2", "S", "Q3", "F"], {1: ["Q4"], 2: [], 3: ["X"], 4: []}),
    (2, ["Q1", "Q2", "S"], {1: ["B2"], 2: ["B2"]}),                       # both workers needed at once
    (2, ["S", "Q1", "Q2"], {1: ["B2"], 2: ["B2"]}),
    (3, ["Q1", "S", "Q2", "Q3", "F"], {1: ["B3"], 2: ["B3"], 3: ["B3"]}),
    (3, ["S", "Y", "Q1", "Q2", "Q3"], {1: ["B3"], 2: ["B3"], 3: ["B3"]}),
    (2, ["S", "Q1", "W1", "Q2", "W2", "R", "F", "R", "S"], {1: [], 2: []}),
    (1, ["Q1", "Q2"], {1: [], 2: ["X"]}),                                  # never started: the destructor drains
    (2, ["F", "Q1", "S", "R"], {1: []}),
    (2, ["R", "S", "S", "R", "Q1", "F", "Q2", "F", "S", "R"], {1: ["Y"], 2: []}),
    (2, ["Q1", "Q2", "Q3", "S", "C", "Q4", "F"], {1: [], 2: ["Y"], 3: [], 4: []}),
    (2, ["Q1", "S", "F"], {1: ["Q2"], 2: ["Q3"], 3: ["Q4"], 4: []}),
    (2, ["Q1", "Q2", "S"], {1: ["Q3", "Q4"], 2: ["Q5", "Q6"], 3: [], 4: ["C"], 5: [], 6: []}),
    (3, ["Q1", "Q2", "Q3", "S", "Q10", "F"], {1: ["Q4", "Q5"], 2: ["Q6", "Q7"], 3: ["Q8", "C", "Q9"], 4: [], 5: [], 6: [], 7: [],
                                              8: [], 9: [], 10: ["Q11"], 11: []}),
    (1, ["Q1", "Q2", "C", "S", "Q3"], {1: [], 2: [], 3: ["Q4", "C"], 4: []}),
    (1, ["Q1", "Q2", "Q3", "S"], {1: ["C"], 2: [], 3: []}),                # a running task cancels all that is pending
    (1, ["Q1", "Q2", "Q3", "Q4", "Q5", "S", "Y", "Y", "C", "Q6", "F"], {1: ["Y"], 2: ["Y", "Y"], 3: [], 4: ["C"], 5: [], 6: []}),
    (2, ["Q1", "Q2", "Q3", "Q4", "Q5", "Q6", "S"], {1: ["B2", "C"], 2: ["B2"], 3: [], 4: [], 5: [], 6: []}),
    (2, ["S", "Q1", "Q2", "Q3", "Q4", "Y", "C", "Q5", "C", "Q6"], {1: ["Q7"], 2: ["Y"], 3: ["Y"], 4: [], 5: [], 6: [], 7: []}),
    (3, ["Q%d" % i for i in range(1, 10)] + ["S", "Y", "C"], {i: ["C"] if i == 3 else ["Y"] for i in range(1, 10)}),
    (1, ["S", "Q1", "W1", "Q2", "Q3", "F"], {1: ["X"], 2: ["Q4", "Q5", "X"], 3: [], 4: ["Y"], 5: []}),
    (1, [], {}), (3, ["S"], {}), (2, ["C", "F", "C"], {}),
    (2, ["S", "Q1", "Q2"], {1: ["W2"], 2: ["Y", "Y"]}),
    (4, ["S"] + ["Q%d" % i for i in range(1, 9)], {i: [] if i % 3 else ["X"] for i in range(1, 9)}),
]


def rnd_program(rng):
    n = rng.choice([1, 2, 2, 3])
    nt = rng.randrange(1, 7)
    main, tasks, nxt, started, finished = [], {}, 1, False, False
    cancel = rng.random() < .5
    open_tasks = []
    for _ in range(rng.randrange(2, 9)):
        x = rng.random()
        if x < .5 and nxt <= nt:
            main.append("Q%d" % nxt)
            tasks[nxt] = []
            if not finished:
                open_tasks.append(nxt)
            nxt += 1
        elif x < .65:
            main.append("S")
            started = started or not finished
        elif x < .7:
            main.append("R")
        elif x < .78 and cancel:
            main.append("C")
        elif x < .82:
            main.append("F")
            finished = True
        elif x < .92 and started and not cancel and open_tasks:
            main.append("W%d" % rng.choice(open_tasks))
        else:
            main.append("Y")
    while nxt <= nt and tasks:
        t = rng.choice(list(tasks))
        tasks[t].append("Q%d" % nxt)
        tasks[nxt] = []
        nxt += 1
    for t, b in tasks.items():
        if rng.random() < .3:
            b.insert(rng.randrange(len(b) + 1), rng.choice(["Y", "Y", "C"] if cancel else ["Y"]))
        if rng.random() < .2:
            b.append("X")
    return (n, main, tasks)


def main():
    c = Check("C01")
    exe, = c.build("threadpool")
    c.tlc_ok("MC_ThreadPool", workers=6)
    progs = FIXED + [rnd_program(c.rng) for _ in range(400 if c.thorough else 120)]
    runs = 4000 if c.thorough else 400
    jobs = []
    for k in range(NPROC * 3):
        part = [{"p": i + 1, "n": p[0], "main": p[1], "tasks": {str(t): b for t, b in p[2].items()}}
                for i, p in enumerate(progs) if i % (NPROC * 3) == k]
        if part:
            f = os.path.join(c.tmp, "prog%d" % k)
            with open(f, "w") as o:
                for q in part:
                    o.write(json.dumps(q) + "\n")
            jobs.append((f, c.seed * 1000003 % 2 ** 31))

    def run(j):
        out = j[0] + ".out"
        with open(out, "w") as o:
            try:
                r = subprocess.run([exe, j[0], str(j[1]), str(runs)], stdout=o, stderr=subprocess.PIPE, timeout=700)
            except subprocess.TimeoutExpired:
                raise CheckError("the thread pool driver did not end")
        return out, r.returncode, r.stderr[-500:]
    traces, total, steps, schedules, inconclusive = [], 0, 0, 0, 0
    with ThreadPoolExecutor(NPROC) as ex:
        for out, rc, err in ex.map(run, jobs):
            ended = False
            for line in open(out):
                t = json.loads(line)
                if "done" in t:
                    total += t["done"]
                    steps += t["steps"]
                    schedules += t["schedules"]
                    ended = True
                elif t["verdict"]:
                    ended = True
                    n, m, ts = progs[t["p"] - 1]
                    c.violation({"info": t["verdict"] + " of the pool", "program": {"workers": n, "main": m, "tasks": ts},
                                 "schedule_seed": t["seed"], "trace": t["ev"],
                                 "text": "the specification requires every run of this program to end"})
                else:
                    traces.append(t)
            if not ended:
                raise CheckError("thread pool driver failed (rc %d): %s" % (rc, err))
    # validate: split the distinct traces over several TLC runs
    limit = 12000 if c.thorough else 5000
    c.rng.shuffle(traces)
    kept = traces[:limit]
    parts = [kept[i::6] for i in range(6) if kept[i::6]]

    def check(k):
        p = os.path.join(c.tmp, "traces%d" % k)
        with open(p, "w") as o:
            for t in parts[k]:
                o.write(json.dumps({"n": t["n"], "ev": t["ev"]}) + "\n")
        out = c.tlc_ok("TR_ThreadPool", env={"TRACES": p}, workers=1, heap="3g")
        ok = {int(o[0]) for tag, o in c.emitted(out) if tag == "D"}
        bad = [t for i, t in enumerate(parts[k]) if i + 1 not in ok]
        for t in bad[:2]:
            q = os.path.join(c.tmp, "diag%d" % k)
            with open(q, "w") as o:
                o.write(json.dumps({"n": t["n"], "ev": t["ev"]}) + "\n")
            out = c.tlc_ok("TR_ThreadPool", cfg="TR_ThreadPool_diag.cfg", env={"TRACES": q}, workers=1, heap="1g")
            l = max(int(o[1]) for tag, o in c.emitted(out) if tag == "L")
            n, m, ts = progs[t["p"] - 1]
            c.violation({"info": "trace is not a behaviour of ThreadPool: event %d %s" % (l, json.dumps(t["ev"][l - 1])),
                         "program": {"workers": n, "main": m, "tasks": ts}, "schedule_seed": t["seed"], "trace": t["ev"]})
        return len(parts[k]) - len(bad)
    with ThreadPoolExecutor(6) as ex:
        c.validated += sum(ex.map(check, range(len(parts))))
    c.steps += sum(len(t["ev"]) for t in kept)
    if kept:
        c.sample({"program": progs[kept[0]["p"] - 1], "trace": kept[0]["ev"]})
    c.assumptions += ["threads interleave at synchronisation operations, atomic accesses and instrumented memory accesses, "
                      "under sequential consistency", "the pool is used by its owner and by the bodies of its tasks"]
    return c.finish({"executions": total, "distinct_schedules": schedules, "scheduling_points": steps, "programs": len(progs),
                     "distinct_traces": len(traces)})
