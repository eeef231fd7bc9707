----------------------------- MODULE ThreadPool -----------------------------
(* What a client of maliput::utility::ThreadPool (include/maliput/utility/thread_pool.h) relies on.               *)
(* Calls are intervals: an operation is called, takes effect once (Lin...) and returns.  Tasks begin and end on    *)
(* workers.  Client 0 is the thread that owns the pool; client t > 0 is the body of task t, which may queue and     *)
(* cancel but neither starts nor finishes the pool.                                                                *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Tasks,      \* positive integers
          N           \* number of worker threads
VARIABLES task,       \* task -> "new" | "queued" | "taken" | "running" | "done" | "cancelled" | "rejected"
          started,    \* Start took effect
          finishing,  \* Finish (or the destructor) took effect
          finished,   \* ... and returned
          calls       \* calls in progress: [by, op, t, res], res = "" until the effect
pvars == <<task, started, finishing, finished, calls>>

Ops == {"Queue", "Start", "Finish", "Cancel", "Running"}
TypeOK == /\ task \in [Tasks -> {"new", "queued", "taken", "running", "done", "cancelled", "rejected"}]
          /\ started \in BOOLEAN /\ finishing \in BOOLEAN /\ finished \in BOOLEAN

PInit == /\ task = [t \in Tasks |-> "new"]
         /\ started = FALSE /\ finishing = FALSE /\ finished = FALSE
         /\ calls = {}

Busy == {t \in Tasks : task[t] \in {"taken", "running"}}
MayCall(by) == /\ by = 0 \/ (by \in Tasks /\ task[by] = "running")
               /\ \A c \in calls : c.by # by

Call(by, op, t) ==
  /\ MayCall(by)
  /\ op = "Queue" => t \in Tasks /\ task[t] = "new" /\ \A c \in calls : c.t # t
  /\ op \in {"Start", "Finish", "Running"} => by = 0
  /\ calls' = calls \cup {[by |-> by, op |-> op, t |-> t, res |-> ""]}
  /\ UNCHANGED <<task, started, finishing, finished>>

Effect(c, r) == calls' = (calls \ {c}) \cup {[c EXCEPT !.res = r]}

(* A task is admitted (or refused) first and becomes pending after that. *)
LinAdmit(c) ==
  /\ c.op = "Queue" /\ c.res = ""
  /\ Effect(c, IF finishing THEN "throws" ELSE "admitted")
  /\ task' = [task EXCEPT ![c.t] = IF finishing THEN "rejected" ELSE "new"]
  /\ UNCHANGED <<started, finishing, finished>>
LinPush(c) ==
  /\ c.op = "Queue" /\ c.res = "admitted"
  /\ Effect(c, "ok")
  /\ task' = [task EXCEPT ![c.t] = "queued"]
  /\ UNCHANGED <<started, finishing, finished>>

LinStart(c) ==
  /\ c.op = "Start" /\ c.res = ""
  /\ Effect(c, IF started \/ finishing THEN "throws" ELSE "ok")
  /\ started' = (started \/ ~finishing)
  /\ UNCHANGED <<task, finishing, finished>>

LinCancel(c) ==
  /\ c.op = "Cancel" /\ c.res = ""
  /\ Effect(c, "ok")
  /\ task' = [t \in Tasks |-> IF task[t] = "queued" THEN "cancelled" ELSE task[t]]
  /\ UNCHANGED <<started, finishing, finished>>

LinRunning(c) ==
  /\ c.op = "Running" /\ c.res = ""
  /\ Effect(c, IF started /\ ~finishing THEN "yes" ELSE "no")
  /\ UNCHANGED <<task, started, finishing, finished>>

LinFinish(c) ==
  /\ c.op = "Finish" /\ c.res = ""
  /\ Effect(c, "ok")
  /\ finishing' = TRUE
  /\ UNCHANGED <<task, started, finished>>

Lin == \E c \in calls : LinAdmit(c) \/ LinPush(c) \/ LinStart(c) \/ LinCancel(c) \/ LinRunning(c) \/ LinFinish(c)

Drained == \A t \in Tasks : task[t] \notin {"queued", "taken", "running"}

Ret(by, op, t, res) ==
  /\ \E c \in calls : /\ c.by = by /\ c.op = op /\ c.t = t /\ c.res = res /\ res \notin {"", "admitted"}
                      /\ calls' = calls \ {c}
  /\ op = "Finish" => Drained                      \* Finish returns only when nothing is left to run
  /\ finished' = (finished \/ op = "Finish")
  /\ UNCHANGED <<task, started, finishing>>

(* A worker takes a pending task, which can no longer be cancelled, and begins it a little later. *)
Take(t) ==
  /\ task[t] = "queued"
  /\ started \/ finishing
  /\ Cardinality(Busy) < N
  /\ task' = [task EXCEPT ![t] = "taken"]
  /\ UNCHANGED <<started, finishing, finished, calls>>

Begin(t) ==
  /\ task[t] = "taken"
  /\ task' = [task EXCEPT ![t] = "running"]
  /\ UNCHANGED <<started, finishing, finished, calls>>

End(t) ==
  /\ task[t] = "running"
  /\ \A c \in calls : c.by # t
  /\ task' = [task EXCEPT ![t] = "done"]
  /\ UNCHANGED <<started, finishing, finished, calls>>

(* What the future of a task delivers once the pool is gone; kind says how the task's body ends. *)
Outcome(t, kind) == CASE task[t] = "done" -> kind
                      [] task[t] = "cancelled" -> "broken"
                      [] OTHER -> "none"

PNext == \/ \E by \in {0} \cup Tasks, op \in Ops, t \in {0} \cup Tasks :
              (op = "Queue" <=> t # 0) /\ ~finished /\ Call(by, op, t)
         \/ Lin
         \/ \E c \in calls : Ret(c.by, c.op, c.t, c.res)
         \/ \E t \in Tasks : Take(t) \/ Begin(t) \/ End(t)
PSpec == PInit /\ [][PNext]_pvars

----------------------------------------------------------------------------
NothingAfterFinish == finished => Drained
Once == [][\A t \in Tasks : /\ task'[t] = "running" /\ task[t] # "running" => task[t] = "taken"
                            /\ task[t] \in {"done", "cancelled", "rejected"} => task'[t] = task[t]
                            /\ finishing /\ task[t] = "new" /\ task'[t] = "queued"
                                 => \E c \in calls : c.t = t /\ c.res = "admitted"]_pvars
=============================================================================
