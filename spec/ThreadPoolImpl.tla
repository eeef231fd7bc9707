--------------------------- MODULE ThreadPoolImpl ---------------------------
(* The algorithm of thread_pool.cc at the granularity of its critical sections, checked by TLC to refine           *)
(* ThreadPool, to be free of deadlock and to finish.  A main thread issues every possible sequence of calls, and    *)
(* task bodies may queue a child task or cancel.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Tasks, N, Main,     \* Main: number of calls the owner makes before Finish
          Child,              \* task -> child it queues while running (0: none)
          Canceller           \* tasks whose body cancels what is pending
Workers == 1..N

VARIABLES q,          \* the deque
          run, fin,   \* is_running_, is_finished_
          w,          \* worker -> [pc, t]
          mpc, left,  \* main: program counter, calls left
          task, calls, everstarted, ret
vars == <<q, run, fin, w, mpc, left, task, calls, everstarted, ret>>
P == INSTANCE ThreadPool WITH started <- everstarted, finishing <- fin, finished <- ret

Init == /\ q = <<>> /\ run = FALSE /\ fin = FALSE /\ mpc = "idle" /\ left = Main
        /\ w = [i \in Workers |-> [pc |-> "boot", t |-> 0]]
        /\ task = [t \in Tasks |-> "new"] /\ calls = {} /\ everstarted = FALSE /\ ret = FALSE

Set(i, pc, t) == w' = [w EXCEPT ![i] = [pc |-> pc, t |-> t]]
WakeOne(S) == IF S = {} THEN w' = w ELSE \E i \in S : Set(i, "loop", 0)
WaitingStart == {i \in Workers : w[i].pc = "waitstart"}
WaitingTask == {i \in Workers : w[i].pc = "waittask"}
Roots == {t \in Tasks : \A u \in Tasks : Child[u] # t}

\* ---- calls: [by, op, t, res]
C(by) == CHOOSE c \in calls : c.by = by
Busy(by) == \E c \in calls : c.by = by
Enter(by, op, t) == ~Busy(by) /\ calls' = calls \cup {[by |-> by, op |-> op, t |-> t, res |-> ""]}
Leave(by) == calls' = calls \ {C(by)}
Took(by, r) == calls' = (calls \ {C(by)}) \cup {[C(by) EXCEPT !.res = r]}

MainCall == /\ mpc = "idle" /\ ~Busy(0)
            /\ \/ left > 0 /\ left' = left - 1 /\ UNCHANGED mpc
                  /\ \/ \E t \in Roots : task[t] = "new" /\ Enter(0, "Queue", t)
                     \/ Enter(0, "Start", 0) \/ Enter(0, "Cancel", 0)
               \/ Enter(0, "Finish", 0) /\ mpc' = "fin0" /\ UNCHANGED left
            /\ UNCHANGED <<q, run, fin, w, task, everstarted, ret>>

\* Queue: test the flag (rejecting), then push under the lock, then notify one, then return.
QueueTest(by) == /\ Busy(by) /\ C(by).op = "Queue" /\ C(by).res = "" /\ fin
                 /\ Took(by, "throws") /\ task' = [task EXCEPT ![C(by).t] = "rejected"]
                 /\ UNCHANGED <<q, run, fin, w, mpc, left, everstarted, ret>>
QueueAdmit(by) == /\ Busy(by) /\ C(by).op = "Queue" /\ C(by).res = "" /\ ~fin
                  /\ Took(by, "admitted")
                  /\ UNCHANGED <<q, run, fin, w, mpc, left, task, everstarted, ret>>
QueuePush(by) == /\ Busy(by) /\ C(by).op = "Queue" /\ C(by).res = "admitted"
                 /\ Took(by, "ok") /\ task' = [task EXCEPT ![C(by).t] = "queued"]
                 /\ q' = Append(q, C(by).t)
                 /\ UNCHANGED <<run, fin, w, mpc, left, everstarted, ret>>
QueueNotify(by) == /\ Busy(by) /\ C(by).op = "Queue" /\ C(by).res = "ok"
                   /\ Leave(by) /\ WakeOne(WaitingTask)
                   /\ UNCHANGED <<q, run, fin, mpc, left, task, everstarted, ret>>
QueueThrow(by) == /\ Busy(by) /\ C(by).op = "Queue" /\ C(by).res = "throws" /\ Leave(by)
                  /\ UNCHANGED <<q, run, fin, w, mpc, left, task, everstarted, ret>>
Cancel(by) == /\ Busy(by) /\ C(by).op = "Cancel" /\ C(by).res = "" /\ Took(by, "ok") /\ q' = <<>>
              /\ task' = [t \in Tasks |-> IF task[t] = "queued" THEN "cancelled" ELSE task[t]]
              /\ UNCHANGED <<run, fin, w, mpc, left, everstarted, ret>>
StartEff == /\ Busy(0) /\ C(0).op = "Start" /\ C(0).res = ""
            /\ IF run \/ fin THEN Took(0, "throws") /\ UNCHANGED <<run, w, everstarted>>
               ELSE /\ Took(0, "ok") /\ run' = TRUE /\ everstarted' = TRUE
                    /\ w' = [i \in Workers |-> IF i \in WaitingStart THEN [pc |-> "loop", t |-> 0] ELSE w[i]]
            /\ UNCHANGED <<q, fin, mpc, left, task, ret>>
Return(by) == /\ Busy(by) /\ C(by).op \in {"Cancel", "Start"} /\ C(by).res # "" /\ Leave(by)
              /\ UNCHANGED <<q, run, fin, w, mpc, left, task, everstarted, ret>>
\* Finish: flag; release workers that wait for the start; notify all; wait for the workers.
Fin0 == /\ mpc = "fin0" /\ fin' = TRUE /\ Took(0, "ok") /\ mpc' = "fin1"
        /\ UNCHANGED <<q, run, w, left, task, everstarted, ret>>
Fin1 == /\ mpc = "fin1" /\ run' = TRUE /\ mpc' = "fin2"
        /\ w' = [i \in Workers |-> IF i \in WaitingStart THEN [pc |-> "loop", t |-> 0] ELSE w[i]]
        /\ UNCHANGED <<q, fin, left, task, calls, everstarted, ret>>
Fin2 == /\ mpc = "fin2" /\ mpc' = "fin3"
        /\ w' = [i \in Workers |-> IF i \in WaitingTask THEN [pc |-> "loop", t |-> 0] ELSE w[i]]
        /\ UNCHANGED <<q, run, fin, left, task, calls, everstarted, ret>>
Fin3 == /\ mpc = "fin3" /\ \A i \in Workers : w[i].pc = "exit"
        /\ mpc' = "done" /\ run' = FALSE /\ Leave(0) /\ ret' = TRUE
        /\ UNCHANGED <<q, fin, w, left, task, everstarted>>

Boot(i) == /\ w[i].pc = "boot" /\ Set(i, IF run THEN "loop" ELSE "waitstart", 0)
           /\ UNCHANGED <<q, run, fin, mpc, left, task, calls, everstarted, ret>>
Spurious(i) == /\ w[i].pc = "waittask" /\ Set(i, "loop", 0)
               /\ UNCHANGED <<q, run, fin, mpc, left, task, calls, everstarted, ret>>
Loop(i) == /\ w[i].pc = "loop"
           /\ IF q = <<>> THEN /\ Set(i, IF fin THEN "exit" ELSE "waittask", 0)
                               /\ UNCHANGED <<q, task>>
                          ELSE /\ Set(i, "begin", Head(q)) /\ q' = Tail(q)
                               /\ task' = [task EXCEPT ![Head(q)] = "taken"]
           /\ UNCHANGED <<run, fin, mpc, left, calls, everstarted, ret>>
Begin(i) == /\ w[i].pc = "begin" /\ Set(i, "body", w[i].t) /\ task' = [task EXCEPT ![w[i].t] = "running"]
            /\ UNCHANGED <<q, run, fin, mpc, left, calls, everstarted, ret>>
Body(i) == /\ w[i].pc = "body"
           /\ \/ /\ Child[w[i].t] # 0 /\ task[Child[w[i].t]] = "new" /\ Enter(w[i].t, "Queue", Child[w[i].t])
                 /\ Set(i, "tail", w[i].t) /\ UNCHANGED task
              \/ /\ w[i].t \in Canceller /\ Enter(w[i].t, "Cancel", 0)
                 /\ Set(i, "tail", w[i].t) /\ UNCHANGED task
              \/ /\ Child[w[i].t] = 0 /\ w[i].t \notin Canceller
                 /\ Set(i, "tail", w[i].t) /\ UNCHANGED <<task, calls>>
           /\ UNCHANGED <<q, run, fin, mpc, left, everstarted, ret>>
Done(i) == /\ w[i].pc = "tail" /\ ~Busy(w[i].t)
           /\ task' = [task EXCEPT ![w[i].t] = "done"] /\ Set(i, "loop", 0)
           /\ UNCHANGED <<q, run, fin, mpc, left, calls, everstarted, ret>>

Step(by) == QueueTest(by) \/ QueueAdmit(by) \/ QueuePush(by) \/ QueueNotify(by) \/ QueueThrow(by) \/ Cancel(by) \/ Return(by)
MainStep == StartEff \/ Fin0 \/ Fin1 \/ Fin2 \/ Fin3 \/ Step(0)
WStep(i) == Boot(i) \/ Loop(i) \/ Begin(i) \/ Body(i) \/ Done(i) \/ (w[i].t # 0 /\ Step(w[i].t))
Terminated == mpc = "done" /\ UNCHANGED vars
Next == MainCall \/ MainStep \/ Terminated \/ \E i \in Workers : WStep(i) \/ Spurious(i)
Fair == WF_vars(MainCall \/ MainStep) /\ \A i \in Workers : WF_vars(WStep(i))
Spec == Init /\ [][Next]_vars /\ Fair

Refines == P!PSpec
AbstractSafe == P!TypeOK /\ P!NothingAfterFinish /\ (ret => q = <<>>)
RefinesOnce == P!Once
Finishes == <>(mpc = "done")
=============================================================================
