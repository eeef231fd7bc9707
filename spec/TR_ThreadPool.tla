---------------------------- MODULE TR_ThreadPool ----------------------------
(* Validates traces recorded from the real pool: each must be a behaviour of ThreadPool.                         *)
EXTENDS ThreadPool, Sequences, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES k, l
tvars == <<pvars, k, l>>
TTasks == 1..12
Ev == Traces[k].ev[l]
TInit == PInit /\ k \in DOMAIN Traces /\ l = 1
Consume == l <= Len(Traces[k].ev) /\ l' = l + 1 /\ UNCHANGED k
TNext == \/ Lin /\ UNCHANGED <<k, l>>
         \/ \E t \in TTasks : Take(t) /\ Cardinality(Busy) < Traces[k].n /\ UNCHANGED <<k, l>>
         \/ /\ Consume
            /\ \/ Ev.e = "call" /\ Call(Ev.by, Ev.op, Ev.t)
               \/ Ev.e = "ret" /\ Ret(Ev.by, Ev.op, Ev.t, Ev.res)
               \/ Ev.e = "begin" /\ Ev.worker /\ Begin(Ev.t)
               \/ Ev.e = "end" /\ End(Ev.t)
               \/ /\ Ev.e = "future" /\ finished
                  /\ Ev.res = Outcome(Ev.t, Ev.kind) /\ UNCHANGED pvars
               \/ Ev.e = "exit" /\ finished /\ calls = {} /\ UNCHANGED pvars
TSpec == TInit /\ [][TNext]_tvars
Report == (l > Len(Traces[k].ev)) => PrintT(<<"D", ToJson(k)>>)
Reached == PrintT(<<"L", ToJson(k), ToJson(l)>>)
=============================================================================
