--------------------------------- MODULE Log ----------------------------------
(* Loggers: which messages reach which sink.  "global" is the one that everybody gets from maliput::log(); "own" is any other.
   A message reaches the sink of its logger once, at once, when its level is not below the logger's; what it says is its level
   and then its arguments, one after the other. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES level, sink, act     \* per logger: the least level logged (1..7), and the sink ("std" is the standard output)
vars == <<level, sink, act>>
Loggers == {"global", "own"}
Levels == <<"trace", "debug", "info", "warn", "error", "critical", "off">>
No(name) == CHOOSE n \in DOMAIN Levels : Levels[n] = name
Labels == [trace |-> "[TRACE] ", debug |-> "[DEBUG] ", info |-> "[INFO] ", warn |-> "[WARNING] ", error |-> "[ERROR] ", critical |-> "[CRITICAL] "]

\* An argument: a text, a whole number, a truth value, or the id or the end of a lane.
Told(a) == IF a.kind = "int" THEN ToString(a.n) ELSE IF a.kind = "bool" THEN (IF a.n = 0 THEN "0" ELSE "1") ELSE a.text
RECURSIVE Tell(_)
Tell(as) == IF as = <<>> THEN "" ELSE Told(Head(as)) \o Tell(Tail(as))

Log(g, name, as) ==
  /\ UNCHANGED <<level, sink>>
  /\ act' = [op |-> "Log", on |-> g, level |-> name, args |-> [n \in DOMAIN as |-> [i |-> n, a |-> as[n]]],
             res |-> [got |-> IF No(name) >= level[g] THEN {[sink |-> sink[g], text |-> Labels[name] \o Tell(as) \o "\n"]} ELSE {}]]
\* Setting tells the level there was before.
Set(g, name) ==
  /\ level' = IF name = "unchanged" THEN level ELSE [level EXCEPT ![g] = No(name)]
  /\ UNCHANGED sink
  /\ act' = [op |-> "Set", on |-> g, level |-> name, res |-> Levels[level[g]]]
\* By name, of the global one.
SetByName(name) ==
  IF name \in {Levels[n] : n \in DOMAIN Levels} \cup {"unchanged"}
  THEN /\ level' = IF name = "unchanged" THEN level ELSE [level EXCEPT !["global"] = No(name)]
       /\ UNCHANGED sink
       /\ act' = [op |-> "SetByName", level |-> name, res |-> Levels[level["global"]]]
  ELSE UNCHANGED <<level, sink>> /\ act' = [op |-> "SetByName", level |-> name, res |-> "throws"]
\* The logger has its sink to itself and gives it up for the next; a logger without one there cannot be.
SetSink(g, s) ==
  IF s = "none" THEN UNCHANGED <<level, sink>> /\ act' = [op |-> "SetSink", on |-> g, sink |-> s, res |-> "throws"]
  ELSE /\ sink' = [sink EXCEPT ![g] = s] /\ UNCHANGED level
       /\ act' = [op |-> "SetSink", on |-> g, sink |-> s, res |-> [gone |-> IF sink[g] = "std" THEN {} ELSE {sink[g]}]]

\* A new logger logs from "info" on, to the standard output.
Start == level = [g \in Loggers |-> 3] /\ sink = [g \in Loggers |-> "std"] /\ act = [op |-> "none"]
Obs == [sinks |-> {[on |-> g, sink |-> sink[g]] : g \in Loggers}, levels |-> {[on |-> g, level |-> Levels[level[g]]] : g \in Loggers}, one |-> "yes"]
TypeOK == level \in [Loggers -> 1..7]
=============================================================================
