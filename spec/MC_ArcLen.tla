------------------------------- MODULE MC_ArcLen -------------------------------
EXTENDS ArcLen, Json, TLC
VARIABLE isInit
Ks == {<<1, 0>>, <<2, 1>>}
Cfgs == {[kind |-> "arc", lo |-> 0, im |-> 0], [kind |-> "arc", lo |-> -1, im |-> 0], [kind |-> "inv", lo |-> 0, im |-> 0],
         [kind |-> "inv", lo |-> -1, im |-> 5], [kind |-> "poly", lo |-> 2, im |-> -1]}
Fresh == at = [k |-> <<0, 0>>, n |-> 0]
Next ==
  /\ isInit' = FALSE
  /\ \/ \E k \in Ks :
          \/ \E n \in -1..3 : Evaluate(k, n)
          \/ \E n \in {2, 3}, m \in {1, 2} : EvaluateBroken(k, n, m)
          \/ Make("a", k, 0, 3, 1) \/ Make("a", k, 1, 2, 200) \/ Make("a", k, -1, 2, 1)
          \/ Make("b", k, 0, 2, 1)
          \/ MakeBroken("b", k, 0, 3, 2)
     \/ Drop
     \/ Fresh /\ \E c \in Cfgs : c # cfg /\ Open(c, 1)
     \/ \E s \in Slots : \/ \E n \in 0..3 : Call(s, n, "at")
                         \/ \E side \in Sides \ {"at"} : Call(s, 0, side)
Spec == Init /\ isInit = TRUE /\ [][Next]_<<vars, isInit>>
View == <<cfg, fns, alive, at, kept>>
Vw == [c |-> cfg, l |-> alive, f |-> fns, a |-> at, k |-> kept]
EmitState == PrintT(<<"S", ToJson(Vw), ToJson(Obs), ToJson(isInit)>>)
Emit == PrintT(<<"T", ToJson(Vw), ToJson(act'), ToJson(Vw')>>)
ASSUME PrintT(<<"C", ToJson([n |-> 0])>>)
=============================================================================
