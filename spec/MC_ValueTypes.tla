------------------------------ MODULE MC_ValueTypes ------------------------------
(* Each type of object on its own, so that the histories of one are not multiplied by those of the others. *)
EXTENDS ValueTypes, Json
VARIABLES isInit, side
St1(id) == [id |-> id, type |-> "Go", yield |-> <<>>]
Ds(v, sev, rs, us) == [value |-> v, sev |-> sev, rules |-> rs, uids |-> us]
Rs(a, b, d, sev, rs, us) == [min |-> a, max |-> b, desc |-> d, sev |-> sev, rules |-> rs, uids |-> us]
One(k, s) == <<[key |-> k, of |-> s]>>
Sl == {[id |-> "s", lane |-> "l", sev |-> v, min |-> a, max |-> b] : v \in {"strict", "advisory"}, a \in -1..2, b \in -1..2}
Du == {[id |-> "d", lane |-> "l", states |-> ss] :
         ss \in {<<>>} \union {<<[id |-> i, type |-> t, sev |-> v]>> : i \in {"a", "b"}, t \in {"WithS", "Parking"}, v \in {"strict", "preferred"}}
                \union {<<[id |-> "a", type |-> "WithS", sev |-> "strict"], [id |-> "a", type |-> "NoUse", sev |-> "strict"]>>}}
Rw == {[id |-> "w", lane |-> "l", stop |-> TRUE, states |-> ss, groups |-> <<>>] :
         ss \in {<<>>, <<St1("a")>>, <<St1("a"), St1("b")>>, <<St1("a"), St1("b"), St1("a")>>,
                 <<[id |-> "a", type |-> "Stop", yield |-> <<"x", "y">>]>>, <<St1("a"), [id |-> "a", type |-> "StopThenGo", yield |-> <<"x">>]>>}}
      \union {[id |-> "w", lane |-> "l", stop |-> FALSE, states |-> <<St1("a")>>, groups |-> gs] :
         gs \in {<<[light |-> "t", bulbs |-> <<"g", "h">>]>>, <<[light |-> "t", bulbs |-> <<"g">>], [light |-> "u", bulbs |-> <<"g">>]>>,
                 <<[light |-> "t", bulbs |-> <<>>]>>, <<[light |-> "t", bulbs |-> <<"g">>], [light |-> "u", bulbs |-> <<"g", "h", "g">>]>>}}
Dv == {[id |-> "v", type |-> "T", lane |-> "l", states |-> ss] :
         ss \in {<<>>, <<Ds("a", 0, <<>>, <<>>)>>, <<Ds("a", 0, <<>>, <<>>), Ds("b", 1, <<>>, <<>>)>>, <<Ds("a", 0, <<>>, <<>>), Ds("a", 1, <<>>, <<>>)>>,
                 <<Ds("a", 0, <<>>, <<>>), Ds("b", 0, <<>>, <<>>), Ds("a", 0, <<>>, <<>>)>>, <<Ds("a", 0, <<>>, <<>>), Ds("b", -1, <<>>, <<>>)>>,
                 <<Ds("a", 0, One("", <<"x">>), <<>>)>>, <<Ds("a", 0, One("k", <<"x", "x">>), <<>>)>>, <<Ds("a", 0, One("k", <<"x", "x", "x">>), One("k", <<"z", "z", "z">>))>>, <<Ds("a", 0, <<>>, One("k", <<"x", "y", "x">>))>>,
                 <<Ds("b", 0, <<>>, <<>>), Ds("a", 0, One("k", <<"x", "y">>), One("k", <<"x">>))>>, <<Ds("b", 0, <<>>, <<>>), Ds("a", 0, <<>>, One("", <<>>))>>,
                 <<Ds("a", 0, One("k", <<"x">>), <<>>), Ds("a", 0, One("k", <<"y">>), <<>>)>>}}
Rv == {[id |-> "r", type |-> "T", lane |-> "l", states |-> ss] :
         ss \in {<<>>, <<Rs(1, 2, "d", 0, <<>>, <<>>)>>, <<Rs(2, 1, "d", 0, <<>>, <<>>)>>, <<Rs(2, 2, "d", 0, <<>>, <<>>), Rs(-3, 2, "d", 0, <<>>, <<>>)>>,
                 <<Rs(1, 2, "d", 0, <<>>, <<>>), Rs(1, 2, "e", 0, <<>>, <<>>)>>, <<Rs(1, 2, "d", 0, <<>>, <<>>), Rs(1, 2, "d", 1, <<>>, <<>>)>>,
                 <<Rs(1, 2, "d", 0, <<>>, <<>>), Rs(0, 2, "d", 0, <<>>, <<>>), Rs(1, 2, "d", 0, <<>>, <<>>)>>, <<Rs(1, 2, "d", 0, <<>>, <<>>), Rs(4, 3, "d", 0, <<>>, <<>>)>>,
                 <<Rs(1, 2, "d", -2, <<>>, <<>>)>>, <<Rs(1, 2, "d", 0, One("k", <<"x", "x">>), <<>>)>>, <<Rs(1, 2, "d", 0, <<>>, One("", <<"x">>))>>}}
Next ==
  /\ isInit' = FALSE
  /\ \/ /\ side' = "bnd" /\ side \in {"none", "bnd"}
        /\ \E w \in {"r", "h"}, a \in -2..1, b \in -1..2 : Bound(w, "make", a, b) \/ Bound(w, "min", a, 0) \/ Bound(w, "max", 0, b)
     \/ /\ side' = "pos" /\ side \in {"none", "pos"}
        /\ \/ \E w \in {"p", "q"}, how \in {"make", "from", "set", "x", "y", "z"}, n \in {0, 1} : Place(w, how, n, -n, 2)
           \/ \E w \in {"p", "q"}, how \in {"plus", "minus"} : Combine(w, how, 0)
           \/ \E w \in {"p", "q"}, how \in {"left", "right"} : Combine(w, how, -1)
        /\ \A w \in {"p", "q"}, i \in 1..3 : pos'[w][i] \in -1..2
     \/ /\ side' = "lane" /\ side \in {"none", "lane"}
        /\ \E how \in {"make", "from", "set", "x", "y", "z"}, n \in {0, 1} : Place("l", how, n, -n, 2 * n)
     \/ /\ side' = "ids" /\ side \in {"none", "ids"}
        /\ \E how \in {"insert", "erase", "equal"}, s \in {"", "a", "b", "ab", "A", " ", "a "} : Identify(how, s)
        /\ Cardinality(ids') <= 3
     \/ /\ side' = "ends" /\ side \in {"none", "ends"}
        /\ \E how \in {"insert", "erase"}, l \in 0..2, e \in {"start", "finish"} : EndOp(how, l, e)
     \/ /\ side' = "val" /\ side \in {"none", "val"}
        /\ \/ \E mode \in {"abs", "rel"}, a \in {0, -1}, b \in {0, 2}, t \in {0, -1, 1, 9}, e \in {0, -1, 1, 3} : Validator(mode, a, b, t, e)
           \/ \E s \in {-27, -26, -25, -17, -16, -15, -1, 0, 1, 2, 8, 29, 31, 32, 33, 34, 41, 42} : Validate(s)
     \/ \E k \in {"sl", "du", "rw", "dv", "rv"} :
          /\ side' = k /\ side \in {"none", k}
          /\ \E c \in (IF k = "sl" THEN Sl ELSE IF k = "du" THEN Du ELSE IF k = "rw" THEN Rw ELSE IF k = "dv" THEN Dv ELSE Rv) : Make(k, c)
Spec == Init /\ isInit = TRUE /\ side = "none" /\ [][Next]_<<vars, isInit, side>>
View == <<bnd, pos, ids, ends, val, rules, side>>
\* (sequences are not told apart by their order outside)
Vw == [o |-> Obs, v |-> val, s |-> side]
EmitState == PrintT(<<"S", ToJson(Vw), ToJson(Obs), ToJson(isInit)>>)
Emit == PrintT(<<"T", ToJson(Vw), ToJson(act'), ToJson(Vw')>>)
ASSUME PrintT(<<"C", ToJson([n |-> 0])>>)
=============================================================================
