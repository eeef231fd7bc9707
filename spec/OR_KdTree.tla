------------------------------ MODULE OR_KdTree ------------------------------
EXTENDS KdTree, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
C == Cmds[l]
Bx(b) == [lo |-> b.lo, hi |-> b.hi, tol |-> b.tol]
OInit == Init /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ C.op = "new" /\ Build(C.pts)
     \/ C.op = "BuildEmpty" /\ BuildEmpty
     \/ C.op = "Nearest" /\ DoNearest(C.q, C.tol)
     \/ C.op = "Range" /\ DoRange(Bx(C.b))
     \/ C.op = "Boxes" /\ DoBoxes(Bx(C.a), Bx(C.b), C.p)
OSpec == OInit /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson([n |-> Len(pts')])>>)
=============================================================================
