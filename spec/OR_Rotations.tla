---------------------------- MODULE OR_Rotations ----------------------------
EXTENDS Rotations, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
K == Cmds[l]
OInit == Init /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ K.op = "new" /\ r' = Rot(Id(3), 1) /\ act' = [op |-> "new", res |-> "ok"]
     \/ K.op = "SetQuat" /\ SetQuat(K.q)
     \/ K.op = "SetRpy" /\ SetRpy(K.o)
     \/ K.op = "SetAxis" /\ SetAxis(K.a, K.n, K.k)
     \/ K.op = "SetTwo" /\ SetTwo(K.a, K.b, K.n)
     \/ K.op = "After" /\ After(K.q)
     \/ K.op = "Before" /\ Before(K.q)
     \/ K.op = "Reverse" /\ Reverse
     \/ K.op = "Invert" /\ Invert
     \/ K.op = "Apply" /\ Apply(K.v)
     \/ K.op = "Compare" /\ Compare(K.q)
     \/ K.op = "Slerp" /\ Slerp(K.ax, K.l, K.a, K.n, K.k, K.neg)
     \/ K.op = "Two" /\ Two(K.a, K.b)
     \/ K.op = "Dt" /\ Dt(K.o, K.v)
     \/ K.op = "Quats" /\ Quats(K.p, K.q, K.k)
     \/ K.op = "Mats" /\ Mats(K.m, K.n, K.v)
     \/ K.op = "Cell" /\ Cell(K.m, K.i, K.j)
     \/ K.op = "Vecs" /\ Vecs(K.u, K.v)
     \/ K.op = "Parse" /\ Parse(K.n, K.text, K.v)
     \/ K.op = "Saturate" /\ Saturate(K.x, K.lo, K.hi)
     \/ K.op = "Validate" /\ Validate(K.x, K.lo, K.hi, K.tol, K.eps, K.rel)
     \/ K.op = "Bounds" /\ Bounds(K.lo, K.hi)
OSpec == OInit /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson(Obs')>>)
=============================================================================
