------------------------------- MODULE MC_Files -------------------------------
EXTENDS Files, Json
VARIABLE isInit
Names == {"a", "bb"}
Paths == {<<x>> : x \in Names} \cup {<<x, y>> : x, y \in Names}
Deep == {<<"a", "bb", "a">>, <<"bb", "a", "a">>}
Sp(a, p, g, s, t) == [abs |-> a, parts |-> p, gap |-> g, slash |-> s, set |-> t]
Plain == {Sp(a, p, "/", FALSE, TRUE) : a \in BOOLEAN, p \in Paths}
Odd == {Sp(a, p, "/", TRUE, t) : a \in BOOLEAN, p \in Paths, t \in BOOLEAN}
       \cup {Sp(a, p, "//", FALSE, FALSE) : a \in BOOLEAN, p \in {<<"a", "bb">>, <<"bb", "a">>}}
       \cup {Sp(a, p, "/", FALSE, FALSE) : a \in BOOLEAN, p \in {<<".", "a">>, <<"a", ".", "bb">>, <<"bb", ".">>, <<>>} \cup Deep}
Low(sp) == Len(Full(sp)) <= 2
Next ==
  /\ isInit' = FALSE
  /\ \/ \E sp \in Plain \cup Odd :
          /\ (sp.abs \/ cwd # <<>>)
          /\ \/ Low(sp) /\ Create(sp) /\ sp.parts # <<"bb", ".">> /\ sp.parts # <<>>
             \/ Low(sp) /\ CreateAll(sp)
             \/ sp \in Odd /\ (RemoveFile(sp) \/ RemoveDir(sp) \/ Read(sp)) /\ sp.parts # <<"bb", ".">>
             \/ sp \in Plain /\ (RemoveFile(sp) \/ RemoveDir(sp) \/ Read(sp))
             \/ Ask(sp)
     \/ \E p \in Paths : (Write(p, 1) /\ p \notin DOMAIN files) \/ (Enter(p) /\ Len(p) = 1 /\ cwd = <<>>)
     \/ Enter(<<>>) /\ cwd # <<>>
Spec == Init /\ isInit = TRUE /\ [][Next]_<<vars, isInit>>
View == [d |-> {[p |-> Join(q, "/")] : q \in dirs}, f |-> {[p |-> Join(q, "/"), k |-> files[q]] : q \in DOMAIN files}, c |-> Join(cwd, "/")]
EmitState == PrintT(<<"S", ToJson(View), ToJson(Obs), ToJson(isInit)>>)
Out(a) == IF "sp" \in DOMAIN a THEN [a EXCEPT !.sp = [text |-> Body(a.sp) \o (IF a.sp.slash THEN "/" ELSE ""), set |-> a.sp.set]]
          ELSE IF "at" \in DOMAIN a THEN [a EXCEPT !.at = "@/" \o Join(a.at, "/")] ELSE a
Emit == PrintT(<<"T", ToJson(View), ToJson(Out(act')), ToJson(View')>>)
ASSUME PrintT(<<"C", ToJson([n |-> 0])>>)
\* What helpers do stays inside what they were asked for.
OnlyAsked == [][act'.op \in {"Read", "Ask"} => UNCHANGED <<dirs, files, cwd>>]_vars
=============================================================================
