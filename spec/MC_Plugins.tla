---------------------------- MODULE MC_Plugins ----------------------------
EXTENDS Plugins, Json
F(dir, name, kind, id, tag, type) == [dir |-> dir, name |-> name, kind |-> kind, id |-> id, tag |-> tag, type |-> type, to |-> ""]
MDirs == {<<"a">>, <<"a", "s.so">>, <<"b">>, <<"c">>, <<"e">>, <<"f">>}
MFiles == { F(<<"a">>, <<"libx", "so">>, "ok", "x", 1, "loader"), F(<<"a", "s.so">>, <<"y", "so">>, "ok", "y", 2, "other"), F(<<"a", "s.so">>, <<"so">>, "text", "", 0, "other"),
            F(<<"a">>, <<"x", "so", "1">>, "ok", "x", 3, "loader"), F(<<"a">>, <<"readme">>, "text", "", 0, "other"),
            F(<<"b">>, <<"", "so">>, "ok", "x", 4, "other"), F(<<"b">>, <<"z", "so">>, "noentry", "z", 5, "loader"), F(<<"b">>, <<"z2", "so">>, "ok", "z", 6, "loader"),
            F(<<"c">>, <<"u", "so">>, "noid", "", 7, "other"), F(<<"e">>, <<"v", "v", "so">>, "notype", "v", 8, "loader") }
Late == { F(<<"f">>, <<"x", "so">>, "ok", "x", 9, "loader"), F(<<"f">>, <<"w", "so">>, "text", "", 0, "other") }
Dir(d) == [t |-> "dir", d |-> d]
Entries == {Dir(<<"a">>), Dir(<<"a", "s.so">>), Dir(<<"b">>), Dir(<<"f">>), Dir(<<"nowhere">>), [t |-> "file", dir |-> <<"a">>, name |-> <<"libx", "so">>], [t |-> "raw", s |-> ""]}
Paths == {<<>>, <<Dir(<<"c">>)>>, <<Dir(<<"a">>), Dir(<<"e">>)>>, <<Dir(<<"a">>), Dir(<<"b">>), Dir(<<"a", "s.so">>)>>} \cup {<<e>> : e \in Entries} \cup {<<d, e>> : d \in Entries, e \in Entries}
Ats == {[dir |-> f.dir, name |-> f.name] : f \in files} \cup {[dir |-> <<"a">>, name |-> <<"no", "so">>]}
Ids == {"x", "y", "z", "v", "?"}
Plain(path) == IF path = <<>> THEN TRUE ELSE path[Len(path)].t # "raw"
Props == {{}, {[k |-> "a", v |-> "b"], [k |-> "c", v |-> ""]}, {[k |-> "fail", v |-> "1"]}}
Calls == LET C(w, id, p) == [what |-> w, id |-> id, props |-> p] IN
  {<<C("create", "x", p), C("loader", "x", {}), C("create", "z", p), C("create", "?", p), C("loader", "y", {}), C("create", "y", p)>> : p \in Props}
MNext ==
  \/ \E p \in Paths : Plain(p) /\ Start(p)
  \/ \E f \in Late : ~up /\ Put(f)
  \/ \E at \in Ats : Add(at)
  \/ AddNothing
  \/ \E id \in Ids : Get(id) \/ Call(id, "Sum", 3, 4) \/ Call(id, "Nothing", 0, 0)
  \/ ~up /\ \E p \in Paths, c \in Calls : Plain(p) /\ Session(p, c)
  \/ ~up /\ \E d \in dirs, s \in {"", "so", "1"} : FilesIn(d, s)
  \/ ~up /\ known = {} /\ \E w \in {<<>>, <<"a">>, <<"", "a", "b c", "a">>} : Words(w)
Spec == InitOn(MDirs, MFiles) /\ [][MNext]_vars
View == [k |-> known, u |-> up, f |-> files]
ASSUME PrintT(<<"C", ToJson([dirs |-> MDirs, files |-> MFiles])>>)
EmitState == PrintT(<<"S", ToJson(View), ToJson(Obs), ToJson(~up /\ files = MFiles)>>)
Emit == PrintT(<<"T", ToJson(View), ToJson(act'), ToJson(View')>>)
=============================================================================
