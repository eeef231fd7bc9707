------------------------------ MODULE Plugins ------------------------------
(* Plugins: which of the libraries on a search path or added by hand a plugin manager lists and serves.               *)
(* Implementation: maliput/plugin, maliput/utility/file_utils                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* kind: "ok" - a plugin; "noentry" - a plugin that makes no road network loaders; "noid", "notype" - a library that lacks the function that   *)
(* tells its id or type; "text", "dangling" - no library.  tag tells the libraries apart.  type: "loader", "other".    *)
VARIABLES dirs,    \* directories: sequences of names
          files,   \* files: [dir, name: the parts of the name between its dots, kind, id, tag, type]
          known,   \* what the manager has: [id, any]: any of these [tag, type] may be served
          up,      \* there is a manager
          act
vars == <<dirs, files, known, up, act>>

IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Ends(f, suffix) == Len(f.name) > 1 /\ f.name[Len(f.name)] = suffix
Under(d) == {f \in files : IsPrefix(d, f.dir)}
Libs(d) == {f \in Under(d) : Ends(f, "so")}
Good(f) == f.kind \in {"ok", "noentry"} /\ f.id # ""
What(f) == [tag |-> f.tag, type |-> f.type]
Known(id) == \E p \in known : p.id = id
The(k, id) == (CHOOSE p \in k : p.id = id).any

IsAt(f, at) == f.dir = at.dir /\ f.name = at.name

(* A search path: a sequence of [t: "dir", d] or of other things, which are skipped. The later directories prevail;    *)
(* within one, any of those with the same id.                                                                          *)
Roots(path) == SelectSeq(path, LAMBDA e : e.t = "dir" /\ e.d \in dirs)
AllGood(path) == \A i \in DOMAIN Roots(path) : \A f \in Libs(Roots(path)[i].d) : Good(f)
Found(path) ==
  LET R == Roots(path)
      ids == UNION {{f.id : f \in Libs(R[i].d)} : i \in DOMAIN R}
      last(id) == CHOOSE i \in DOMAIN R : (\E f \in Libs(R[i].d) : f.id = id) /\ \A j \in (i + 1)..Len(R) : \A f \in Libs(R[j].d) : f.id # id IN
  {[id |-> id, any |-> {What(f) : f \in {g \in Libs(R[last(id)].d) : g.id = id}}] : id \in ids}

RECURSIVE Join(_, _)
Join(s, by) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o by \o Join(Tail(s), by)
Text(f) == Join(Append(f.dir, Join(f.name, ".")), "/")

InitOn(D, F) == dirs = D /\ files = F /\ known = {} /\ up = FALSE /\ act = [op |-> "new"]

(* A new file. *)
Put(f) ==
  /\ \A g \in files : ~IsAt(g, f)
  /\ files' = files \cup {f} /\ act' = [op |-> "Put", file |-> f, res |-> "ok"] /\ UNCHANGED <<dirs, known, up>>

(* A new manager. *)
Start(path) == LET ok == AllGood(path) IN
  /\ known' = (IF ok THEN Found(path) ELSE known) /\ up' = (up \/ ok)
  /\ UNCHANGED <<dirs, files>>
  /\ act' = [op |-> "Start", path |-> path, res |-> IF ok THEN "ok" ELSE "throws"]
(* File: [dir, name]; maybe there is none. *)
Add(at) == LET F == {f \in files : IsAt(f, at) /\ Good(f)}
               f == CHOOSE x \in F : TRUE IN
  /\ up
  /\ known' = IF F = {} THEN known ELSE {p \in known : p.id # f.id} \cup {[id |-> f.id, any |-> {What(f)}]}
  /\ act' = [op |-> "Add", at |-> at, res |-> IF F = {} THEN "throws" ELSE "ok"]
  /\ UNCHANGED <<dirs, files, up>>
AddNothing == up /\ act' = [op |-> "AddNothing", res |-> "throws"] /\ UNCHANGED <<dirs, files, known, up>>
(* The plugin with the id: which it is, and what its functions give. *)
Get(id) == /\ up
           /\ act' = [op |-> "Get", id |-> id, res |-> IF Known(id) THEN [any_of |-> {[id |-> id, tag |-> x.tag, type |-> x.type] : x \in The(known, id)}] ELSE "none"]
           /\ UNCHANGED <<dirs, files, known, up>>
Call(id, what, a, b) ==
  /\ up /\ Known(id)
  /\ act' = [op |-> "Call", id |-> id, what |-> what, a |-> a, b |-> b,
             res |-> IF what = "Sum" THEN [any_of |-> {x.tag * 1000 + 10 * a + b : x \in The(known, id)}] ELSE "throws"]
  /\ UNCHANGED <<dirs, files, known, up>>

(* Road networks by plugins: a fresh process that has path as its search path and that makes these calls:               *)
(* [what: "create" or "loader", id, props: set of [k, v]].                                                              *)
Loaders(path, id) == LET k == Found(path) IN IF \E p \in k : p.id = id THEN The(k, id) ELSE {}
HasEntry(t) == \A f \in files : f.tag = t => f.kind # "noentry"
Refused == [tag |-> 0, props |-> {}, same |-> FALSE]
CallRes(path, c) ==
  LET L == Loaders(path, c.id) IN
  [any_of |-> IF ~AllGood(path) \/ L = {} THEN {Refused}
              ELSE {IF x.type # "loader" \/ ~HasEntry(x.tag) THEN Refused
                    ELSE IF c.what = "loader" THEN [tag |-> x.tag, props |-> {}, same |-> FALSE]
                    ELSE IF \E p \in c.props : p.k = "fail" THEN Refused
                    ELSE [tag |-> x.tag, props |-> c.props, same |-> TRUE] : x \in L}]
Session(path, calls) ==
  /\ act' = [op |-> "Session", path |-> path, calls |-> calls, res |-> {[i |-> i, r |-> CallRes(path, calls[i])] : i \in DOMAIN calls}]
  /\ UNCHANGED <<dirs, files, known, up>>

(* Helpers: the files under a directory that have a suffix, all of them without one; the entries of a path variable.     *)
FilesIn(d, suffix) ==
  /\ act' = [op |-> "FilesIn", d |-> d, suffix |-> suffix,
             res |-> {Text(f) : f \in {g \in Under(d) : suffix = "" \/ Ends(g, suffix)}}]
  /\ UNCHANGED <<dirs, files, known, up>>
Words(parts) ==
  /\ act' = [op |-> "Words", parts |-> parts, res |-> {[i |-> i, w |-> parts[i]] : i \in DOMAIN parts}]
  /\ UNCHANGED <<dirs, files, known, up>>

Obs == [list |-> {[id |-> p.id, type |-> [any_of |-> {x.type : x \in p.any}]] : p \in known}]

UniqueIds == \A p, q \in known : p.id = q.id => p = q
Served == \A p \in known : p.any # {} /\ \A x \in p.any : \E f \in files : f.id = p.id /\ What(f) = x /\ Good(f)
ErrorsKeep == [][act'.op \in {"Start", "Add", "AddNothing"} /\ act'.res = "throws" => UNCHANGED <<dirs, files, known, up>>]_vars
Latest == [][act'.op = "Add" /\ act'.res = "ok" => \E f \in files : IsAt(f, act'.at) /\ The(known', f.id) = {What(f)}
                                                        /\ {p \in known : p.id # f.id} = {p \in known' : p.id # f.id}]_vars
=============================================================================
