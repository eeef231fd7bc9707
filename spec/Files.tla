-------------------------------- MODULE Files --------------------------------
(* The directory helpers (common::Path and common::Filesystem) over a tree of directories and files, below a root that is
   there from the start.  A node is named by the names that lead to it from the root; the environment writes files and changes
   the working directory.  A path is spelled from the root or from the working directory, with doubled or trailing slashes
   and "." in between. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES dirs, files, cwd, act     \* directories (without the root), path -> content, the working directory
vars == <<dirs, files, cwd, act>>
Pre(p, n) == SubSeq(p, 1, n)
Up(p) == Pre(p, Len(p) - 1)
IsDir(p) == p = <<>> \/ p \in dirs
IsFile(p) == p \in DOMAIN files
Exists(p) == IsDir(p) \/ IsFile(p)
Kids(p) == {q \in dirs \cup DOMAIN files : Len(q) = Len(p) + 1 /\ Up(q) = p}

\* A spelling: abs, parts (names and "."), gap (how the parts are joined), slash (whether it ends in one), set (given to
\* set_path, which drops the last slash, or to the constructor).
Full(sp) == (IF sp.abs THEN <<>> ELSE cwd) \o SelectSeq(sp.parts, LAMBDA n : n # ".")
AsDir(sp) == sp.slash /\ ~sp.set
\* "." and a last slash ask of what comes before them to be a directory.
Asked(sp) == LET base == IF sp.abs THEN 0 ELSE Len(cwd)
                 names(n) == base + Cardinality({m \in 1..n : sp.parts[m] # "."})
             IN {Pre(Full(sp), names(n)) : n \in {m \in DOMAIN sp.parts : m > 1 /\ sp.parts[m] = "."}}
Reach(sp) == (\A q \in Asked(sp) : IsDir(q)) /\ (AsDir(sp) => IsDir(Full(sp)))
Empty(sp) == sp.parts = <<>> /\ ~sp.abs

SeenFile(sp) == ~Empty(sp) /\ Reach(sp) /\ IsFile(Full(sp))
SeenDir(sp) == ~Empty(sp) /\ Reach(sp) /\ IsDir(Full(sp))
Tell(b) == IF b THEN "yes" ELSE "no"

Keep == UNCHANGED <<dirs, files, cwd>>
Did(op, sp, res) == act' = [op |-> op, sp |-> sp, res |-> res]
CanCreate(sp) == ~Empty(sp) /\ Full(sp) # <<>> /\ (\A q \in Asked(sp) : IsDir(q)) /\ IsDir(Up(Full(sp))) /\ ~Exists(Full(sp))
Create(sp) ==
  /\ dirs' = IF CanCreate(sp) THEN dirs \cup {Full(sp)} ELSE dirs
  /\ UNCHANGED <<files, cwd>>
  /\ Did("Create", sp, Tell(CanCreate(sp)))
\* As mkdir -p: what is missing on the way is made as well, and that it is there already is no failure.
Way(p) == {Pre(p, n) : n \in 1..Len(p)}
CanCreateAll(sp) == ~Empty(sp) /\ \A q \in Way(Full(sp)) : ~IsFile(q)
CreateAll(sp) ==
  /\ dirs' = IF CanCreateAll(sp) THEN dirs \cup Way(Full(sp)) ELSE dirs
  /\ UNCHANGED <<files, cwd>>
  /\ Did("CreateAll", sp, Tell(CanCreateAll(sp)))
RemoveFile(sp) ==
  /\ files' = IF SeenFile(sp) THEN [q \in DOMAIN files \ {Full(sp)} |-> files[q]] ELSE files
  /\ UNCHANGED <<dirs, cwd>>
  /\ Did("RemoveFile", sp, Tell(SeenFile(sp)))
\* (the root and the working directory stay; what is called "." at its end stays open)
CanRemoveDir(sp) == SeenDir(sp) /\ Kids(Full(sp)) = {}
RemoveDir(sp) ==
  /\ Full(sp) # <<>> /\ (IF sp.parts = <<>> THEN TRUE ELSE sp.parts[Len(sp.parts)] # ".") /\ ~(Len(cwd) >= Len(Full(sp)) /\ Pre(cwd, Len(Full(sp))) = Full(sp))
  /\ dirs' = IF CanRemoveDir(sp) THEN dirs \ {Full(sp)} ELSE dirs
  /\ UNCHANGED <<files, cwd>>
  /\ Did("RemoveDir", sp, Tell(CanRemoveDir(sp)))
Read(sp) == Keep /\ Did("Read", sp, IF SeenFile(sp) THEN [ok |-> "yes", content |-> files[Full(sp)]] ELSE [ok |-> "no", content |-> 0])
Ask(sp) == Keep /\ Did("Ask", sp, [file |-> Tell(SeenFile(sp)), dir |-> Tell(SeenDir(sp)), there |-> Tell(SeenFile(sp) \/ SeenDir(sp)),
                                   absolute |-> IF SeenFile(sp) \/ SeenDir(sp) THEN [any_of |-> <<Tell(sp.abs)>>] ELSE [any_of |-> <<"yes", "no">>]])
\* The environment
Write(p, k) ==
  /\ p # <<>> /\ IsDir(Up(p)) /\ ~IsDir(p)
  /\ files' = [q \in DOMAIN files \cup {p} |-> IF q = p THEN k ELSE files[q]]
  /\ UNCHANGED <<dirs, cwd>>
  /\ act' = [op |-> "Write", at |-> p, content |-> k, res |-> "ok"]
Enter(p) == IsDir(p) /\ cwd' = p /\ UNCHANGED <<dirs, files>> /\ act' = [op |-> "Enter", at |-> p, res |-> "ok"]

\* Texts of paths: "@" stands for the root.
RECURSIVE Join(_, _)
Join(parts, gap) == IF parts = <<>> THEN "" ELSE IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o gap \o Join(Tail(parts), gap)
Body(sp) == (IF sp.abs THEN "@" \o (IF sp.parts = <<>> THEN "" ELSE "/") ELSE "") \o Join(sp.parts, sp.gap)
Text(sp) == Body(sp) \o (IF AsDir(sp) THEN "/" ELSE "")
\* Appending a path from the root replaces; any other goes behind.
Append1(sp, tail) ==
  /\ ~Empty(sp) /\ ~AsDir(sp) /\ ~Empty(tail)
  /\ Keep /\ act' = [op |-> "Append", sp |-> sp, tail |-> tail, res |-> IF tail.abs THEN Body(tail) ELSE Body(sp) \o "/" \o Body(tail)]
Spell(sp) == Keep /\ Did("Spell", sp, Text(sp))
\* The temporary directory is where the first of these variables says, or /tmp.
TempVars == <<"TMPDIR", "TEMPDIR", "TMP", "TEMP">>
Temp(set) ==
  /\ Keep
  /\ act' = [op |-> "Temp", set |-> set,
             res |-> [path |-> IF \E n \in 1..4 : TempVars[n] \in set
                               THEN "@/" \o TempVars[CHOOSE n \in 1..4 : TempVars[n] \in set /\ \A m \in 1..(n - 1) : TempVars[m] \notin set]
                               ELSE "/tmp",
                      get |-> {[v |-> TempVars[n], is |-> IF TempVars[n] \in set THEN "@/" \o TempVars[n] ELSE ""] : n \in 1..4}]]

Init == dirs = {} /\ files = <<>> /\ cwd = <<>> /\ act = [op |-> "none"]
Obs == [dirs |-> {[p |-> "@/" \o Join(q, "/")] : q \in dirs}, files |-> {[p |-> "@/" \o Join(q, "/"), content |-> files[q]] : q \in DOMAIN files},
        cwd |-> IF cwd = <<>> THEN "@" ELSE "@/" \o Join(cwd, "/")]
\* A tree: everything but the root lies in a directory, and nothing is both.
Tree == /\ \A p \in dirs \cup DOMAIN files : p # <<>> /\ IsDir(Up(p))
        /\ dirs \cap DOMAIN files = {}
        /\ IsDir(cwd)
=============================================================================
