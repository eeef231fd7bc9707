----------------------------- MODULE MC_Phases -----------------------------
(* Exhaustive configurations: the ring book alone with rings of every (in)valid shape (Next5), and the providers and *)
(* intersections that follow the current phase (Next6).                                                             *)
EXTENDS Phases, Json
Rw(r, s) == [rule |-> r, state |-> s]
Dv(r, v) == [rule |-> r, val |-> v]
Bu(t, b, s) == [tl |-> t, bulb |-> b, state |-> s]
Ph(i, id, rw, dv, hasb, bulbs) == [i |-> i, id |-> id, rw |-> rw, dv |-> dv, hasb |-> hasb, bulbs |-> bulbs]
To(i, id, d) == [i |-> i, id |-> id, dur |-> d]
Nx(p, to) == [phase |-> p, to |-> to]
Ring(id, ph, hn, nx) == [id |-> id, phases |-> ph, hasnext |-> hn, next |-> nx]
NB(i, id, rw, dv) == Ph(i, id, rw, dv, FALSE, {})

Go == Ph(1, "p", {Rw("w1", "go"), Rw("w2", "stop")}, {Dv("d1", "v0")}, TRUE, {Bu("L1", "b1", "on"), Bu("L1", "b2", "off")})
Stop == Ph(2, "q", {Rw("w1", "stop"), Rw("w2", "go")}, {Dv("d1", "v1")}, TRUE, {Bu("L1", "b1", "off"), Bu("L1", "b2", "blinking")})
Cycle == {Nx("p", {To(1, "q", 3), To(2, "p", 0)}), Nx("q", {To(1, "p", 0)})}
(* Contents of rings by name; the id is put in later. *)
Good == { [phases |-> {Go, Stop}, hasnext |-> TRUE, next |-> Cycle],
          [phases |-> {Stop}, hasnext |-> FALSE, next |-> {}],
          [phases |-> {NB(1, "p", {Rw("w3", "go")}, {})}, hasnext |-> TRUE, next |-> {Nx("p", {})}],
          [phases |-> {NB(1, "p", {Rw("w3", "go")}, {Dv("d1", "v0")}), NB(2, "z", {Rw("w3", "stop")}, {Dv("d1", "v9")})}, hasnext |-> FALSE, next |-> {}],
          [phases |-> {NB(1, "q", {}, {Dv("d2", "v0")})}, hasnext |-> FALSE, next |-> {}],
          [phases |-> {Ph(1, "q", {Rw("w3", "go"), Rw("w2", "go")}, {}, TRUE, {Bu("L2", "b1", "on")})}, hasnext |-> FALSE, next |-> {}] }
P1 == NB(1, "p", {Rw("w1", "go")}, {Dv("d1", "v0")})
Bad == { [phases |-> {}, hasnext |-> FALSE, next |-> {}],
         [phases |-> {}, hasnext |-> TRUE, next |-> {Nx("p", {})}],
         [phases |-> {Go, [Go EXCEPT !.i = 2]}, hasnext |-> FALSE, next |-> {}],
         [phases |-> {P1, NB(2, "q", {Rw("w2", "go")}, {Dv("d1", "v0")})}, hasnext |-> FALSE, next |-> {}],
         [phases |-> {P1, NB(2, "q", {Rw("w1", "go"), Rw("w2", "go")}, {Dv("d1", "v0")})}, hasnext |-> FALSE, next |-> {}],
         [phases |-> {P1, NB(2, "q", {}, {Dv("d1", "v0")})}, hasnext |-> FALSE, next |-> {}],
         [phases |-> {P1, NB(2, "q", {Rw("w1", "go")}, {Dv("d2", "v0")})}, hasnext |-> FALSE, next |-> {}],
         [phases |-> {P1, NB(2, "q", {Rw("w1", "go")}, {})}, hasnext |-> FALSE, next |-> {}],
         [phases |-> {P1, NB(2, "q", {Rw("w1", "go")}, {Dv("d1", "v0"), Dv("d2", "v0")})}, hasnext |-> FALSE, next |-> {}],
         [phases |-> {P1, Ph(2, "q", P1.rw, P1.dv, TRUE, {Bu("L1", "b1", "on")})}, hasnext |-> FALSE, next |-> {}],
         [phases |-> {[P1 EXCEPT !.hasb = TRUE, !.bulbs = {Bu("L1", "b1", "on")}], [P1 EXCEPT !.i = 2, !.id = "q"]}, hasnext |-> FALSE, next |-> {}],
         [phases |-> {Go, [Stop EXCEPT !.bulbs = {Bu("L1", "b1", "on"), Bu("L1", "b3", "off")}]}, hasnext |-> FALSE, next |-> {}],
         [phases |-> {Go, [Stop EXCEPT !.bulbs = {Bu("L1", "b1", "on"), Bu("L2", "b2", "off")}]}, hasnext |-> FALSE, next |-> {}],
         [phases |-> {Go, [Stop EXCEPT !.bulbs = {Bu("L1", "b1", "on")}]}, hasnext |-> FALSE, next |-> {}],
         [phases |-> {Go, Stop}, hasnext |-> TRUE, next |-> {}],
         [phases |-> {Go, Stop}, hasnext |-> TRUE, next |-> {Nx("p", {To(1, "p", 0)})}],
         [phases |-> {Go, Stop}, hasnext |-> TRUE, next |-> {Nx("p", {}), Nx("zz", {})}],
         [phases |-> {Go, Stop}, hasnext |-> TRUE, next |-> {Nx("p", {}), Nx("q", {}), Nx("zz", {})}],
         [phases |-> {Go, Stop}, hasnext |-> TRUE, next |-> {Nx("p", {To(1, "q", 0)}), Nx("q", {To(1, "zz", 0)})}],
         [phases |-> {Go}, hasnext |-> TRUE, next |-> {Nx("p", {To(1, "q", 0)})}] }
WithId(c, id) == Ring(id, c.phases, c.hasnext, c.next)

MCRings == {"A", "B", "C", "X"}
MCRw == {"w1", "w2", "w3", "w9"}
MCDv == {"d1", "d2", "d3", "d9"}
MCLights == {"L1", "L2", "L9"}
MCInters == {"I", "J", "K"}
MCTypes == {"t", "u", "none"}
MCDvDesc == {[id |-> "d1", type |-> "t", zone |-> <<R("l1", 0, 4), R("l1", 8, 6)>>, states |-> <<"v0", "v1">>],
             [id |-> "d2", type |-> "u", zone |-> <<R("l1", 2, 3), R("l2", 0, 5)>>, states |-> <<"v1", "v0", "v2">>],
             [id |-> "d3", type |-> "t", zone |-> <<R("l2", 9, 5)>>, states |-> <<"v0">>]}
MCLanes == {[id |-> "l1", y |-> 0, len |-> 10], [id |-> "l2", y |-> 2, len |-> 10]}
MCPoints == {[p |-> 1, x |-> 3, y |-> 0, lane |-> "l1", s |-> 3], [p |-> 2, x |-> 7, y |-> 1, lane |-> "l1", s |-> 7],
             [p |-> 3, x |-> 5, y |-> 1, lane |-> "l2", s |-> 5], [p |-> 4, x |-> 9, y |-> 3, lane |-> "l2", s |-> 9],
             [p |-> 5, x |-> 5, y |-> -1, lane |-> "l1", s |-> 5]}
MCRegions == << [ranges |-> <<R("l1", 2, 3)>>, tol |-> 0], [ranges |-> <<R("l2", 0, 1), R("l1", 9, 8)>>, tol |-> 1],
                [ranges |-> <<>>, tol |-> 0] >>
Cfg == [rings |-> MCRings, rwrules |-> MCRw, dvrules |-> MCDv, lights |-> MCLights, inters |-> MCInters, types |-> MCTypes,
        dvdesc |-> {[id |-> d.id, type |-> d.type, zone |-> EncSeq(d.zone), states |-> {[i |-> k, v |-> d.states[k]] : k \in DOMAIN d.states}] : d \in MCDvDesc},
        lanes |-> MCLanes, points |-> MCPoints, regions |-> {[i |-> k, ranges |-> EncSeq(MCRegions[k].ranges), tol |-> MCRegions[k].tol] : k \in DOMAIN MCRegions}]
ASSUME PrintT(<<"C", ToJson(Cfg)>>)

Next5 == \/ \E c \in Good \cup Bad, id \in {"A", "B", "C"} : AddRing(WithId(c, id))
         \/ \E id \in MCRings : RemoveRing(id)
         \/ Defaults
Spec5 == Init /\ [][Next5]_vars

RA == WithId([phases |-> {Go, Stop}, hasnext |-> TRUE, next |-> Cycle], "A")
RB == Ring("B", {NB(1, "p", {Rw("w3", "go")}, {Dv("d2", "v2")}), NB(2, "z", {Rw("w3", "stop")}, {Dv("d2", "v0")})}, FALSE, {})
Next6 == \/ \E D \in {RA, RB} : AddRing(D) \/ RemoveRing(D.id)
         \/ \E p \in {"p", "q", "zz"}, n \in {"", "q", "zz"}, d \in {0, 5} : (p = "zz" => n = "q") /\ (n = "zz" => p = "p" /\ d = 0) /\ (ProvAdd("A", p, n, d) \/ ProvSet("A", p, n, d) \/ InterSet("I", p, n, d))
         \/ ProvAdd("B", "z", "", 0) \/ ProvSet("B", "z", "p", 0) \/ ProvSet("X", "p", "", 0)
         \/ \E m \in {<<"d1", "v1", "", 0>>, <<"d1", "v2", "", 0>>, <<"d1", "v0", "v2", 1>>, <<"d1", "v0", "v1", 0>>, <<"d1", "v0", "v1", -1>>,
                      <<"d1", "v0", "", 2>>, <<"d3", "v0", "v0", 4>>, <<"d9", "v0", "", 0>>} : ManualSet(m[1], m[2], m[3], m[4])
         \/ \E r \in {<<R("l1", 9, 8), R("l2", 6, 4)>>} : AddInter("I", RA, r)
         \/ AddInter("J", RB, <<R("l2", 0, 9)>>)
Spec6 == Init /\ [][Next6]_vars
Bound6 == Cardinality(inter) <= 1

MView == [book |-> book, prov |-> prov, manual |-> manual, inter |-> {[x EXCEPT !.region = EncSeq(x.region)] : x \in inter}]
EmitState == PrintT(<<"S", ToJson(MView), ToJson(Obs), ToJson(book \cup prov \cup manual \cup inter = {})>>)
Emit == PrintT(<<"T", ToJson(MView), ToJson(act'), ToJson(MView')>>)
=============================================================================
