------------------------------- MODULE Describe --------------------------------
(* Descriptions: what the texts made of networks, graphs and values say. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES net, act    \* a network: junctions of segments of lanes, from right to left, each a straight line
vars == <<net, act>>
RECURSIVE Join(_, _)
Join(ts, gap) == IF ts = <<>> THEN "" ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o gap \o Join(Tail(ts), gap)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
B(b) == IF b THEN 1 ELSE 0
Keep == UNCHANGED net

\* ---- of a network: what is asked for, each on a line of its own below what it is part of
Step(q) == <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>[q + 1]
Point(x, y, z) == "(x = " \o ToString(x) \o ", y = " \o ToString(y) \o ", z = " \o ToString(z) \o ")"
RECURSIVE Spaces(_)
Spaces(n) == IF n = 0 THEN "" ELSE "  " \o Spaces(n - 1)
Label(o, t) == IF o.labels THEN t \o ": " ELSE ""
Details(s, n, d) ==
  LET l == s.lanes[n]
      v == Step(l.q)
  IN << d \o "  length: " \o ToString(l.len),
        d \o "  geo positions:",
        d \o "    s_min: " \o Point(l.x, l.y, l.z),
        d \o "    s_max: " \o Point(l.x + v[1] * l.len, l.y + v[2] * l.len, l.z),
        d \o "  to left: " \o (IF n < Len(s.lanes) THEN s.lanes[n + 1].id ELSE ""),
        d \o "  to right: " \o (IF n > 1 THEN s.lanes[n - 1].id ELSE "") >>
Lines(o) ==
  LET dj == Spaces(B(o.geometry))
      ds == Spaces(B(o.geometry) + B(o.junctions))
      dl == Spaces(B(o.geometry) + B(o.junctions) + B(o.segments))
      ofLane(s, n) == <<dl \o Label(o, "lane") \o s.lanes[n].id>> \o (IF o.details THEN Details(s, n, dl) ELSE <<>>)
      ofSegment(s) == (IF o.segments THEN <<ds \o Label(o, "segment") \o s.id>> ELSE <<>>)
                      \o (IF o.lanes THEN Flat([n \in DOMAIN s.lanes |-> ofLane(s, n)]) ELSE <<>>)
      ofJunction(j) == (IF o.junctions THEN <<dj \o Label(o, "junction") \o j.id>> ELSE <<>>) \o Flat([n \in DOMAIN j.segments |-> ofSegment(j.segments[n])])
  IN (IF o.geometry THEN <<Label(o, "geometry") \o "rg">> ELSE <<>>) \o Flat([n \in DOMAIN net |-> ofJunction(net[n])])
Network(o) == Keep /\ act' = [op |-> "Network", res |-> Join(Lines(o), "\n")]

\* ---- of a graph in the DOT language: every edge once, red where the route goes
Segments == UNION {{net[j].segments[n].id : n \in DOMAIN net[j].segments} : j \in DOMAIN net}
Edge(e, red) == [a |-> e.a, b |-> e.b, label |-> e.seg, red |-> IF red THEN "yes" ELSE "no"]
\* edges: [id, a, b, seg]; route: names of segments, or "none" of them
Dot(edges, route) ==
  /\ Keep
  /\ act' = [op |-> "Dot",
             res |-> IF \E n \in DOMAIN route : \A k \in DOMAIN edges : edges[k].seg # route[n] THEN "throws"
                     ELSE [graph |-> "graph", edges |-> [k \in DOMAIN edges |-> Edge(edges[k], \E n \in DOMAIN route : route[n] = edges[k].seg)]]]

\* ---- of values
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE Pad(_, _)
Pad(v, n) == IF n = 0 THEN "" ELSE Pad(v \div 10, n - 1) \o ToString(v % 10)
Decimals(v, p) == ToString(v \div Pow(10, p)) \o (IF p = 0 THEN "" ELSE "." \o Pad(v, p))
Abs(n) == IF n < 0 THEN -n ELSE n
\* n / 2^k to p decimals: the nearest such number, where two are as near either, where it is zero with or without a sign
Fixed(n, k, p) ==
  /\ Keep
  /\ act' = [op |-> "Fixed",
             res |-> IF p < 0 THEN "throws"
                     ELSE LET d == Pow(2, k)
                              num == Abs(n) * Pow(10, p)
                              lo == num \div d
                              rest == num % d
                              near == IF 2 * rest < d THEN {lo} ELSE IF 2 * rest > d THEN {lo + 1} ELSE {lo, lo + 1}
                              told(v) == IF n >= 0 THEN {Decimals(v, p)} ELSE IF v = 0 THEN {Decimals(v, p), "-" \o Decimals(v, p)} ELSE {"-" \o Decimals(v, p)}
                          IN [any_of |-> UNION {told(v) : v \in near}]]
\* values: numbers as they are usually written
Say(kind, v) ==
  /\ Keep
  /\ act' = [op |-> "Say",
             res |-> CASE kind = "inertial" -> "(x = " \o v[1] \o ", y = " \o v[2] \o ", z = " \o v[3] \o ")"
                       [] kind = "lane" -> "(s = " \o v[1] \o ", r = " \o v[2] \o ", h = " \o v[3] \o ")"
                       [] kind = "rotation" -> "(roll = " \o v[1] \o ", pitch = " \o v[2] \o ", yaw = " \o v[3] \o ")"
                       [] kind = "quaternion" -> "(w: " \o v[1] \o ", x: " \o v[2] \o ", y: " \o v[3] \o ", z: " \o v[4] \o ")"
                       [] kind = "vector" -> "{" \o Join(v, ", ") \o "}"
                       [] kind = "id" -> v[1]]
\* rows of a matrix of size n
Matrix(n, v) ==
  Keep /\ act' = [op |-> "Matrix", res |-> "{" \o Join([r \in 1..n |-> "{" \o Join(SubSeq(v, (r - 1) * n + 1, r * n), ", ") \o "}"], ",\n") \o "}"]
\* ---- names of the values of a type: each its own
Named == [
  end |-> {<<"kStart", "start">>, <<"kFinish", "finish">>},
  relation |-> {<<n, n>> : n \in {"kAdjacentLeft", "kAdjacentRight", "kLeft", "kRight", "kSucceedingStraight", "kSucceedingLeft", "kSucceedingRight",
                                  "kPrecedingStraight", "kPrecedingLeft", "kPrecedingRight", "kCoincident", "kUnrelated", "kUnknown"}},
  color |-> {<<"kRed", "Red">>, <<"kYellow", "Yellow">>, <<"kGreen", "Green">>},
  bulb |-> {<<"kRound", "Round">>, <<"kArrow", "Arrow">>},
  state |-> {<<"kOff", "Off">>, <<"kOn", "On">>, <<"kBlinking", "Blinking">>},
  usage |-> {<<"kWithS", "WithS">>, <<"kAgainstS", "AgainstS">>, <<"kBidirectional", "Bidirectional">>, <<"kBidirectionalTurnOnly", "BidirectionalTurnOnly">>,
             <<"kNoUse", "NoUse">>, <<"kParking", "Parking">>},
  level |-> {<<n, n>> : n \in {"trace", "debug", "info", "warn", "error", "critical", "off", "unchanged"}} ]
Names(type) == Keep /\ act' = [op |-> "Names", res |-> {[is |-> p[1], name |-> p[2]] : p \in Named[type]}]
Distinct == \A t \in DOMAIN Named : \A p, q \in Named[t] : p[2] = q[2] => p = q
=============================================================================
