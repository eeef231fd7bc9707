-------------------------------- MODULE Scene --------------------------------
(* Meshes of a road geometry.  Lanes are those of Positions (with o, their place in the segment, and gl, gr, by which their bounds grow left and right); what a mesh covers is   *)
(* told by unit cells [x, y, z] of the inertial frame and how many times each is covered.                                 *)
EXTENDS Positions, SequencesExt, TLC

VARIABLE at   \* sequence of lane ends [lane, end, bp, side]
svars == <<vars, at>>
SInit == Init /\ at = <<>>
SSame == Same /\ UNCHANGED at

(* What a stretch of a lane between two lines covers: from r = lo to hi at its start and from lo1 to hi1 at its finish.     *)
(* A cell is surely covered, or may be in part; when the bounds are not parallel and the mesh is a grid, its outermost      *)
(* faces need not reach the bounds over one row of the grid.                                                                *)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Cell(l, s, r, h) == LET p == At(l, s, r, h) q == At(l, s + 1, r + 1, h) IN [x |-> Min2(p.x, q.x), y |-> Min2(p.y, q.y), z |-> p.z]
Cover(l, lo, lo1, hi, hi1, h, row) ==
  LET Lo(s) == lo * l.len + (lo1 - lo) * s    Hi(s) == hi * l.len + (hi1 - hi) * s
      T == (0 .. l.len - 1) \X (Min2(lo, lo1) .. Max2(hi, hi1) - 1)
      Sure(t) == /\ t[2] * l.len >= Max2(Lo(t[1]), Lo(t[1] + 1)) + row * Abs(lo1 - lo)
                 /\ (t[2] + 1) * l.len <= Min2(Hi(t[1]), Hi(t[1] + 1)) - row * Abs(hi1 - hi)
      May(t) == (t[2] + 1) * l.len > Min2(Lo(t[1]), Lo(t[1] + 1)) /\ t[2] * l.len < Max2(Hi(t[1]), Hi(t[1] + 1)) IN
  [sure |-> {Cell(l, t[1], t[2], h) : t \in {u \in T : Sure(u)}}, may |-> {Cell(l, t[1], t[2], h) : t \in {u \in T : May(u)}}]
Row(f) == IF f.off THEN 0 ELSE f.row
LaneCells(l, h, f) == Cover(l, l.rmin, l.rmin - l.gr, l.rmax, l.rmax + l.gl, h, Row(f))
SegmentCells(l, h, f) == Cover(l, l.smin, l.smin - l.gr, l.smax, l.smax + l.gl, h, Row(f))
Stripe(l, left, w, h) ==
  LET r == IF left THEN l.rmax ELSE l.rmin  r1 == IF left THEN r + l.gl ELSE r - l.gr IN
  Cover(l, r - (w \div 2), r1 - (w \div 2), r + (w \div 2), r1 + (w \div 2), h, 0)
(* p: function from labels to what they cover; how often each cell is covered, relative to the origin; -1: not all alike. *)
Count(p, o) ==
  LET parts == TLCEval(p)
      all == TLCEval(UNION {parts[k].may : k \in DOMAIN parts})
      lo == TLCEval([c \in all |-> Cardinality({k \in DOMAIN parts : c \in parts[k].sure})])
      hi == TLCEval([c \in all |-> Cardinality({k \in DOMAIN parts : c \in parts[k].may})])
      Put(c) == [x |-> c.x - o.x, y |-> c.y - o.y, z |-> c.z - o.z]
      Some(c) == [c |-> Put(c), n |-> [any_of |-> IF lo[c] = hi[c] THEN {lo[c]} ELSE {-1} \cup lo[c] .. hi[c]]] IN
  IF \A c \in all : lo[c] = hi[c] THEN {[c |-> Put(c), n |-> hi[c]] : c \in all}
  ELSE [between |-> <<{Some(c) : c \in {d \in all : lo[d] > 0}}, {Some(c) : c \in {d \in all : lo[d] = 0}}>>]
Here == [x |-> 0, y |-> 0, z |-> 0]

(* f: [stripes, haze, bounds: drawn or not, hazeh, stripeh: elevations, width: of stripes, even, marked: highlighted segments] *)
Firsts == {l \in lanes : \A m \in lanes : m.seg = l.seg => m.o >= l.o}    \* a lane of each segment
Asphalt(L, f, o) == Count([l \in Firsts \cap L |-> SegmentCells(l, 0, f)], o)
Haze(L, f, o) == IF f.haze THEN Count([l \in L |-> LaneCells(l, f.hazeh, f)], o) ELSE {}
Stripes(L, f, o) == IF f.stripes THEN Count([k \in L \X BOOLEAN |-> Stripe(k[1], k[2], f.width, f.stripeh)], o) ELSE {}
Bounds(L, f, o) == IF f.bounds THEN Count([k \in (Firsts \cap L) \X BOOLEAN |-> SegmentCells(k[1], IF k[2] THEN k[1].hmax ELSE k[1].hmin, f)], o) ELSE {}
Plain(f) == {l \in lanes : f.marked = {} \/ l.seg \in f.marked}
Gray(f) == lanes \ Plain(f)
Whole(f, o) == [asphalt |-> Asphalt(Plain(f), f, o), lane |-> Haze(Plain(f), f, o), marker |-> Stripes(Plain(f), f, o), h_bounds |-> Bounds(lanes, f, o),
                grayed_asphalt |-> Asphalt(Gray(f), f, o), grayed_lane |-> Haze(Gray(f), f, o), grayed_marker |-> Stripes(Gray(f), f, o), sidewalk |-> {}]
Nothing == [c |-> [x |-> 0, y |-> 0, z |-> 0], n |-> 0]

(* Branch points are drawn at their first end, each as high over the road as keeps it clear of those before. *)
BpIds == {at[k].bp : k \in DOMAIN at}
EndsOf(b) == SelectSeq(at, LAMBDA e : e.bp = b)
Ref(b) == LET A == SelectSeq(EndsOf(b), LAMBDA e : e.side = "A") IN IF A # <<>> THEN A[1] ELSE EndsOf(b)[1]
EndS(e) == IF e.end = "start" THEN 0 ELSE LaneOf(e.lane).len
WidthAt(e) == LET l == LaneOf(e.lane) IN l.rmax - l.rmin + (IF e.end = "start" THEN 0 ELSE l.gl + l.gr)
Width(b) == WidthAt(Ref(b))
Place(b, h) == At(LaneOf(Ref(b).lane), EndS(Ref(b)), 0, h)
Flatd2(p, q) == Sq(p.x - q.x) + Sq(p.y - q.y)
RECURSIVE Rise(_, _, _, _, _), Glow(_, _, _, _)
Rise(b, h, step, done, n) ==
  IF n > 0 /\ \E d \in done : Flatd2(d.p, Place(b, h)) < Sq(Width(b)) /\ Abs(d.p.z - Place(b, h).z) < step THEN Rise(b, h + step, step, done, n - 1)
  ELSE [b |-> b, h |-> h, p |-> Place(b, h)]
Glow(bs, base, step, done) ==   \* bs: the branch points' ids in order
  IF bs = <<>> THEN done ELSE Glow(Tail(bs), base, step, done \cup {Rise(Head(bs), base, step, done, 20)})
(* Where a distance equals a width either may be taken. *)
Doubtful == \E b \in BpIds, c \in BpIds : b # c /\ Flatd2(Place(b, 0), Place(c, 0)) = Sq(Width(b))
(* Each branch point has a diamond, and each of its ends a level and an upright arrow into the lane, of a length of the     *)
(* lane's width there, but no more than two fifths of its length (in tenths).                                               *)
Arrow(e, h, kind) ==
  LET l == LaneOf(e.lane) p == At(l, EndS(e), 0, h) t == IF e.end = "start" THEN 1 ELSE -1
      n == t * Min2(4 * l.len, 10 * WidthAt(e)) IN
  [kind |-> kind, x |-> p.x, y |-> p.y, z |-> p.z, dx |-> Cos(l.q) * n, dy |-> Sin(l.q) * n]
Drawn(B, H(_)) ==
  UNION {LET p == Place(b, H(b)) IN
         {[b |-> b, k |-> 0, v |-> [kind |-> "diamond", x |-> p.x, y |-> p.y, z |-> p.z, dx |-> 0, dy |-> 0]]}
         \cup {[b |-> b, k |-> k, v |-> Arrow(at[k], H(b), "level")] : k \in {j \in DOMAIN at : at[j].bp = b}}
         \cup {[b |-> b, k |-> -k, v |-> Arrow(at[k], H(b), "upright")] : k \in {j \in DOMAIN at : at[j].bp = b}} : b \in B}
Listing(S) == LET q == TLCEval(SetToSeq(S)) IN [i \in DOMAIN q |-> q[i].v]      \* a sequence, for some may be equal
Glowing(f) ==
  LET g == Glow(f.order, f.glowh, f.glow, {}) H(b) == (CHOOSE d \in g : d.b = b).h IN
  IF ~f.branches THEN <<>>
  ELSE IF Doubtful THEN LET q == Listing(Drawn(BpIds, LAMBDA b : 0)) IN
       [i \in DOMAIN q |-> [q[i] EXCEPT !.z = [any_of |-> {q[i].z + f.glowh + k * f.glow : k \in 0 .. Cardinality(BpIds)}]]]
  ELSE Listing(Drawn(BpIds, H))
GlowAlone(b, f) == Listing(Drawn({b}, LAMBDA c : f.glowh))
GlowFaces(f) == IF f.branches THEN Len(at) * 2 + Cardinality(BpIds) ELSE 0

Draw(f) == act' = [op |-> "Draw", f |-> f, res |-> [cells |-> Whole(f, Here), glow |-> Glowing(f)]] /\ SSame
(* The files say the same, relative to the origin. *)
Write(f, o) == act' = [op |-> "Write", f |-> f, o |-> o, res |-> [cells |-> Whole(f, o), glow |-> GlowFaces(f), files |-> "consistent"]] /\ SSame
(* One mesh by one. *)
Part(id, cells) == [id |-> id, cells |-> cells]
Parts(f) ==
  act' = [op |-> "Parts", f |-> f,
          res |-> <<Part("asphalt", Asphalt(Plain(f), f, Here)), Part("grayed_asphalt", Asphalt(Gray(f), f, Here)),
                    Part("h_bounds", Bounds(lanes, f, Here)), Part("sidewalk", {})>>
                  \o SetToSeq({Part("lane_" \o l.id, Haze({l}, f, Here)) : l \in Plain(f)})
                  \o SetToSeq({Part("marker_" \o l.id, Stripes({l}, f, Here)) : l \in Plain(f)})
                  \o SetToSeq({Part("grayed_lane_" \o l.id, Haze({l}, f, Here)) : l \in Gray(f)})
                  \o SetToSeq({Part("grayed_marker_" \o l.id, Stripes({l}, f, Here)) : l \in Gray(f)})
                  \o (IF f.branches THEN SetToSeq({Part("branch_point_" \o b, GlowAlone(b, f)) : b \in BpIds}) ELSE <<>>)] /\ SSame
One(kind, id, what, f) ==
  LET l == IF kind = "lane" THEN LaneOf(id) ELSE IF kind = "segment" THEN CHOOSE x \in Firsts : x.seg = id ELSE CHOOSE x \in lanes : TRUE
      Is(c) == [material |-> what, cells |-> c]
      r == CASE kind = "lane" /\ what \in {"asphalt", "grayed_asphalt"} -> Is(Count([x \in {1} |-> LaneCells(l, 0, f)], Here))
             [] kind = "lane" /\ what \in {"lane", "grayed_lane"} -> Is(Haze({l}, f, Here))
             [] kind = "lane" /\ what \in {"marker", "grayed_marker"} -> Is(Stripes({l}, f, Here))
             [] kind = "lane" /\ what = "h_bounds" -> Is(IF f.bounds THEN Count([x \in BOOLEAN |-> LaneCells(l, IF x THEN l.hmin ELSE l.hmax, f)], Here) ELSE {})
             [] kind = "segment" /\ what \in {"asphalt", "grayed_asphalt"} -> Is(Count([x \in {1} |-> SegmentCells(l, 0, f)], Here))
             [] kind = "bp" /\ what = "glow" -> Is(GlowAlone(id, f))
             [] OTHER -> [material |-> "throws", cells |-> {}] IN
  act' = [op |-> "One", kind |-> kind, id |-> id, what |-> what, f |-> f, res |-> r] /\ SSame
(* Arrows stay inside the lane, one at each end, narrowing along s. *)
Arrows(id, f) == act' = [op |-> "Arrows", lane |-> id, f |-> f, res |-> [inside |-> "yes", start |-> "narrows", finish |-> "narrows"]] /\ SSame
=============================================================================
