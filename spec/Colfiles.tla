------------------------------ MODULE Colfiles ------------------------------
(***************************************************************************)
(* Files of the collision matrix: of all grid points, of a grid point, and *)
(* of a band at a grid point, one for each broadening.  A matrix is        *)
(* collected from the first of these which exist, and only from pieces of  *)
(* the same temperatures; otherwise the calculation is refused.            *)
(*                                                                         *)
(* Data: numbers of grid points, bands, broadenings; lists of temperatures *)
(* (tsets); pools of piecewise runs, whole runs, removed files and reads.  *)
(* What differs between runs of the same point is the version v.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
W == JsonDeserialize(IOEnv.VDATA)
Depth == W.depth
G == 1..W.ng
B == 1..W.nb
S == 1..W.ns
None == [t |-> 0, v |-> 0]
NoMap == [g \in G |-> [b \in B |-> 0]]
VARIABLES whole, point, band, hist
files == <<whole, point, band>>
vars == <<whole, point, band, hist>>
Range(s) == {s[i] : i \in 1..Len(s)}
Init == /\ whole = [s \in S |-> [t |-> 0, v |-> NoMap]]
        /\ point = [s \in S |-> [g \in G |-> None]]
        /\ band = [s \in S |-> [g \in G |-> [b \in B |-> None]]]
        /\ hist = <<>>
Done(r) == hist' = Append(hist, r)
\* run at some grid points, of all bands or of some
Pieces == \E i \in 1..Len(W.pieces) : LET p == W.pieces[i] new == [t |-> p.t, v |-> p.v]
     hit(s, g) == s \in Range(p.sg) /\ g \in Range(p.gps) IN
  /\ UNCHANGED whole
  /\ IF Len(p.bands) = 0
     THEN /\ point' = [s \in S |-> [g \in G |-> IF hit(s, g) THEN new ELSE point[s][g]]]
          /\ UNCHANGED band
     ELSE /\ band' = [s \in S |-> [g \in G |-> [b \in B |-> IF hit(s, g) /\ b \in Range(p.bands) THEN new ELSE band[s][g][b]]]]
          /\ UNCHANGED point
  /\ Done([op |-> "pieces", i |-> i])
\* run at all grid points; the solution is stored, the pieces on demand
Whole == \E i \in 1..Len(W.wholes) : LET p == W.wholes[i] new == [t |-> p.t, v |-> p.v] IN
  /\ UNCHANGED band
  /\ whole' = [s \in S |-> IF s \in Range(p.sg) THEN [t |-> p.t, v |-> [g \in G |-> [b \in B |-> p.v]]] ELSE whole[s]]
  /\ point' = [s \in S |-> [g \in G |-> IF p.each /\ s \in Range(p.sg) THEN new ELSE point[s][g]]]
  /\ Done([op |-> "whole", i |-> i])
Remove == \E i \in 1..Len(W.removes) : LET r == W.removes[i] IN
  /\ CASE r.k = "whole" -> whole[r.s].t # 0
       [] r.k = "point" -> point[r.s][r.g].t # 0
       [] r.k = "band" -> band[r.s][r.g][r.b].t # 0
  /\ whole' = IF r.k = "whole" THEN [whole EXCEPT ![r.s] = [t |-> 0, v |-> NoMap]] ELSE whole
  /\ point' = IF r.k = "point" THEN [point EXCEPT ![r.s][r.g] = None] ELSE point
  /\ band' = IF r.k = "band" THEN [band EXCEPT ![r.s][r.g][r.b] = None] ELSE band
  /\ Done([op |-> "remove", i |-> i])
\* temperatures taken from a list: all, or the first
Pick(t, all) == IF t = 0 THEN <<>> ELSE IF all THEN W.tsets[t] ELSE <<W.tsets[t][1]>>
Refused == [ok |-> FALSE, t |-> <<>>, v |-> NoMap, from |-> ""]
\* one broadening, T: temperatures of the broadenings before, if any
ReadOne(s, T, all) ==
  IF whole[s].t # 0
  THEN LET t == Pick(whole[s].t, all) IN
       IF T # <<>> /\ t # T THEN Refused ELSE [ok |-> TRUE, t |-> t, v |-> whole[s].v, from |-> "whole"]
  ELSE LET first == IF point[s][1].t # 0 THEN point[s][1].t ELSE band[s][1][1].t
           t == IF T # <<>> THEN T ELSE Pick(first, all)
           asPoint(g) == Pick(point[s][g].t, all) = t
           asBands(g) == \A b \in B : Pick(band[s][g][b].t, all) = t
       IN IF first = 0 \/ ~\A g \in G : asPoint(g) \/ asBands(g) THEN Refused
          ELSE [ok |-> TRUE, t |-> t, from |-> "pieces",
                v |-> [g \in G |-> [b \in B |-> IF asPoint(g) THEN point[s][g].v ELSE band[s][g][b].v]]]
RECURSIVE ReadAll(_, _, _)
ReadAll(sg, T, all) == IF sg = <<>> THEN <<>> ELSE
  LET r == ReadOne(sg[1], T, all) IN IF ~r.ok THEN <<r>> ELSE <<r>> \o ReadAll(Tail(sg), r.t, all)
Read == \E i \in 1..Len(W.reads) : LET q == W.reads[i]
     r == ReadAll(q.sg, <<>>, q.all)
     ok == \A k \in 1..Len(r) : r[k].ok
     pieces == ok /\ \A k \in 1..Len(r) : r[k].from = "pieces"
     \* the collected matrix is stored with the solution
     keep == q.keep /\ pieces IN
  /\ q.keep /\ ok => pieces \/ \A k \in 1..Len(r) : r[k].from = "whole"
  /\ UNCHANGED <<point, band>>
  /\ whole' = IF keep /\ q.all THEN [s \in S |-> IF s \in Range(q.sg) THEN
        LET k == CHOOSE k \in 1..Len(q.sg) : q.sg[k] = s IN
        [t |-> CHOOSE t \in 1..Len(W.tsets) : W.tsets[t] = r[k].t, v |-> r[k].v] ELSE whole[s]] ELSE whole
  /\ Done([op |-> "read", i |-> i, ok |-> ok, t |-> IF ok THEN r[1].t ELSE <<>>,
           v |-> IF ok THEN [k \in 1..Len(r) |-> r[k].v] ELSE <<>>])
Next == /\ Len(hist) < Depth
        /\ IF Len(hist) = Depth - 1 THEN Read ELSE Pieces \/ Whole \/ Remove \/ Read
Spec == Init /\ [][Next]_vars
TypeOK == /\ \A s \in S : whole[s].t \in 0..Len(W.tsets)
          /\ \A s \in S : \A g \in G : point[s][g].t \in 0..Len(W.tsets)
Last == hist'[Len(hist')]
\* a matrix is never put together from pieces of different temperatures, and each element is one of a file
NeverMixed == [][(Last.op = "read" /\ Last.ok) => LET q == W.reads[Last.i] IN
  /\ \A k \in 1..Len(q.sg) : \A g \in G : \A b \in B : LET s == q.sg[k] v == Last.v[k][g][b] IN
       /\ v > 0
       /\ \/ whole[s].t # 0 /\ Pick(whole[s].t, q.all) = Last.t /\ whole[s].v[g][b] = v
          \/ point[s][g].t # 0 /\ Pick(point[s][g].t, q.all) = Last.t /\ point[s][g].v = v
          \/ band[s][g][b].t # 0 /\ Pick(band[s][g][b].t, q.all) = Last.t /\ band[s][g][b].v = v]_vars
\* the solution of all grid points comes first
WholeFirst == [][(Last.op = "read" /\ Last.ok) => LET q == W.reads[Last.i] IN
  \A k \in 1..Len(q.sg) : whole[q.sg[k]].t # 0 => Last.v[k] = whole[q.sg[k]].v]_vars
\* complete data of one list of temperatures are accepted
Complete == [][(Last.op = "read" /\ ~Last.ok) => LET q == W.reads[Last.i] IN
  ~\E t \in 1..Len(W.tsets) : \A k \in 1..Len(q.sg) : LET s == q.sg[k] IN
     /\ whole[s].t \in {0, t}
     /\ \/ whole[s].t = t
        \/ \A g \in G : point[s][g].t = t
        \/ \A g \in G : point[s][g].t = 0 /\ \A b \in B : band[s][g][b].t = t]_vars
\* reading changes no pieces
ReadOnly == [][Last.op = "read" => UNCHANGED <<point, band>>]_vars
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
