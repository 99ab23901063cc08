------------------------------ MODULE Workload ------------------------------
(***************************************************************************)
(* Distribution of a linewidth calculation over runs and its assembly.     *)
(*                                                                         *)
(* The store is what a directory holds: for a name tag t and a smearing s, *)
(* a file of all points (tot), files of one grid point (pt) and files of   *)
(* one band of a grid point (bd).  A value says which version of the force *)
(* constants a number was computed with: 0 nothing, 9 a torn file, 8 a     *)
(* run at other temperatures.                                              *)
(* A run writes its files one by one: points first, then smearings, then   *)
(* bands; it may be cut anywhere.  Assembly takes the file of all points,  *)
(* else that of the point, else those of the bands, or is refused.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
W == JsonDeserialize(IOEnv.VDATA)
Depth == W.depth
NG == W.ng
NB == W.nb
G == 1..NG
B == 1..NB
SS == 1..2
TT == 1..2
VV == 1..2
None == 0
Torn == 9
Hot == 8
VARIABLES tot, pt, bd, hist
vars == <<tot, pt, bd, hist>>
Empty == [g \in G |-> [b \in B |-> 0]]
Const(v) == [g \in G |-> [b \in B |-> v]]
Init == /\ tot = [t \in TT |-> [s \in SS |-> Empty]]
        /\ pt = [t \in TT |-> [s \in SS |-> [g \in G |-> 0]]]
        /\ bd = [t \in TT |-> [s \in SS |-> Empty]]
        /\ hist = <<>>
\* ------------------------------------------------------------------- runs
\* the pool of jobs <t, v, points, smearings, bands>; bands <<>>: all of them
\* in one file, else one file each
Jobs == W.jobs
SigmaLists == {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>}
\* the files of a run in the order of writing
Per(bl) == IF bl = <<>> THEN 1 ELSE Len(bl)
NFiles(gl, sl, bl) == Len(gl) * Len(sl) * Per(bl)
File(gl, sl, bl, i) == LET k == i - 1 p == Per(bl) IN
  <<gl[(k \div (p * Len(sl))) + 1], sl[((k \div p) % Len(sl)) + 1], IF bl = <<>> THEN 0 ELSE bl[(k % p) + 1]>>
Done(gl, sl, bl, n) == {File(gl, sl, bl, i) : i \in 1..n}
Put(old, g, s, b, ok, bad, v) == IF <<g, s, b>> \in ok THEN v ELSE IF <<g, s, b>> \in bad THEN Torn ELSE old
Work(cut) == \E i \in 1..Len(Jobs) :
  LET t == Jobs[i][1] v == Jobs[i][2] gl == Jobs[i][3] sl == Jobs[i][4] bl == Jobs[i][5]
      nf == NFiles(gl, sl, bl) IN
  \E n \in (IF cut = "no" THEN {nf} ELSE 0..(nf - 1)) :
   LET ok == Done(gl, sl, bl, n)
       bad == IF cut = "torn" THEN {File(gl, sl, bl, n + 1)} ELSE {}
   IN /\ pt' = [pt EXCEPT ![t] = [s \in SS |-> [g \in G |-> Put(pt[t][s][g], g, s, 0, ok, bad, v)]]]
      /\ bd' = [bd EXCEPT ![t] = [s \in SS |-> [g \in G |-> [b \in B |-> Put(bd[t][s][g][b], g, s, b, ok, bad, v)]]]]
      /\ UNCHANGED tot
      /\ hist' = Append(hist, [op |-> "work", t |-> t, v |-> v, gl |-> gl, sl |-> sl, bl |-> bl, n |-> n, cut |-> cut])
\* a run of its own: all points at once
Whole == \E t \in TT, v \in VV \cup {Hot}, sl \in SigmaLists :
  /\ tot' = [tot EXCEPT ![t] = [s \in SS |-> IF s \in {sl[i] : i \in 1..Len(sl)} THEN Const(v) ELSE tot[t][s]]]
  /\ UNCHANGED <<pt, bd>>
  /\ hist' = Append(hist, [op |-> "whole", t |-> t, v |-> v, sl |-> sl])
\* runs on another mesh or with another smearing leave other files
Other == \E t \in TT, k \in 1..3 : UNCHANGED <<tot, pt, bd>> /\ hist' = Append(hist, [op |-> "other", t |-> t, k |-> k])
Clear == \E t \in TT, s \in SS : /\ tot[t][s] # Empty /\ tot' = [tot EXCEPT ![t][s] = Empty] /\ UNCHANGED <<pt, bd>>
                                 /\ hist' = Append(hist, [op |-> "clear", t |-> t, s |-> s])
\* another mesh whose numbers give the same name, e.g. m1111, is no work for this one
Alien == \E t \in TT, s \in SS : /\ W.alien
                                 /\ tot' = [tot EXCEPT ![t][s] = Empty]
                                 /\ UNCHANGED <<pt, bd>>
                                 /\ hist' = Append(hist, [op |-> "alien", t |-> t, s |-> s])
\* --------------------------------------------------------------- assembly
From(t, s, g, b) == IF tot[t][s] # Empty THEN tot[t][s][g][b] ELSE IF pt[t][s][g] # 0 THEN pt[t][s][g] ELSE bd[t][s][g][b]
Table(t, s) == [g \in G |-> [b \in B |-> From(t, s, g, b)]]
Good(t, s) == \A g \in G, b \in B : From(t, s, g, b) \in VV
Assemble == \E t \in TT, sl \in SigmaLists, write \in BOOLEAN :
  LET S == {sl[i] : i \in 1..Len(sl)} ok == \A s \in S : Good(t, s) IN
  /\ tot' = IF ok /\ write THEN [tot EXCEPT ![t] = [s \in SS |-> IF s \in S THEN Table(t, s) ELSE tot[t][s]]] ELSE tot
  /\ UNCHANGED <<pt, bd>>
  /\ hist' = Append(hist, [op |-> "assemble", t |-> t, sl |-> sl, write |-> write, ok |-> ok,
                           src |-> [i \in 1..Len(sl) |-> Table(t, sl[i])]])
Next == /\ Len(hist) < Depth
        /\ IF Len(hist) = Depth - 1 THEN Assemble
           ELSE \/ Work("no") \/ Work("clean") \/ Work("torn") \/ Whole \/ Other \/ Clear \/ Alien \/ Assemble
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------- properties
Last == hist'[Len(hist')]
\* what is assembled comes from runs under the same tag, and all of it was run
Ran(t, v, s, g, b) == \E i \in 1..Len(hist) : LET h == hist[i] IN
  /\ h.op \in {"work", "whole"} /\ h.t = t /\ h.v = v /\ s \in {h.sl[k] : k \in 1..Len(h.sl)}
  /\ h.op = "work" => /\ g \in {h.gl[k] : k \in 1..Len(h.gl)}
                      /\ h.bl = <<>> \/ b \in {h.bl[k] : k \in 1..Len(h.bl)}
OwnWork == [][(Last.op = "assemble" /\ Last.ok) => \A i \in 1..Len(Last.sl) : \A g \in G, b \in B :
                 Ran(Last.t, Last.src[i][g][b], Last.sl[i], g, b)]_vars
\* a tag used with one version gives that version
Pure(t, v) == \A i \in 1..Len(hist) : hist[i].op \in {"work", "whole"} /\ hist[i].t = t => hist[i].v = v
OneVersion == [][(Last.op = "assemble" /\ Last.ok) => \A v \in VV : Pure(Last.t, v) =>
                 \A i \in 1..Len(Last.sl) : Last.src[i] = Const(v)]_vars
\* finished work is never lost: once good, a smearing stays good unless torn
StaysGood == [][\A t \in TT, s \in SS : Good(t, s) => (Good(t, s))' \/ Last.op \in {"clear", "alien"}
                   \/ (Last.op \in {"work", "whole"} /\ Last.v = Hot) \/ (Last.op = "work" /\ Last.cut = "torn")]_vars
TypeOK == \A t \in TT, s \in SS, g \in G : /\ pt[t][s][g] \in {0, 1, 2, Hot, Torn}
                                           /\ \A b \in B : bd[t][s][g][b] \in {0, 1, 2, Hot, Torn} /\ tot[t][s][g][b] \in VV \cup {0, Hot}
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
