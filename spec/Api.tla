-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* One Phono3py object.  Inputs carry version numbers; force constants are *)
(* symbolic terms (what they were made from and what was done to them).    *)
(* The interaction is bound to the inputs at the time of initialization    *)
(* and is dropped by a change of any of them, except that NAC parameters   *)
(* are given to it.  Every call either refuses or returns the value of     *)
(* the current inputs; what is kept from earlier calls (conductivity,      *)
(* detailed gammas, displaced supercells) is what the last call made.      *)
(*                                                                         *)
(* Data: pscm (the fc2 supercell is different), pools of versions pool.x,   *)
(* ops = operations in use, kind of datasets dkind[d] (1 pairs, 2 random). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
W == JsonDeserialize(IOEnv.VDATA)
Depth == W.depth
P(x) == IF x \in DOMAIN W.pool THEN {W.pool[x][i] : i \in 1..Len(W.pool[x])} ELSE {}
On(o) == \E i \in 1..Len(W.ops) : W.ops[i] = o
\* dataset: displacements, forces (0 none)
NoDs == [d |-> 0, f |-> 0]
Kind(d) == IF d = 0 THEN 0 ELSE W.dkind[d]
VARIABLES in, fc2, fc3, ds, pds, it, tc, dg, strength, hist
vars == <<in, fc2, fc3, ds, pds, it, tc, dg, strength, hist>>
None == <<>>
Unstated == <<"any">>  \* left by a run: not stated
\* what the interaction depends on
Bound == [fc2 |-> fc2, fc3 |-> fc3, mesh |-> in.mesh, nac |-> in.nac, mass |-> in.mass, band |-> in.band]
Init == /\ in = [mesh |-> IF W.start = 0 THEN 0 ELSE 1, nac |-> 0, mass |-> 0, band |-> 0, sig |-> 0, cut |-> 0]
        /\ fc2 = (IF W.start = 0 THEN None ELSE <<<<"set", 1>>>>) /\ fc3 = fc2
        /\ ds = NoDs /\ pds = NoDs
        /\ it = (IF W.start = 2 THEN <<Bound, 1>> ELSE None)
        /\ tc = None /\ dg = None /\ strength = None /\ hist = <<>>
Ev(e) == hist' = Append(hist, e)
Drop == it' = None /\ strength' = None
Keep == UNCHANGED <<it, strength>>
Fcs == UNCHANGED <<fc2, fc3>>
Dss == UNCHANGED <<ds, pds>>
Res == UNCHANGED <<tc, dg>>
SetFc2 == On("fc2") /\ \E v \in P("fc2") : /\ fc2' = (IF v = 0 THEN None ELSE <<<<"set", v>>>>)
  /\ Drop /\ UNCHANGED <<in, fc3>> /\ Dss /\ Res /\ Ev([op |-> "fc2", v |-> v])
SetFc3 == On("fc3") /\ \E v \in P("fc3") : /\ fc3' = (IF v = 0 THEN None ELSE <<<<"set", v>>>>)
  /\ Drop /\ UNCHANGED <<in, fc2>> /\ Dss /\ Res /\ Ev([op |-> "fc3", v |-> v])
SetIn == \E k \in {"mesh", "mass", "band"} : On(k) /\ \E v \in P(k) : /\ in' = [in EXCEPT ![k] = v]
  /\ Drop /\ Fcs /\ Dss /\ Res /\ Ev([op |-> k, v |-> v])
SetRun == \E k \in {"sig", "cut"} : On(k) /\ \E v \in P(k) : /\ in' = [in EXCEPT ![k] = v]
  /\ Keep /\ Fcs /\ Dss /\ Res /\ Ev([op |-> k, v |-> v])
SetNac == On("nac") /\ \E v \in P("nac") : /\ in' = [in EXCEPT !.nac = v]
  /\ it' = (IF it = None THEN None ELSE <<[it[1] EXCEPT !.nac = v], it[2]>>)
  /\ strength' = None /\ Fcs /\ Dss /\ Res /\ Ev([op |-> "nac", v |-> v])
InitIt == On("init") /\ \E o \in P("opt") : LET ok == in.mesh # 0 /\ fc2 # None IN
  /\ IF ok THEN it' = <<Bound, o>> /\ strength' = None ELSE Keep
  /\ UNCHANGED <<in>> /\ Fcs /\ Dss /\ Res /\ Ev([op |-> "init", o |-> o, ok |-> ok])
\* calls which need the interaction; with constant averaged interaction fc3 is not needed
Needs3(o) == W.const[o] = 0
Ready(k) == it # None /\ (~Needs3(it[2]) \/ it[1].fc3 # None)
Call == <<it, in.sig, in.cut>>
Run == \E k \in P("run") : LET ok == Ready(k) IN
  /\ tc' = (IF ok /\ k \in {"rta", "lbte", "wigner"} THEN <<k, Call>> ELSE tc)
  /\ dg' = (IF ok /\ k = "detail" THEN <<k, Call>> ELSE IF ok /\ k \in {"imag", "bands", "gamma"} THEN None ELSE dg)
  /\ strength' = (IF ok THEN Unstated ELSE strength)
  /\ UNCHANGED <<in, it>> /\ Fcs /\ Dss
  /\ Ev([op |-> "run", k |-> k, ok |-> ok, val |-> IF ok THEN Call ELSE None])
Phonons == On("phonons") /\ \E full \in {0, 1} : LET ok == it # None IN
  /\ UNCHANGED <<in, it, strength>> /\ Fcs /\ Dss /\ Res
  /\ Ev([op |-> "phonons", full |-> full, ok |-> ok, val |-> IF ok THEN Call ELSE None])
Strength == On("strength") /\ it # None /\ Ready("x") /\ \E g \in P("gp") :
  /\ strength' = <<it, g>> /\ UNCHANGED <<in, it>> /\ Fcs /\ Dss /\ Res
  /\ Ev([op |-> "strength", g |-> g, val |-> <<it, g>>])
\* another grid point without computing, phonons given from outside
Grid == On("grid") /\ it # None /\ \E g \in P("gp") : strength' = None /\ UNCHANGED <<in, it>> /\ Fcs /\ Dss /\ Res /\ Ev([op |-> "grid", g |-> g])
Give == On("give") /\ in.mesh # 0 /\ \E right \in {0, 1} : LET ok == it # None /\ right = 1 IN
  /\ strength' = (IF ok THEN None ELSE strength) /\ UNCHANGED <<in, it>> /\ Fcs /\ Dss /\ Res
  /\ Ev([op |-> "give", right |-> right, ok |-> ok, val |-> IF it = None THEN None ELSE Call])
Peek == On("peek") /\ hist # <<>> /\ UNCHANGED <<in, it, strength>>
  /\ Fcs /\ Dss /\ Res /\ Ev([op |-> "peek", tc |-> tc, dg |-> dg, strength |-> strength])
\* datasets
SetDs == On("ds") /\ \E d \in P("d"), f \in P("f") : /\ (d = 0 => f = 0)
  /\ ds' = [d |-> d, f |-> f] /\ UNCHANGED pds /\ UNCHANGED in /\ Fcs /\ Keep /\ Res /\ Ev([op |-> "ds", d |-> d, f |-> f])
\* random displacements for fc2 are of the other supercell
SetPds == On("pds") /\ \E d \in P("pd"), f \in P("f") : LET ok == W.pscm = 1 \/ Kind(d) # 2 IN
  /\ (d = 0 => f = 0)
  /\ pds' = (IF ok THEN [d |-> d, f |-> f] ELSE pds) /\ UNCHANGED ds /\ UNCHANGED in /\ Fcs /\ Keep /\ Res
  /\ Ev([op |-> "pds", d |-> d, f |-> f, ok |-> ok])
\* displacements of pairs also generate those for fc2, when they are of another supercell and not there
Generate == On("gen") /\ \E d \in P("d") : d # 0 /\
  /\ ds' = [d |-> d, f |-> 0]
  /\ pds' = (IF W.pscm = 1 /\ pds.d = 0 THEN [d |-> W.auto[d], f |-> 0] ELSE pds)
  /\ UNCHANGED in /\ Fcs /\ Keep /\ Res /\ Ev([op |-> "gen", d |-> d])
Generate2 == On("gen2") /\ \E d \in P("pd") : d # 0 /\ pds' = [d |-> d, f |-> 0] /\ UNCHANGED ds
  /\ UNCHANGED in /\ Fcs /\ Keep /\ Res /\ Ev([op |-> "gen2", d |-> d])
Forces == On("forces") /\ \E f \in P("f") : f # 0 /\ LET ok == ds.d # 0 IN
  /\ ds' = (IF ok THEN [ds EXCEPT !.f = f] ELSE ds) /\ UNCHANGED pds
  /\ UNCHANGED in /\ Fcs /\ Keep /\ Res /\ Ev([op |-> "forces", f |-> f, ok |-> ok, d |-> ds.d])
Forces2 == On("forces2") /\ \E f \in P("f") : f # 0 /\ LET ok == pds.d # 0 IN
  /\ pds' = (IF ok THEN [pds EXCEPT !.f = f] ELSE pds) /\ UNCHANGED ds
  /\ UNCHANGED in /\ Fcs /\ Keep /\ Res /\ Ev([op |-> "forces2", f |-> f, ok |-> ok, d |-> pds.d])
Displaced == On("cells") /\ \E w \in {0, 1} : LET d == IF w = 0 THEN ds.d ELSE pds.d IN
  /\ UNCHANGED <<in, it, strength>> /\ Fcs /\ Dss /\ Res
  /\ Ev([op |-> "cells", w |-> w, d |-> d, mass |-> in.mass])
\* force constants
Calc(c, d) == IF c = 0 THEN Kind(d) = 1 ELSE Kind(d) # 0
Produce3 == On("produce3") /\ \E s \in {0, 1}, c \in P("layout"), q \in P("calc") : LET ok == ds.f # 0 /\ Calc(q, ds.d) IN
  /\ ds.d # 0
  /\ fc3' = (IF ok THEN <<<<"produce3", ds.d, ds.f, s, c, q>>>> ELSE fc3)
  /\ fc2' = (IF ok /\ W.pscm = 0 /\ fc2 = None THEN <<<<"from3", ds.d, ds.f, s, c, q>>>> ELSE fc2)
  /\ IF ok THEN Drop ELSE Keep
  /\ UNCHANGED in /\ Dss /\ Res
  /\ Ev([op |-> "produce3", s |-> s, c |-> c, q |-> q, ok |-> ok, fc2 |-> fc2', fc3 |-> fc3'])
Produce2 == On("produce2") /\ \E s \in {0, 1}, c \in P("layout"), q \in P("calc") :
  LET x == IF pds.d = 0 THEN ds ELSE pds
      n == IF pds.d = 0 THEN "produce2" ELSE "produce2p"
      ok == x.f # 0 /\ Calc(q, x.d) IN
  /\ (W.pscm = 1 => pds.d # 0)
  /\ fc2' = (IF ok THEN <<<<n, x.d, x.f, s, c, q>>>> ELSE fc2) /\ UNCHANGED fc3
  /\ IF ok THEN Drop ELSE Keep
  /\ UNCHANGED in /\ Dss /\ Res
  /\ Ev([op |-> "produce2", s |-> s, c |-> c, q |-> q, ok |-> ok, fc2 |-> fc2', fc3 |-> fc3'])
Add(t, x) == IF t = None THEN None ELSE Append(t, <<x>>)
Modify == \E m \in P("modify") :
  /\ Len(fc2) < 4 /\ Len(fc3) < 4
  /\ (m = "cutoff" => fc3 # None)
  /\ fc3' = Add(fc3, m) /\ fc2' = (IF m = "cutoff" THEN fc2 ELSE Add(fc2, m))
  /\ Drop /\ UNCHANGED in /\ Dss /\ Res
  /\ Ev([op |-> "modify", m |-> m, fc2 |-> fc2', fc3 |-> fc3'])
Step == SetFc2 \/ SetFc3 \/ SetIn \/ SetRun \/ SetNac \/ InitIt \/ Run \/ Phonons \/ Strength \/ Grid \/ Give \/ Peek
        \/ SetDs \/ SetPds \/ Generate \/ Generate2 \/ Forces \/ Forces2 \/ Displaced \/ Produce3 \/ Produce2 \/ Modify
Next == Len(hist) < Depth /\ Step
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* the interaction is always that of the current inputs
Current == it # None => it[1] = Bound
StrengthCurrent == strength \notin {None, Unstated} => strength[1] = it
\* a call with success returns what depends only on the current inputs
Last == hist'[Len(hist')]
RunsCurrent == [][Last.op \in {"run", "phonons"} /\ Last.ok =>
                    /\ Last.val[1][1] = Bound /\ Last.val[2] = in.sig /\ Last.val[3] = in.cut]_vars
\* the same call again gives the same value
Ran(i) == hist[i].op = "run" /\ hist[i].ok
ReadOnly == {"run", "phonons", "strength", "grid", "give", "peek", "cells"}
Repeatable == \A i, j \in 1..Len(hist) :
  (/\ i < j /\ Ran(i) /\ Ran(j) /\ hist[i].k = hist[j].k /\ \A m \in i..j : hist[m].op \in ReadOnly)
    => hist[i].val = hist[j].val
\* refusals change nothing
RefusalIsNoop == [][("ok" \in DOMAIN Last /\ ~Last.ok) => UNCHANGED <<in, fc2, fc3, ds, pds, it, tc, dg, strength>>]_vars
\* initialized and not changed since: not refused
Available == [][(Last.op = "run" /\ ~Last.ok) =>
   (it = None \/ (it[1].fc3 = None /\ Needs3(it[2])))]_vars
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
