----------------------------- MODULE ForceSets -----------------------------
(***************************************************************************)
(* The life of forces and energies between the Phono3py object, the force  *)
(* file (FORCES_FC3 or FORCES_FC2) and the parameter file.  Supercells are *)
(* Ids; pairs beyond the cutoff (not in Inc) exist but take no forces.  A  *)
(* force array is a token: k > 0 the k-th set of data the user has for     *)
(* this very supercell, Zero an array of zeros, None no array.             *)
(*                                                                         *)
(* Every history of Depth operations is printed with what must be seen     *)
(* after each of them; the real code replays them.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
W == JsonDeserialize(IOEnv.VDATA)
Type == W.type
N == W.n
N1 == W.n1
Depth == W.depth
Ids == 1..N
Inc == {i \in Ids : W.inc[i]}
None == -1
Zero == 0
Toks == {1, 2}
All(k) == [i \in Ids |-> k]
Only(k) == [i \in Ids |-> IF i \in Inc THEN k ELSE None]
OnlyZ(k) == [i \in Ids |-> IF i \in Inc THEN k ELSE Zero]
Off == [on |-> FALSE, d |-> 0, F |-> All(None), E |-> All(None)]

VARIABLES ds, file, yml, hist
vars == <<ds, file, yml, hist>>
HasF(x) == x.on /\ x.F[1] # None

\* what a user sees
Seen(x) == [on |-> x.on, d |-> x.d,
            f |-> IF HasF(x) THEN [i \in Ids |-> IF x.F[i] = None THEN Zero ELSE x.F[i]] ELSE <<>>,
            e |-> IF HasF(x) /\ x.E[1] # None THEN [i \in Ids |-> IF x.E[i] = None THEN Zero ELSE x.E[i]] ELSE <<>>,
            raw |-> x.F]

Init == ds = Off /\ file = Off /\ yml = [on |-> FALSE, ds |-> Off] /\ hist = <<>>

\* every operation: name, argument, whether it is to be refused
Do(op, k, refused) == hist' = Append(hist, [op |-> op, k |-> k, refused |-> refused, seen |-> Seen(ds')])
Keep == UNCHANGED <<ds, file, yml>>
Fresh(d) == [on |-> TRUE, d |-> d, F |-> All(None), E |-> All(None)]

Ds == IF Type = 1 THEN {1} ELSE {1, 2}
New == \E d \in Ds : ds' = Fresh(d) /\ UNCHANGED <<file, yml>> /\ Do("new", d, FALSE)
Full == \E k \in Toks : \E d \in Ds :
          ds' = [on |-> TRUE, d |-> d, F |-> Only(k), E |-> Only(k)] /\ UNCHANGED <<file, yml>> /\ Do("full", 10 * d + k, FALSE)
Unset == ds' = Off /\ UNCHANGED <<file, yml>> /\ Do("unset", 0, FALSE)
SetD == Type = 2 /\ \E d \in Ds :
          ds' = (IF ds.on THEN [ds EXCEPT !.d = d] ELSE Fresh(d)) /\ UNCHANGED <<file, yml>> /\ Do("setd", d, FALSE)
SetF == ds.on /\ \E k \in Toks : ds' = [ds EXCEPT !.F = All(k)] /\ UNCHANGED <<file, yml>> /\ Do("setf", k, FALSE)
SetE == ds.on /\ \E k \in Toks : ds' = [ds EXCEPT !.E = All(k)] /\ UNCHANGED <<file, yml>> /\ Do("sete", k, FALSE)
BadF == ds.on /\ \E k \in {1, 2} : Keep /\ Do("badf", k, TRUE)     \* one array too few, too many
BadE == ds.on /\ \E k \in {1, 2} : Keep /\ Do("bade", k, TRUE)
BadD == Type = 2 /\ Keep /\ Do("badd", 0, TRUE)                    \* another number of atoms

CanWrite(x) == x.on /\ \A i \in Inc : x.F[i] # None
Write == /\ CanWrite(ds)
         /\ file' = [Off EXCEPT !.on = TRUE, !.d = ds.d, !.F = [i \in Ids |-> IF i \in Inc THEN ds.F[i] ELSE Zero]]
         /\ UNCHANGED <<ds, yml>> /\ Do("write", 0, FALSE)
\* a list of forces of the calculated supercells, given apart
WList == \E k \in Toks : \E d \in Ds :
          /\ file' = [Off EXCEPT !.on = TRUE, !.d = d, !.F = OnlyZ(k)]
          /\ UNCHANGED <<ds, yml>> /\ Do("wlist", 10 * d + k, FALSE)
\* the command line collects forces of the supercells of the parameter file
\* (k + 10: forces of the perfect supercell are subtracted)
Collect == \E k \in Toks : \E z \in {0, 10} : yml.on /\ yml.ds.on
          /\ file' = [Off EXCEPT !.on = TRUE, !.d = yml.ds.d, !.F = OnlyZ(k)]
          /\ UNCHANGED <<ds, yml>> /\ Do("collect", z + k, FALSE)
\* and stores them in the parameter file
CollectSp == \E k \in Toks : W.sp /\ yml.on /\ yml.ds.on
          /\ yml' = [yml EXCEPT !.ds.F = [i \in Ids |-> IF i \in Inc THEN k ELSE @[i]]]
          /\ UNCHANGED <<ds, file>> /\ Do("collectsp", k, FALSE)
\* with a file missing or a file too many
CollectBad == \E k \in {1, 2} : W.sp /\ Type = 1 /\ yml.on /\ yml.ds.on /\ Keep /\ Do("collectbad", k, TRUE)
Read == /\ Type = 1 /\ ds.on /\ file.on
        /\ ds' = [ds EXCEPT !.F = file.F] /\ UNCHANGED <<file, yml>> /\ Do("read", 0, FALSE)
Read2 == /\ Type = 1 /\ ds.on /\ file.on /\ \A i \in Ids : file.F[i] <= 2
         /\ ds' = [ds EXCEPT !.F = [i \in Ids |-> 2 * file.F[i]]] /\ UNCHANGED <<file, yml>> /\ Do("read2", 0, FALSE)
\* the file lost its last line
Torn == Type = 1 /\ ds.on /\ file.on /\ Keep /\ Do("torn", 0, TRUE)

Save == \E k \in {0, 1} :
   /\ yml' = [on |-> TRUE, ds |-> IF ~ds.on \/ k = 1 THEN ds ELSE [ds EXCEPT !.F = All(None), !.E = IF Type = 1 THEN All(None) ELSE @]]
   /\ UNCHANGED <<ds, file>> /\ Do("save", k, FALSE)
\* energies of pairs are stored beside forces only
Stored(x) == IF Type = 2 THEN x ELSE [x EXCEPT !.E = [i \in Ids |-> IF x.F[i] = None THEN None ELSE x.E[i]]]
Load == /\ yml.on
        /\ CASE HasF(yml.ds) -> ds' = Stored(yml.ds)
             [] ~HasF(yml.ds) /\ file.on /\ Type = 2 -> ds' = file
             [] ~HasF(yml.ds) /\ file.on /\ Type = 1 -> yml.ds.on /\ ds' = [yml.ds EXCEPT !.F = file.F, !.E = All(None)]
             [] OTHER -> ds' = Stored(yml.ds)
        /\ UNCHANGED <<file, yml>> /\ Do("load", 0, FALSE)

Next == /\ Len(hist) < Depth
        /\ \/ New \/ Full \/ Unset \/ SetD \/ SetF \/ SetE \/ BadF \/ BadE \/ BadD
           \/ Write \/ WList \/ Read \/ Read2 \/ Torn \/ Save \/ Load
           \/ Collect \/ CollectSp \/ CollectBad
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
\* forces are known for all supercells to be calculated or for none
Whole == \A x \in {ds, file, yml.ds} : (\A i \in Inc : x.F[i] # None) \/ (\A i \in Ids : x.F[i] = None)
\* what is refused changes nothing
RefusedKeeps == [][Len(hist') > Len(hist) /\ hist'[Len(hist')].refused => UNCHANGED <<ds, file, yml>>]_vars
\* a force array never comes from two sets of data
OneSource == \A x \in {ds, file, yml.ds} : \A i, j \in Inc : x.F[i] = x.F[j]
NoEnergyAlone == Type = 1 => \A i \in Ids : yml.on /\ Stored(yml.ds).E[i] # None => yml.ds.F[i] # None
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
