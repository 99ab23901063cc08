-------------------------------- MODULE Yaml --------------------------------
(***************************************************************************)
(* A calculation (object), the last file it was saved to, and loading it   *)
(* to another object.  Everything carries version numbers:                 *)
(*   mass, nac (0 none), ds and pds = [d displacements, f forces,          *)
(*   e energies], calc (0: eV and angstrom), unit = the units its numbers   *)
(*   are held in (the calculator's conversion applied on loading).         *)
(* Loading converts to eV and angstrom and leaves no calculator.           *)
(* Kinds of datasets: dkind[d] = 1 pairs (or singles), 2 all atoms.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
W == JsonDeserialize(IOEnv.VDATA)
Depth == W.depth
P(x) == {W.pool[x][i] : i \in 1..Len(W.pool[x])}
NoDs == [d |-> 0, f |-> 0, e |-> 0]
VARIABLES obj, file, rounds, hist
vars == <<obj, file, rounds, hist>>
None == <<>>
Kind(d) == IF d = 0 THEN 0 ELSE W.dkind[d]
Init == /\ obj = [mass |-> 0, nac |-> 0, factor |-> 0, ds |-> NoDs, pds |-> NoDs, calc |-> W.calc, unit |-> 0]
        /\ file = None /\ rounds = 0 /\ hist = <<>>
Ev(e) == hist' = Append(hist, e)
Rest == UNCHANGED <<file, rounds>>
SetMass == \E v \in P("mass") : obj' = [obj EXCEPT !.mass = v] /\ Rest /\ Ev([op |-> "mass", v |-> v])
SetNac == \E v \in P("nac") : /\ obj' = [obj EXCEPT !.nac = v, !.factor = IF v = 0 THEN 0 ELSE W.factor[v]] /\ Rest
  /\ Ev([op |-> "nac", v |-> v, unit |-> obj.unit])
SetDs == \E k \in {"ds", "pds"}, d \in P("d"), f \in P("f"), e \in P("e") :
  /\ (d = 0 => f = 0 /\ e = 0) /\ (k = "pds" => W.pscm = 1) /\ (Kind(d) = 1 /\ f = 0 => e = 0)
  /\ obj' = [obj EXCEPT ![k] = [d |-> d, f |-> f, e |-> e]] /\ Rest
  /\ Ev([op |-> k, d |-> d, f |-> f, e |-> e, unit |-> obj.unit])
\* what of a dataset is in the file
Written(x, s) ==
  IF ~s.force_sets /\ ~s.displacements THEN NoDs
  ELSE IF s.force_sets THEN x
  ELSE [x EXCEPT !.f = 0, !.e = IF Kind(x.d) = 1 THEN 0 ELSE @]
Save == \E s \in P("settings") :
  LET fs == s.force_sets  di == s.displacements  bc == s.born_effective_charge  de == s.dielectric_constant IN
  /\ file' = <<[obj EXCEPT !.ds = Written(obj.ds, s), !.pds = Written(obj.pds, s), !.nac = IF bc /\ de THEN @ ELSE 0,
                           !.factor = IF bc /\ de THEN @ ELSE 0]>>
  /\ UNCHANGED <<obj, rounds>>
  /\ Ev([op |-> "save", s |-> s, obj |-> obj])
\* default settings more often
SaveAll == LET s == [force_sets |-> TRUE] IN file' = <<obj>> /\ UNCHANGED <<obj, rounds>> /\ Ev([op |-> "save", s |-> s, obj |-> obj])
Load == file # None /\ \E nac \in BOOLEAN :
  LET x == file[1]
      y == [x EXCEPT !.calc = 0, !.unit = IF x.calc = 0 THEN @ ELSE x.calc,
                     !.nac = IF nac THEN @ ELSE 0,
                     !.factor = IF nac /\ x.nac # 0 THEN IF @ = 0 THEN -1 - x.calc ELSE @ ELSE 0] IN
  /\ obj' = y /\ rounds' = rounds + 1 /\ UNCHANGED file
  /\ Ev([op |-> "load", nac |-> nac, obj |-> y])
Next == Len(hist) < Depth /\ (SetMass \/ SetNac \/ SetDs \/ Save \/ SaveAll \/ Load)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Last == hist'[Len(hist')]
\* saved with all and loaded: nothing else changes when there is no calculator
Same(a, b) == a.mass = b.mass /\ a.nac = b.nac /\ a.ds = b.ds /\ a.pds = b.pds
RoundTrip == [][(Last.op = "load" /\ Last.nac /\ Len(hist) > 0 /\ hist[Len(hist)].op = "save" /\ hist[Len(hist)].s = [force_sets |-> TRUE])
                 => Same(obj, obj') /\ (obj.calc = 0 => obj'.unit = obj.unit /\ obj'.calc = 0)]_vars
\* converted once
Once == obj.calc # 0 => obj.unit = 0
LoadsSame == \A i, j \in 1..Len(hist) :
  (i < j /\ hist[i].op = "load" /\ hist[j].op = "load" /\ hist[i].nac = hist[j].nac /\ \A m \in i..j : hist[m].op # "save") => hist[i].obj = hist[j].obj
\* savings do not change the object, later changes of the object not the file
SaveReadsOnly == [][Last.op = "save" => UNCHANGED obj]_vars
FileIndependent == [][Last.op \notin {"save"} => UNCHANGED file]_vars
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
