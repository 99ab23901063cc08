------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* Stored data.  A directory holds files; which file a call writes or      *)
(* reads is given by the parameters in its name.  A writer is a call which *)
(* writes the files of a list with one content; a reader takes those of a  *)
(* list.  Both carry a stamp (mesh numbers, shape): what was written under *)
(* another stamp is refused although the names agree.                      *)
(*                                                                         *)
(* Data: number of files, writers and readers <<stamp, files>>, number of  *)
(* contents, depth.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
W == JsonDeserialize(IOEnv.VDATA)
Depth == W.depth
F == 1..W.nf
Vals == 1..W.nv
None == <<0, 0>>
VARIABLES disk, hist
vars == <<disk, hist>>
Init == disk = [f \in F |-> None] /\ hist = <<>>
Set(s) == {s[i] : i \in 1..Len(s)}
Write == \E i \in 1..Len(W.writers), v \in Vals : LET w == W.writers[i] IN
  /\ disk' = [f \in F |-> IF f \in Set(w[2]) THEN <<v, w[1]>> ELSE disk[f]]
  /\ hist' = Append(hist, [op |-> "write", i |-> i, v |-> v])
Remove == \E f \in F : /\ disk[f] # None
  /\ disk' = [disk EXCEPT ![f] = None]
  /\ hist' = Append(hist, [op |-> "remove", f |-> f])
Content(f, stamp) == IF disk[f] # None /\ disk[f][2] = stamp THEN disk[f][1] ELSE 0
Read == \E j \in 1..Len(W.readers) : LET r == W.readers[j]
     res == [k \in 1..Len(r[2]) |-> Content(r[2][k], r[1])] IN
  /\ UNCHANGED disk
  /\ hist' = Append(hist, [op |-> "read", j |-> j, res |-> res, ok |-> \A k \in 1..Len(res) : res[k] # 0])
Next == /\ Len(hist) < Depth
        /\ IF Len(hist) = Depth - 1 THEN Read ELSE Write \/ Remove \/ Read
Spec == Init /\ [][Next]_vars
TypeOK == \A f \in F : disk[f] = None \/ disk[f][1] \in Vals
\* what is read was the last thing written there
Touches(h, f) == \/ h.op = "write" /\ f \in Set(W.writers[h.i][2])
                 \/ h.op = "remove" /\ h.f = f
LastTouch(f) == LET S == {i \in 1..Len(hist) : Touches(hist[i], f)} IN
  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A k \in S : k <= i
Last == hist'[Len(hist')]
LastWritten == [][Last.op = "read" => \A k \in 1..Len(Last.res) : LET r == W.readers[Last.j] t == LastTouch(r[2][k]) IN
  Last.res[k] = IF t = 0 THEN 0 ELSE IF hist[t].op = "remove" THEN 0
                ELSE IF W.writers[hist[t].i][1] # r[1] THEN 0 ELSE hist[t].v]_vars
\* files of other names do not matter
Isolation == [][Last.op = "write" => \A f \in F : f \notin Set(W.writers[Last.i][2]) => disk'[f] = disk[f]]_vars
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
