--------------------------- MODULE ReportCompare ----------------------------
(***************************************************************************)
(* Comparing two sets of results (P19).                                    *)
(*                                                                         *)
(* A report is [kind "dg" or "vv", bump, rows] with two numbers per id, or  *)
(* [kind "tb", nums <<price, theta>>, subs] with reports inside.  A number  *)
(* is kept as how many quarters of its tolerance it is away from some       *)
(* value that goes with its place, so that two numbers of a place are equal *)
(* within tolerance when they are at most 4 apart, or when they are the     *)
(* same if no difference is tolerated.                                     *)
(*                                                                         *)
(* Tolerances: [price, ccy, unit]; of deltas unit over the size of the      *)
(* bump, of gammas that over the size again; of vegas and volgas likewise   *)
(* from ccy; of prices and thetas price.                                   *)
(*                                                                         *)
(* World: sets (of results), tols, steps (changes to numbers).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxEdits
World == JsonDeserialize(IOEnv.WORLD)
Steps == { World.steps[i] : i \in 1 .. Len(World.steps) }
Ids == {"BP.L", "GSK.L", "VOD.L"}

VARIABLES w, tol, left, right, n
vars == <<w, tol, left, right, n>>

Init == /\ w \in 1 .. Len(World.sets) /\ tol \in 1 .. Len(World.tols)
        /\ left = World.sets[w] /\ right = World.sets[w] /\ n = 0

----------------------------------------------------------------------------
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Nums(v) == { [v EXCEPT ![j] = s] : j \in 1 .. 2, s \in Steps } \ {v}
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

(* One change, anywhere. *)
RECURSIVE Edits(_), AllEdits(_)
AllEdits(rs) ==
  UNION { { [rs EXCEPT ![i] = e] : e \in Edits(rs[i]) } : i \in 1 .. Len(rs) }
  \cup { Drop(rs, i) : i \in 1 .. Len(rs) }
  \cup { Append(rs, rs[i]) : i \in 1 .. Len(rs) }
  \cup { [rs EXCEPT ![i] = rs[i + 1], ![i + 1] = rs[i]] : i \in 1 .. Len(rs) - 1 }
Edits(r) ==
  IF r.kind = "tb"
  THEN { [r EXCEPT !.nums = v] : v \in Nums(r.nums) } \cup { [r EXCEPT !.subs = s] : s \in AllEdits(r.subs) }
  ELSE LET row == DOMAIN r.rows IN
       UNION { { [r EXCEPT !.rows[x] = v] : v \in Nums(r.rows[x]) } : x \in row }
       \cup { [r EXCEPT !.rows = Without(r.rows, x)] : x \in row }
       \cup { [r EXCEPT !.rows = With(r.rows, x, <<0, 0>>)] : x \in Ids \ row }
       \cup { [r EXCEPT !.rows = With(Without(r.rows, x), y, r.rows[x])] : x \in row, y \in Ids \ row }
       \cup { [r EXCEPT !.bump = b] : b \in 1 .. Len(World.bumps) }
       \cup { [r EXCEPT !.kind = IF r.kind = "dg" THEN "vv" ELSE "dg"], [kind |-> "tb", nums |-> <<0, 0>>, subs |-> <<r>>] }

----------------------------------------------------------------------------
T == World.tols[tol]
Near(t, a, b) == a = b \/ (t[1] > 0 /\ a - b <= 4 /\ b - a <= 4)
RECURSIVE SameOne(_, _), Same(_, _)
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : SameOne(a[i], b[i])
SameOne(a, b) ==
  /\ a.kind = b.kind
  /\ IF a.kind = "tb" THEN (\A j \in 1 .. 2 : Near(T.price, a.nums[j], b.nums[j])) /\ Same(a.subs, b.subs)
     ELSE /\ a.bump = b.bump
          /\ DOMAIN a.rows = DOMAIN b.rows
          /\ \A x \in DOMAIN a.rows, j \in 1 .. 2 : Near(IF a.kind = "dg" THEN T.unit ELSE T.ccy, a.rows[x][j], b.rows[x][j])

EditLeft == n < MaxEdits /\ left' \in AllEdits(left) /\ n' = n + 1 /\ UNCHANGED <<w, tol, right>>
EditRight == n < MaxEdits /\ right' \in AllEdits(right) /\ n' = n + 1 /\ UNCHANGED <<w, tol, left>>
Next == EditLeft \/ EditRight
Spec == Init /\ [][Next]_vars

Symmetric == Same(left, right) = Same(right, left)
Reflexive == Same(left, left) /\ Same(right, right)
Emit == CSVWrite("%1$s", << ToJson([w |-> w, tol |-> tol, left |-> left, right |-> right, same |-> Same(left, right)]) >>, IOEnv.OUT)
=============================================================================
