--------------------------- MODULE OpgMacroBuilder ---------------------------
(***************************************************************************)
(* Builds nested forms bottom-up: each step makes a new form out of those  *)
(* made before.  Simulated to draw deep ones.                              *)
(***************************************************************************)
EXTENDS OpgMacro, Json, IOUtils, Randomization

VARIABLES pool, done
Few(S) == RandomSubset(IF Cardinality(S) < 2 THEN Cardinality(S) ELSE 2, S)
Init == pool = <<>> /\ done = FALSE
Values == SeqRange(pool) \cup LinkValues
Leaf == Len(pool) < 3 /\ \E f \in Few(LeafForms \cup RawForms) : pool' = Append(pool, f)
Arr == \E v \in Few(Values), d \in Opts("list " \o ToString(Len(pool))) : pool' = Append(pool, [k |-> "array", d |-> d, items |-> v])
Obj == \E n \in RandomSubset(1, 1..4) : \E vs \in Few([1..n -> Few(Values)]), rs \in Few([1..n -> BOOLEAN]), d \in Opts("object " \o ToString(Len(pool))), o \in {0, 1, 2} :
         pool' = Append(pool, [k |-> "object", d |-> d, props |-> [i \in 1..n |-> [n |-> PropNames[((i + o) % 4) + 1], req |-> rs[i], v |-> vs[i]]]])
Step == ~done /\ Len(pool) < 9 /\ (Leaf \/ (Len(pool) > 1 /\ (Arr \/ Obj))) /\ done' = FALSE
End == ~done /\ Len(pool) > 4 /\ done' = TRUE /\ pool' = pool /\ PrintT("CASE " \o ToJson(pool[Len(pool)]))
Next == Step \/ End
Spec == Init /\ [][Next]_<<pool, done>>
Faithful == Len(pool) > 0 => FormFaithful(pool[Len(pool)])
=============================================================================
