------------------------------ MODULE CheckAttrs -----------------------------
(* Whether each declaration compiled (OBS), against the specification.       *)
EXTENDS OpgAttrs, OpgClauses, Json, IOUtils
Obs == JsonDeserialize(IOEnv.OBS)
Accepts(c) == CASE c.k = "attrs" -> AcceptsItems(c.place, c.items)
                [] c.k = "clause" -> AcceptsClause(c)
                [] c.k = "bare" -> FALSE
                [] c.k = "generic" -> TRUE
                [] c.k = "accepted" -> TRUE
                [] c.k = "rejected" -> FALSE
                [] OTHER -> AcceptsShape(c)
VARIABLES i, done
Init == i \in 1..Len(Obs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET x == Obs[i] IN
           IF x.compiles = Accepts(x.c) THEN TRUE
           ELSE PrintT("FAIL " \o x.id \o " " \o (IF x.compiles THEN "a declaration to be rejected is accepted" ELSE "a supported declaration is rejected"))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
