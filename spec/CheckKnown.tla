------------------------------ MODULE CheckKnown -----------------------------
(* Whether the recorded findings (known_findings.txt) are still there:     *)
(* each is a program whose result breaks its property as judged here.        *)
EXTENDS OpgJson, Json, IOUtils
Obs == JsonDeserialize(IOEnv.OBS)
VARIABLES i, done
Init == i \in 1..Len(Obs) /\ done = FALSE

Paths(d) == Get(d, "paths")
\* a path with a parameter in braces that is not documented as a parameter of the path
PathParameterLost(d) ==
  \E p \in Keys(Paths(d)) :
     LET item == Get(Paths(d), p)
     IN /\ \E k \in 1..Len(p) : SubSeq(p, k, k) = "{"
        /\ ~ \E k \in 1..Len(Get(item, "parameters").a) : Get(Get(item, "parameters").a[k], "in").s = "path"

There(x) ==
  CASE x.judge = "admits" -> \E k \in 1..Len(x.o.wires) : ~Admits(x.o.schemas, x.o.ref, x.o.wires[k])
    [] x.judge = "documents" -> \E k \in 1..Len(x.o.wires) : ~Documents(x.o.schemas, x.o.ref, x.o.wires[k])
    [] x.judge = "path" -> PathParameterLost(x.o.doc)

Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ IF There(Obs[i]) THEN PrintT("THERE " \o Obs[i].id) ELSE TRUE
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
