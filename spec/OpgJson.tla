------------------------------- MODULE OpgJson -------------------------------
(***************************************************************************)
(* JSON values, tagged so that any two of them can be compared, and what   *)
(* it means for an (OpenAPI 3.0) schema to admit a value.                  *)
(*                                                                         *)
(*   [s |-> "x"]  string     [n |-> "7"]  number     [b |-> TRUE] boolean  *)
(*   [z |-> TRUE] null       [a |-> seq]  array      [o |-> fcn]  object   *)
(***************************************************************************)
EXTENDS OpgStrings

JS(x) == [s |-> x]
JN(x) == [n |-> x]
JB(x) == [b |-> x]
JZ == [z |-> TRUE]
JA(x) == [a |-> x]
JO(f) == [o |-> f]
EmptyFn == [x \in {} |-> 0]

IsStr(j)  == "s" \in DOMAIN j
IsNum(j)  == "n" \in DOMAIN j
IsBool(j) == "b" \in DOMAIN j
IsNull(j) == "z" \in DOMAIN j
IsArr(j)  == "a" \in DOMAIN j
IsObj(j)  == "o" \in DOMAIN j

Keys(j) == IF IsObj(j) THEN DOMAIN j.o ELSE {}
Has(j, k) == k \in Keys(j)
Get(j, k) == j.o[k]

MapSeq(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
SeqRange(s) == {s[i] : i \in 1..Len(s)}
StrArr(s) == JA(MapSeq(JS, s))

\* Optional member of an object
Opt(k, o) == IF IsSome(o) THEN k :> The(o) ELSE EmptyFn
When(c, f) == IF c THEN f ELSE EmptyFn

RefPrefix == "#/components/schemas/"
RefTo(n) == JO("$ref" :> JS(RefPrefix \o n))
IsRef(j) == Has(j, "$ref") /\ IsStr(Get(j, "$ref"))
RefTarget(j) == LET s == Get(j, "$ref").s IN
                IF Len(s) >= Len(RefPrefix) /\ SubSeq(s, 1, Len(RefPrefix)) = RefPrefix
                THEN SubSeq(s, Len(RefPrefix) + 1, Len(s)) ELSE "?" \o s

(***************************************************************************)
(* Sub-schemas of a schema, and the references it contains at any depth.   *)
(***************************************************************************)
Alternatives == {"oneOf", "anyOf", "allOf"}

SubSchemas(j) ==
  (IF Has(j, "properties") /\ IsObj(Get(j, "properties"))
     THEN {Get(Get(j, "properties"), k) : k \in Keys(Get(j, "properties"))} ELSE {})
  \cup (IF Has(j, "items") THEN {Get(j, "items")} ELSE {})
  \cup (IF Has(j, "additionalProperties") THEN {Get(j, "additionalProperties")} ELSE {})
  \cup UNION {IF Has(j, k) /\ IsArr(Get(j, k)) THEN SeqRange(Get(j, k).a) ELSE {} : k \in Alternatives}

RECURSIVE SchemaRefs(_)
SchemaRefs(j) ==
  (IF IsRef(j) THEN {RefTarget(j)} ELSE {}) \cup UNION {SchemaRefs(x) : x \in SubSchemas(j)}

\* Every `$ref` anywhere in an arbitrary JSON document
RECURSIVE AllRefs(_)
AllRefs(j) ==
  IF IsObj(j) THEN (IF IsRef(j) THEN {RefTarget(j)} ELSE {}) \cup UNION {AllRefs(Get(j, k)) : k \in Keys(j)}
  ELSE IF IsArr(j) THEN UNION {AllRefs(x) : x \in SeqRange(j.a)}
  ELSE {}

\* Whether a `null` occurs anywhere in a document
RECURSIVE HasNull(_)
HasNull(j) ==
  IF IsObj(j) THEN \E k \in Keys(j) : HasNull(Get(j, k))
  ELSE IF IsArr(j) THEN \E x \in SeqRange(j.a) : HasNull(x)
  ELSE IsNull(j)

(***************************************************************************)
(* Admits(C, sch, v): schema `sch`, its references resolved in C (name ->  *)
(* schema), admits the JSON value v.  One matching alternative suffices:   *)
(* overlapping alternatives are not an error.                              *)
(*                                                                         *)
(* Documents(C, sch, v): in addition, every key of v is a documented one.  *)
(***************************************************************************)
Flag(j, k) == Has(j, k) /\ Get(j, k) = JB(TRUE)

\* `seen`: references followed without descending into v; coming back to one of them admits nothing new
RECURSIVE Accepts(_, _, _, _, _)
Accepts(C, sch, v, strict, seen) ==
  IF IsRef(sch) THEN /\ RefTarget(sch) \in DOMAIN C \ seen
                      /\ Accepts(C, C[RefTarget(sch)], v, strict, seen \cup {RefTarget(sch)})
  ELSE IF Flag(sch, "nullable") /\ IsNull(v) THEN TRUE
  ELSE /\ Has(sch, "oneOf") => \E i \in 1..Len(Get(sch, "oneOf").a) : Accepts(C, Get(sch, "oneOf").a[i], v, strict, seen)
       /\ Has(sch, "anyOf") => \E i \in 1..Len(Get(sch, "anyOf").a) : Accepts(C, Get(sch, "anyOf").a[i], v, strict, seen)
       /\ Has(sch, "allOf") => \A i \in 1..Len(Get(sch, "allOf").a) : Accepts(C, Get(sch, "allOf").a[i], v, strict, seen)
       /\ Has(sch, "type") =>
            CASE Get(sch, "type") = JS("string") ->
                   IsStr(v) /\ (Has(sch, "enum") => v \in SeqRange(Get(sch, "enum").a))
              [] Get(sch, "type") = JS("integer") -> IsNum(v) /\ \A i \in 1..Len(v.n) : Chr(v.n, i) # "."
              [] Get(sch, "type") = JS("number") -> IsNum(v)
              [] Get(sch, "type") = JS("boolean") -> IsBool(v)
              [] Get(sch, "type") = JS("array") ->
                   IsArr(v) /\ \A i \in 1..Len(v.a) : Has(sch, "items") => Accepts(C, Get(sch, "items"), v.a[i], strict, {})
              [] Get(sch, "type") = JS("object") ->
                   /\ IsObj(v)
                   /\ Has(sch, "required") => \A x \in SeqRange(Get(sch, "required").a) : x.s \in Keys(v)
                   /\ \A k \in Keys(v) :
                        IF Has(sch, "properties") /\ k \in Keys(Get(sch, "properties"))
                        THEN Accepts(C, Get(Get(sch, "properties"), k), Get(v, k), strict, {})
                        ELSE IF Has(sch, "additionalProperties")
                        THEN Accepts(C, Get(sch, "additionalProperties"), Get(v, k), strict, {})
                        ELSE ~strict
              [] OTHER -> FALSE

Admits(C, sch, v) == Accepts(C, sch, v, FALSE, {})
Documents(C, sch, v) == Accepts(C, sch, v, TRUE, {})

(***************************************************************************)
(* Facets: a schema with only the given members kept.  Structure (keys of  *)
(* `properties`, alternatives, items) is always kept.                      *)
(***************************************************************************)
StructureKeys == {"properties", "items", "additionalProperties"} \cup Alternatives

RECURSIVE Facet(_, _)
Facet(j, keep) ==
  IF ~IsObj(j) THEN j ELSE
  JO([k \in Keys(j) \cap (keep \cup StructureKeys) |->
        CASE k = "properties" /\ IsObj(j.o[k]) -> JO([p \in Keys(j.o[k]) |-> Facet(Get(j.o[k], p), keep)])
          [] k \in {"items", "additionalProperties"} -> Facet(j.o[k], keep)
          [] k \in Alternatives /\ IsArr(j.o[k]) -> JA([i \in 1..Len(j.o[k].a) |-> Facet(j.o[k].a[i], keep)])
          [] OTHER -> j.o[k]])

FacetAll(C, keep) == [n \in DOMAIN C |-> Facet(C[n], keep)]

=============================================================================
