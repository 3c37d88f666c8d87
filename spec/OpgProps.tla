------------------------------- MODULE OpgProps ------------------------------
(***************************************************************************)
(* The properties of described types, over a case c (OpgCases) and what    *)
(* the implementation was observed to do with it:                          *)
(*                                                                         *)
(*   o.refs[i]   the reference that mentioning root i returned             *)
(*   o.snaps[i]  the registered schemas after it (name -> JSON)            *)
(*   o.verify    <<>> or <<name>>: the result of verify_schemas            *)
(*   o.wires[i]  JSON written by serde for samples of root i               *)
(*   o.fresh[n]  the component of declaration n when mentioned alone       *)
(*   o.own[n]    what the declaration's own get_schema returns             *)
(*   o.rev       the registered schemas when mentioned in reverse order    *)
(*   o.again     mentioning all roots again changed nothing                *)
(*   o.twice     a second run in an empty registry observed the same       *)
(*                                                                         *)
(* Each operator yields the set of reasons why the property fails.         *)
(***************************************************************************)
EXTENDS OpgWire

(***************************************************************************)
(* What the specification says                                             *)
(***************************************************************************)
RECURSIVE RunRoots(_, _, _)
RunRoots(E, roots, cx) ==
  IF Len(roots) = 0 THEN <<>>
  ELSE LET m == Mention(E, roots[1].ty, cx, roots[1].inline, roots[1].p)
       IN <<[cx |-> m.cx, r |-> m.r]>> \o RunRoots(E, Tail(roots), m.cx)
Expected(c) == RunRoots(EnvOf(c.decls), c.roots, EmptyCx)

Final(o) == o.snaps[Len(o.snaps)]

(***************************************************************************)
(* `required` is a set                                                     *)
(***************************************************************************)
AsSet(j) == IF IsArr(j) THEN [set |-> SeqRange(j.a)] ELSE j
RECURSIVE Norm(_, _)
Norm(j, keep) ==
  IF ~IsObj(j) THEN j ELSE
  JO([k \in Keys(j) \cap (keep \cup StructureKeys) |->
        CASE k = "properties" /\ IsObj(j.o[k]) -> JO([p \in Keys(j.o[k]) |-> Norm(Get(j.o[k], p), keep)])
          [] k \in {"items", "additionalProperties"} -> Norm(j.o[k], keep)
          [] k \in Alternatives /\ IsArr(j.o[k]) -> JA([i \in 1..Len(j.o[k].a) |-> Norm(j.o[k].a[i], keep)])
          [] k = "required" -> AsSet(j.o[k])
          [] OTHER -> j.o[k]])
NormAll(C, keep) == [n \in DOMAIN C |-> Norm(C[n], keep)]

AllMembers == {"type", "nullable", "description", "format", "example", "enum", "required", "$ref"}
Shape == {"type", "nullable", "required", "enum", "$ref"}

\* Observed and specified documents agree on the given members
Differences(c, o, keep) ==
  LET e == Expected(c)
      exp == NormAll(RenderSchemas(e[Len(e)].cx), keep)
      obs == NormAll(Final(o), keep)
  IN {"reference " \o ToString(i) : i \in {k \in 1..Len(e) : Norm(RenderRef(e[k].r), keep) # Norm(o.refs[k], keep)}}
     \cup {"unexpected component " \o n : n \in DOMAIN obs \ DOMAIN exp}
     \cup {"missing component " \o n : n \in DOMAIN exp \ DOMAIN obs}
     \cup {"component " \o n : n \in {m \in DOMAIN exp \cap DOMAIN obs : exp[m] # obs[m]}}

(***************************************************************************)
(* C01  Every value that serde writes is admitted by the documentation     *)
(***************************************************************************)
\* Known finding: a unit variant next to variants with content in an externally tagged enum is written as a
\* string, documented as an object.  Only what the specification has to get wrong the same way is excused.
MixedUnit(decl) ==
  LET d == Written(decl) IN
  /\ d.kind = "enum" /\ EnumKind(d) = "external"
  /\ \E i \in 1..Len(d.variants) : d.variants[i].style = "unit" /\ ~SerSkipped(d.variants[i])
HasMixedUnit(c) == \E i \in 1..Len(c.decls) : MixedUnit(c.decls[i])
SpecAdmits(c, i, v) == LET e == Expected(c) IN Admits(RenderSchemas(e[Len(e)].cx), RenderRef(e[i].r), v)
Excused(c, i, v) == HasMixedUnit(c) /\ ~SpecAdmits(c, i, v)
ExcusedName(c, i, v) == HasMixedUnit(c) /\ LET e == Expected(c) IN ~Documents(RenderSchemas(e[Len(e)].cx), RenderRef(e[i].r), v)

Admitted(c, o) ==
  {"root " \o ToString(x[1]) \o " sample " \o ToString(x[2]) :
     x \in {<<i, j>> \in (1..Len(o.wires)) \X (1..8) :
              j <= Len(o.wires[i]) /\ ~Admits(Final(o), o.refs[i], o.wires[i][j]) /\ ~Excused(c, i, o.wires[i][j])}}

(***************************************************************************)
(* C02  Every key that serde writes is documented, under its wire name,    *)
(*      and the documented names are exactly those                         *)
(***************************************************************************)
RECURSIVE NamesOf(_)
NamesOf(j) ==
  (IF Has(j, "properties") /\ IsObj(Get(j, "properties")) THEN Keys(Get(j, "properties")) ELSE {})
  \cup (IF Has(j, "enum") /\ IsArr(Get(j, "enum")) THEN {v.s : v \in SeqRange(Get(j, "enum").a)} ELSE {})
  \cup (IF Has(j, "required") /\ IsArr(Get(j, "required")) THEN {v.s : v \in SeqRange(Get(j, "required").a)} ELSE {})
  \cup UNION {NamesOf(x) : x \in SubSchemas(j)}
WireNamed(c, o) ==
  {"undocumented key: root " \o ToString(x[1]) \o " sample " \o ToString(x[2]) :
     x \in {<<i, j>> \in (1..Len(o.wires)) \X (1..8) :
              j <= Len(o.wires[i]) /\ Admits(Final(o), o.refs[i], o.wires[i][j]) /\ ~Documents(Final(o), o.refs[i], o.wires[i][j])
              /\ ~ExcusedName(c, i, o.wires[i][j])}}
NamesDiffer(c, o) ==
  LET e == Expected(c)
      exp == RenderSchemas(e[Len(e)].cx)
  IN {"names in component " \o n : n \in {m \in DOMAIN exp \cap DOMAIN Final(o) : NamesOf(exp[m]) # NamesOf(Final(o)[m])}}
     \cup {"names in reference " \o ToString(i) : i \in {k \in 1..Len(e) : NamesOf(RenderRef(e[k].r)) # NamesOf(o.refs[k])}}
     \cup Differences(c, o, {"enum", "required"})

(***************************************************************************)
(* C03  required = always present, properties = not skipped                *)
(***************************************************************************)
\* Observed alone: a key documented as required is in every sample that takes this shape (by Admits), and
\* a key that no sample lacks ... is left to the comparison with the specification.
PresenceFails(c, o) == Differences(c, o, {"required"}) \cup Admitted(c, o) \cup WireNamed(c, o)

(***************************************************************************)
(* C04  Nothing dangles, at any moment                                     *)
(***************************************************************************)
DanglingRefs(o) ==
  {"dangling " \o x[2] \o " after root " \o ToString(x[1]) :
     x \in UNION {{<<i, n>> : n \in (UNION {AllRefs(o.snaps[i][m]) : m \in DOMAIN o.snaps[i]}
                                     \cup UNION {AllRefs(o.refs[k]) : k \in 1..i}) \ DOMAIN o.snaps[i]} : i \in 1..Len(o.snaps)}}
  \cup {"verify_schemas reports " \o o.verify[1] : x \in 1..Len(o.verify)}
  \cup (LET bad == {n \in DOMAIN o.rev : ~(AllRefs(o.rev[n]) \subseteq DOMAIN o.rev)} IN {"dangling in reverse order: " \o n : n \in bad})

(***************************************************************************)
(* C05  A component is its type's own schema and is never changed          *)
(***************************************************************************)
IsStub(j) == Has(j, "oneOf") /\ Get(j, "oneOf") = JA(<<>>)
OwnSchema(c, o) ==
  {"component " \o n \o " is not the type's own schema" :
     n \in {m \in DOMAIN Final(o) \cap DOMAIN o.own : Final(o)[m] # o.own[m]}}
  \cup {"component " \o n \o " depends on what was mentioned before" :
     n \in {m \in DOMAIN Final(o) \cap DOMAIN o.fresh : Final(o)[m] # o.fresh[m]}}
  \cup {"component " \o n \o " depends on the order" : n \in {m \in DOMAIN Final(o) \cap DOMAIN o.rev : Final(o)[m] # o.rev[m]}}
  \cup {"component set depends on the order" : x \in IF DOMAIN Final(o) = DOMAIN o.rev THEN {} ELSE {1}}
  \cup {"component " \o n \o " was replaced by root " \o ToString(i + 1) :
     <<i, n>> \in UNION {{<<k, m>> : m \in {y \in DOMAIN o.snaps[k] :
                            y \notin DOMAIN o.snaps[k + 1] \/ o.snaps[k][y] # o.snaps[k + 1][y]}} : k \in 1..(Len(o.snaps) - 1)}}
  \cup {"component " \o n \o " has no content" : n \in {m \in DOMAIN Final(o) : IsStub(Final(o)[m])}}
  \cup {"component set differs from the specification" :
          x \in IF DOMAIN Final(o) = DOMAIN (LET e == Expected(c) IN e[Len(e)].cx) THEN {} ELSE {1}}

(***************************************************************************)
(* C06  Describing ends, and describing again changes nothing              *)
(***************************************************************************)
Ends(c, o) ==
  {"mentioning again changes the registry or the references" : x \in IF o.again THEN {} ELSE {1}}
  \cup {"component " \o n \o " has no content" : n \in {m \in DOMAIN Final(o) : IsStub(Final(o)[m])}}
  \cup {r \in Differences(c, o, {"$ref"}) : TRUE}

(***************************************************************************)
(* C16  Same input, same document; order does not matter                   *)
(***************************************************************************)
Deterministic(c, o) ==
  {"second run differs" : x \in IF o.twice THEN {} ELSE {1}}
  \cup {"schemas depend on the order of mentions" : x \in IF Final(o) = o.rev THEN {} ELSE {1}}
  \cup {"references depend on the order of mentions" : x \in IF o.refs = o.rev_refs THEN {} ELSE {1}}

Reasons(prop, c, o) ==
  CASE prop = "C01" -> Admitted(c, o)
    [] prop = "C02" -> WireNamed(c, o) \cup NamesDiffer(c, o)
    [] prop = "C03" -> PresenceFails(c, o)
    [] prop = "C04" -> DanglingRefs(o)
    [] prop = "C05" -> OwnSchema(c, o)
    [] prop = "C06" -> Ends(c, o)
    [] prop = "C08" -> Differences(c, o, {"type", "nullable", "description", "format", "example", "$ref"})
    [] prop = "C09" -> Differences(c, o, {"type", "enum", "required", "$ref", "example"})
    [] prop = "C10" -> Differences(c, o, AllMembers)
    [] prop = "C16" -> Deterministic(c, o)
    [] prop = "ALL" -> Differences(c, o, AllMembers)

(***************************************************************************)
(* The properties on the specification itself: what it says about a case   *)
(* is taken for the observation.                                           *)
(***************************************************************************)
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
SpecObs(c) ==
  LET E == EnvOf(c.decls)
      e == Expected(c)
      r == Expected([c EXCEPT !.roots = Reversed(c.roots)])
      twice == RunRoots(E, c.roots, e[Len(e)].cx)
      lone == {n \in DOMAIN E : Len(E[n].params) = 0 /\ ~E[n].c.inline}
  IN [refs |-> [i \in 1..Len(e) |-> RenderRef(e[i].r)],
      snaps |-> [i \in 1..Len(e) |-> RenderSchemas(e[i].cx)],
      verify |-> <<>>,
      wires |-> [i \in 1..Len(e) |-> Samples(E, c.roots[i].ty, 8)],
      twice |-> TRUE,
      again |-> (\A i \in 1..Len(e) : twice[i].r = e[i].r) /\ twice[Len(e)].cx = e[Len(e)].cx,
      rev |-> RenderSchemas(r[Len(r)].cx),
      rev_refs |-> [i \in 1..Len(r) |-> RenderRef(r[Len(r) + 1 - i].r)],
      fresh |-> [n \in lone |-> RenderModel(Mention(E, Decl(n), EmptyCx, FALSE, NoParams).cx[n])],
      own |-> [n \in lone |-> RenderModel(GetSchema(E, Decl(n), EmptyCx).m)]]
\* (for the others an observation is compared with the specification: nothing to check on the latter)
SpecProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C16"}
SpecReasonsOf(p, c) == IF p \in SpecProps THEN Reasons(p, c, SpecObs(c)) ELSE {}
SpecReasons(c) == LET o == SpecObs(c) IN
  UNION {Reasons(p, c, o) : p \in SpecProps}

\* The specification of serde itself, checked against serde: not a property of opg
WireSpec(c, o) ==
  \A i \in 1..Len(o.wires) :
    \A j \in 1..Len(o.wires[i]) : o.wires[i][j] = Wire(EnvOf(c.decls), c.roots[i].ty, j - 1, SampleFuel)

=============================================================================
