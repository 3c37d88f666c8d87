----------------------------- MODULE OpgApiProps -----------------------------
(***************************************************************************)
(* What the properties ask of the document observed for an API description.*)
(*   observed: [doc: JSON, orders, dup, yaml, twice, verify, rev: JSON]    *)
(***************************************************************************)
EXTENDS OpgApi, OpgScripts

\* members of an object that differ
PartDiffers(e, j) == {k \in Keys(e) \cup Keys(j) : IF Has(e, k) /\ Has(j, k) THEN Get(e, k) # Get(j, k) ELSE TRUE}
ObjAt(j, k) == IF Has(j, k) /\ IsObj(Get(j, k)) THEN Get(j, k) ELSE JO(EmptyFn)
Components(j) == ObjAt(j, "components")
Schemas(j) == ObjAt(Components(j), "schemas")

(***************************************************************************)
(* C11  everything that is declared, and nothing else                      *)
(***************************************************************************)
Undeclared(p, o) ==
  LET d == Describe(p)
      e == NormDoc(RenderDoc(d))
      j == NormDoc(ObsDoc(o.doc))
  IN {"member " \o k : k \in PartDiffers(e, j) \ {"components", "paths"}}
     \cup {"path " \o k : k \in PartDiffers(ObjAt(e, "paths"), ObjAt(j, "paths"))}
     \cup (IF Has(e, "paths") = Has(j, "paths") THEN {} ELSE {"member paths"})
     \cup (IF SeqRange(o.orders) = DocOrders(d) THEN {} ELSE {"order of paths"})
     \cup (IF Keys(Schemas(e)) = Keys(Schemas(j)) THEN {} ELSE {"set of schemas"})
     \cup (IF o.dup THEN {"a member occurs twice"} ELSE {})

(***************************************************************************)
(* C12  by itself, and against the declaration                             *)
(***************************************************************************)
RECURSIVE BracesIn(_, _, _)
\* names in braces from position i; s is where an open brace is, or 0
BracesIn(t, i, s) ==
  IF i > Len(t) THEN {}
  ELSE IF Chr(t, i) = "{" THEN BracesIn(t, i + 1, i)
  ELSE IF Chr(t, i) = "}" /\ s > 0 THEN {SubSeq(t, s + 1, i - 1)} \cup BracesIn(t, i + 1, 0)
  ELSE BracesIn(t, i + 1, s)
ParamsIn(j) == IF Has(j, "parameters") /\ IsArr(Get(j, "parameters")) THEN SeqRange(Get(j, "parameters").a) ELSE {}
PathParams(it) == {q \in ParamsIn(it) : Has(q, "in") /\ Get(q, "in") = JS("path")}
OpsIn(it) == {m \in Keys(it) : m \in Methods}
\* all path items at any depth, as <<text, item>>
RECURSIVE ItemsIn(_)
ItemsIn(ps) ==
  {<<t, Get(ps, t)>> : t \in Keys(ps)}
  \cup UNION {UNION {UNION {ItemsIn(Get(Get(Get(Get(ps, t), m), "callbacks"), n)) : n \in Keys(ObjAt(Get(Get(ps, t), m), "callbacks"))} : m \in OpsIn(Get(ps, t))} : t \in Keys(ps)}
Misplaced(o) ==
  {"path parameters of " \o x[1] : x \in {y \in ItemsIn(ObjAt(o.doc, "paths")) :
     {Get(q, "name") : q \in PathParams(y[2])} # {JS(n) : n \in BracesIn(y[1], 1, 0)}
     \/ \E q \in PathParams(y[2]) : ~(Has(q, "required") /\ Get(q, "required") = JB(TRUE) /\ Has(q, "schema"))}}
\* only the parameters, at their places
ParamView(ps) == {<<x[1], NormDoc(SetOf(IF Has(x[2], "parameters") THEN Get(x[2], "parameters") ELSE JA(<<>>))),
                    [m \in OpsIn(x[2]) |-> NormDoc(SetOf(IF Has(Get(x[2], m), "parameters") THEN Get(Get(x[2], m), "parameters") ELSE JA(<<>>)))]>> : x \in ItemsIn(ps)}
\* (the rendered document has its lists of parameters as sets already)
SpecView(es) ==
  LET P(ps) == [set |-> {NormDoc(RenderParam(n, ps[n])) : n \in DOMAIN ps}]
  IN {<<PathText(x.path), P(x.item.params), [m \in DOMAIN x.item.ops |-> P(x.item.ops[m].params)]>> : x \in Entries(es)}
Misparametrized(p, o) ==
  LET e == SpecView(Describe(p).paths)
      j == ParamView(ObjAt(o.doc, "paths"))
  IN {"parameters at " \o x[1] : x \in (e \ j) \cup (j \ e)} \cup Misplaced(o)

(***************************************************************************)
(* C13                                                                     *)
(***************************************************************************)
SecOf(op) == IF Has(op, "security") /\ IsArr(Get(op, "security")) THEN Get(op, "security").a ELSE <<>>
Schemes(j) == ObjAt(Components(j), "securitySchemes")
Insecure(p, o) ==
  LET d == Describe(p)
      e == RenderDoc(d)
      View(ps) == {<<x[1], m, SecOf(Get(x[2], m))>> : <<x, m>> \in {y \in ItemsIn(ps) \X Methods : y[2] \in OpsIn(y[1][2])}}
      SpecSec(es) == {<<PathText(y[1].path), y[2], SecOf(RenderOp(y[1].item.ops[y[2]]))>> : y \in {z \in Entries(es) \X Methods : z[2] \in DOMAIN z[1].item.ops}}
  IN {"security scheme " \o k : k \in PartDiffers(Schemes(e), Schemes(o.doc))}
     \cup {"requirements of " \o x[2] \o " " \o x[1] : x \in (View(ObjAt(o.doc, "paths")) \ SpecSec(d.paths)) \cup (SpecSec(d.paths) \ View(ObjAt(o.doc, "paths")))}
     \cup {"unregistered scheme required by " \o x[2] \o " " \o x[1] : x \in {y \in View(ObjAt(o.doc, "paths")) :
             \E i \in 1..Len(y[3]) : ~(Keys(y[3][i]) \subseteq Keys(Schemes(o.doc)))}}

(***************************************************************************)
ApiReasons(prop, p, o) ==
  CASE prop = "C04" -> {"dangling reference to " \o n : n \in AllRefs(o.doc) \ Keys(Schemas(o.doc))} \cup {"verification reports " \o o.verify[i] : i \in 1..Len(o.verify)}
    [] prop = "C11" -> Undeclared(p, o)
    [] prop = "C12" -> Misparametrized(p, o)
    [] prop = "C13" -> Insecure(p, o)
    [] prop = "C15" -> {"member " \o k : k \in PartDiffers(NormDoc(RenderDoc(Describe(p))), NormDoc(ObsDoc(o.doc)))}
                       \cup (IF o.yaml THEN {} ELSE {"YAML differs from JSON"}) \cup (IF o.dup THEN {"a member occurs twice"} ELSE {})
    [] prop = "C16" -> (IF o.twice THEN {} ELSE {"describing again gives another document"})
                       \cup (IF o.rev = Components(o.doc) THEN {} ELSE {"components depend on the order of the paths"})
    [] OTHER -> {}

ApiSpecReasons(prop, p) ==
  LET d == Describe(p) IN
  CASE prop = "C04" -> IF Resolved(d) THEN {} ELSE {"dangling"}
    [] prop = "C12" -> IF Corresponds(d) THEN {} ELSE {"path parameters"}
    [] prop = "C13" -> IF RequiresKnown(d) THEN {} ELSE {"unregistered scheme"}
    [] OTHER -> {}
=============================================================================
