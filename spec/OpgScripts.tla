----------------------------- MODULE OpgScripts ------------------------------
(***************************************************************************)
(* Scripts of operations on a registry and on schema objects, and          *)
(* documents built by hand: what they do, and what the properties ask of   *)
(* what was observed.                                                      *)
(*                                                                         *)
(*   Script == [decls, graph, model, ops: Seq(Op)]  or  [doc: Doc]         *)
(*   observed: [steps: Seq([ret, schemas, sec, model])]                    *)
(*          or [doc: JSON, orders: set of [at, keys], dup, yaml]           *)
(***************************************************************************)
EXTENDS OpgProps, OpgDoc

St0(s) == [cx |-> EmptyCx, sec |-> EmptyFn, m |-> s.model, ret |-> JZ]

Do(E, op, st) ==
  CASE op.op = "mention" ->
         LET x == Mention(E, op.ty, st.cx, op.inline, op.p) IN [st EXCEPT !.cx = x.cx, !.ret = RenderRef(x.r)]
    [] op.op = "get" ->
         LET x == GetSchema(E, op.ty, st.cx) IN [st EXCEPT !.cx = x.cx, !.ret = RenderModel(ApplyParams(x.m, op.p))]
    [] op.op = "add" -> [st EXCEPT !.cx = IF op.name \in DOMAIN st.cx THEN st.cx ELSE (op.name :> op.m) @@ st.cx, !.ret = JZ]
    [] op.op = "contains" -> [st EXCEPT !.ret = JB(op.name \in DOMAIN st.cx)]
    [] op.op = "verify" -> [st EXCEPT !.ret = JZ]          \* any dangling name may be reported: judged on its own
    [] op.op = "scheme" -> [st EXCEPT !.sec = IF op.name \in DOMAIN st.sec THEN st.sec ELSE (op.name :> op.scheme) @@ st.sec, !.ret = JS(op.name)]
    [] op.op = "apply" -> [st EXCEPT !.m = ApplyParams(st.m, op.p), !.ret = JZ]
    [] op.op = "merge" -> LET x == TryMerge(st.m, op.m) IN [st EXCEPT !.m = x.m, !.ret = JB(x.ok)]
    [] op.op = "objmerge" ->
         IF ~IsObject(st.m) THEN [st EXCEPT !.ret = JS("not an object")]
         ELSE IF ObjConflict(st.m.data.td, op.td) THEN [st EXCEPT !.ret = JB(FALSE)]
         ELSE [st EXCEPT !.m.data.td = ObjMerge(st.m.data.td, op.td), !.ret = JB(TRUE)]
    [] op.op = "addprop" ->
         IF ~IsObject(st.m) THEN [st EXCEPT !.ret = JS("not an object")]
         ELSE LET x == ObjAddProperty(st.m.data.td, op.name, op.ref, op.req) IN [st EXCEPT !.m.data.td = x.o, !.ret = JB(x.ok)]
    [] op.op = "nullable" -> [st EXCEPT !.m = IntoNullable(op.ref), !.ret = JZ]

RECURSIVE DoAll(_, _, _, _)
DoAll(E, ops, i, st) == IF i > Len(ops) THEN <<>> ELSE LET n == Do(E, ops[i], st) IN <<n>> \o DoAll(E, ops, i + 1, n)
SpecSteps(s) == DoAll(EnvOf(s.decls), s.ops, 1, St0(s))

(***************************************************************************)
(* Observed steps                                                          *)
(***************************************************************************)
Before(o, i) == IF i = 1 THEN EmptyFn ELSE o.steps[i - 1].schemas
ObsDangling(C) == UNION {SchemaRefs(C[n]) : n \in DOMAIN C} \ DOMAIN C
OpsOf(s, kinds) == {i \in 1..Len(s.ops) : s.ops[i].op \in kinds}
At(what, I) == {what \o " at step " \o ToString(i) : i \in I}
NormS(C) == NormAll(C, AllMembers)

\* Everything but the report of a verification is determined
Diverges(s, o, kinds) ==
  LET e == SpecSteps(s) IN
  At("result", {i \in OpsOf(s, kinds \ {"verify"}) : Norm(o.steps[i].ret, AllMembers) # Norm(e[i].ret, AllMembers)})
  \cup At("registered schemas", {i \in OpsOf(s, kinds) : NormS(o.steps[i].schemas) # NormS(RenderSchemas(e[i].cx))})
  \cup At("security schemes", {i \in OpsOf(s, kinds) : o.steps[i].sec # [n \in DOMAIN e[i].sec |-> RenderScheme(e[i].sec[n])]})
  \cup At("schema object", {i \in OpsOf(s, kinds) : Norm(o.steps[i].model, AllMembers) # Norm(RenderModel(e[i].m), AllMembers)})

\* C04: a mention never adds a dangling reference
DanglingSteps(s, o) ==
  LET hand == UNION {ModelLinks(s.ops[i].m) : i \in OpsOf(s, {"add"})} IN
  At("dangling reference", {i \in OpsOf(s, {"mention", "get"}) :
    ~((ObsDangling(o.steps[i].schemas) \cup (AllRefs(o.steps[i].ret) \ DOMAIN o.steps[i].schemas)) \subseteq hand)})

\* C05: registered once and for all
Replaced(s, o) ==
  At("a registered schema was changed", {i \in 1..Len(s.ops) :
    \E n \in DOMAIN Before(o, i) : n \notin DOMAIN o.steps[i].schemas \/ o.steps[i].schemas[n] # Before(o, i)[n]})

\* C07
VerifyWrong(s, o) ==
  At("verification", {i \in OpsOf(s, {"verify"}) :
    LET d == ObsDangling(o.steps[i].schemas)
        r == o.steps[i].ret IN
    ~(IsArr(r) /\ IF d = {} THEN r.a = <<>> ELSE Len(r.a) = 1 /\ r.a[1].s \in d)})
  \cup At("verification changed the registry", {i \in OpsOf(s, {"verify"}) : o.steps[i].schemas # Before(o, i)})
  \cup At("registered schemas", {i \in OpsOf(s, {"add"}) : o.steps[i].schemas # RenderSchemas(SpecSteps(s)[i].cx)})

\* C06: mentioning what is known again gives the same reference and changes nothing
Repeats(s, o) ==
  At("mentioning again", {i \in OpsOf(s, {"mention"}) : \E k \in OpsOf(s, {"mention"}) :
     k < i /\ s.ops[k] = s.ops[i] /\ ~(o.steps[k].ret = o.steps[i].ret /\ Before(o, i) = o.steps[i].schemas)})
  \cup At("a reserved name is left", {i \in OpsOf(s, {"mention", "get"}) : \E n \in DOMAIN o.steps[i].schemas : IsStub(o.steps[i].schemas[n])})

(***************************************************************************)
(* Observed documents                                                      *)
(***************************************************************************)
SetOf(j) == IF IsArr(j) /\ Cardinality(SeqRange(j.a)) = Len(j.a) THEN [set |-> SeqRange(j.a)] ELSE j
On(j, k, F(_)) == IF Has(j, k) THEN JO([j.o EXCEPT ![k] = F(@)]) ELSE j
EachKey(j, F(_)) == IF IsObj(j) THEN JO([k \in Keys(j) |-> F(Get(j, k))]) ELSE j
RECURSIVE ObsOp(_), ObsItem(_), ObsPaths(_)
ObsPaths(j) == EachKey(j, ObsItem)
ObsItem(j) == LET it == On(j, "parameters", SetOf) IN
              IF IsObj(it) THEN JO([k \in Keys(it) |-> IF k \in Methods THEN ObsOp(Get(it, k)) ELSE Get(it, k)]) ELSE it
ObsOp(j) == LET Cbs(x) == EachKey(x, ObsPaths) IN On(On(j, "parameters", SetOf), "callbacks", Cbs)
ObsDoc(j) == On(On(j, "tags", SetOf), "paths", ObsPaths)

\* lists of required properties are sets
RECURSIVE NormDoc(_)
NormDoc(j) ==
  IF "set" \in DOMAIN j THEN [set |-> {NormDoc(x) : x \in j.set}]
  ELSE IF IsObj(j) THEN JO([k \in Keys(j) |-> IF k = "required" /\ IsArr(Get(j, k)) THEN AsSet(Get(j, k)) ELSE NormDoc(Get(j, k))])
  ELSE IF IsArr(j) THEN JA([i \in 1..Len(j.a) |-> NormDoc(j.a[i])])
  ELSE j

DocOrders(d) == IF Len(d.paths) = 0 THEN {} ELSE {x \in Orders(d.paths, "") : Len(x.keys) > 0}
Misprinted(d, o) ==
  LET e == RenderDoc(d)
      j == ObsDoc(o.doc)
      part(k) == IF Has(e, k) /\ Has(j, k) THEN Get(e, k) = Get(j, k) ELSE Has(e, k) = Has(j, k)
  IN {"member " \o k : k \in {x \in Keys(e) \cup Keys(j) : ~part(x)}}
     \cup (IF SeqRange(o.orders) = DocOrders(d) THEN {} ELSE {"order of paths"})
     \cup (IF o.dup THEN {"a member occurs twice"} ELSE {})
     \cup (IF o.yaml THEN {} ELSE {"YAML differs from JSON"})

ScriptReasons(prop, s, o) ==
  IF "doc" \in DOMAIN s THEN (IF prop = "C15" THEN Misprinted(s.doc, o) ELSE {})
  ELSE
  CASE prop = "C04" -> DanglingSteps(s, o)
    [] prop = "C05" -> Replaced(s, o) \cup Diverges(s, o, {"mention", "get", "add", "contains"})
    [] prop = "C06" -> Repeats(s, o) \cup Diverges(s, o, {"mention"})
    [] prop = "C07" -> VerifyWrong(s, o)
    [] prop = "C08" -> Diverges(s, o, {"apply", "mention", "get"})
    [] prop = "C10" -> Diverges(s, o, {"nullable", "mention", "get"})
    [] prop = "C13" -> Diverges(s, o, {"scheme"})
    [] prop = "C14" -> Diverges(s, o, {"merge", "objmerge", "addprop"})
    [] OTHER -> {}

\* The properties on the specification: its own steps taken for the observation
VerifyRet(cx) == LET d == Dangling(cx) IN JA(IF d = {} THEN <<>> ELSE <<JS(CHOOSE n \in d : TRUE)>>)
SpecScriptObs(s) ==
  LET e == SpecSteps(s) IN
  [steps |-> [i \in 1..Len(e) |->
     [ret |-> IF s.ops[i].op = "verify" THEN VerifyRet(e[i].cx) ELSE e[i].ret,
      schemas |-> RenderSchemas(e[i].cx), sec |-> [n \in DOMAIN e[i].sec |-> RenderScheme(e[i].sec[n])], model |-> RenderModel(e[i].m)]]]
SpecScriptReasons(prop, s) == IF "doc" \in DOMAIN s THEN {} ELSE ScriptReasons(prop, s, SpecScriptObs(s))

=============================================================================
