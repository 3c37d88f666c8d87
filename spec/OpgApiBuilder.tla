---------------------------- MODULE OpgApiBuilder ----------------------------
(***************************************************************************)
(* An API description read clause by clause, as the macro does it, and the *)
(* document that grows with it.  Nested lists are kept on a stack: each    *)
(* frame has what was read of it and what it stands for so far.            *)
(*                                                                         *)
(*   frame == [f: "doc", sections, doc]                                    *)
(*          | [f: "paths", n, ps, es]     (n: the callback's name, or "")  *)
(*          | [f: "item", segs, ms, path, item]                            *)
(*          | [f: "op", method, ms, op]                                    *)
(*          | [f: "cbs", cs, cbs]                                          *)
(*                                                                         *)
(* Every behaviour ends in a description, which is printed for the         *)
(* implementation to read.                                                 *)
(***************************************************************************)
EXTENDS OpgApiCases, Json, IOUtils, Randomization

VARIABLES stack, g, die, done
vars == <<stack, g, die, done>>
E == EnvOf(ApiDecls)

Top == stack[Len(stack)]
Below == stack[Len(stack) - 1]
Depth == Cardinality({i \in 1..Len(stack) : stack[i].f = "cbs"})
\* Simulation draws among a few of the choices only, or listing them would take most of the time
Few(S) == RandomSubset(IF Cardinality(S) < 3 THEN Cardinality(S) ELSE 3, S)
Throw == \E a \in RandomSubset(2, 0..9) : die' = <<a, RandomElement(0..9), RandomElement(0..9)>>   \* what, of which types, with what extras
Replace(x) == stack' = [stack EXCEPT ![Len(stack)] = x]
Push(x) == stack' = Append(stack, x)
PopInto(x) == stack' = [SubSeq(stack, 1, Len(stack) - 1) EXCEPT ![Len(stack) - 1] = x]
TypesNow == IF die[2] < 5 THEN SeqRange(Plain) ELSE SeqRange(Wrapped)
Perhaps(x) == IF die[3] < 5 THEN {None} ELSE {None, Some(x)}

Init == stack = <<[f |-> "doc", sections |-> <<>>, doc |-> EmptyDoc]>> /\ g = G0 /\ die = <<0, 0, 0>> /\ done = FALSE

(***************************************************************************)
(* Sections                                                                *)
(***************************************************************************)
Have == {Top.sections[i].s : i \in 1..Len(Top.sections)}
InfoChoices == {InfoS(ms) : ms \in {<<Text("title", "T")>>, <<Text("version", "2"), Text("title", "x")>>, <<Text("description", "about"), Text("version", "0.1")>>}}
TagChoices == {[s |-> "tags", ts |-> ts] : ts \in {<<[n |-> "zoo", d |-> None]>>, <<[n |-> "b", d |-> Some("bb")], [n |-> "a", d |-> None]>>}}
ServerChoices == {[s |-> "servers", us |-> us] : us \in {<<[url |-> "https://x", d |-> None]>>, <<[url |-> "u2", d |-> Some("two")], [url |-> "u1", d |-> None], [url |-> "u2", d |-> None]>>}}
SchemeChoices == {SchemesS(FixedSchemes), SchemesS(FixedSchemes \o <<VarS("apiToken")>>), SchemesS(<<VarS("bearer"), DeclS("x", [k |-> "bearer", format |-> Some("f"), d |-> Some("d")])>> \o FixedSchemes)}
Section == /\ ~done /\ Top.f = "doc"
           /\ \E s \in Few({x \in InfoChoices \cup TagChoices \cup ServerChoices \cup SchemeChoices : x.s \notin Have}) :
                /\ LET d == SectionOf(E, ApiVars, s, [Top.doc EXCEPT !.sec = g.sec]) IN
                   /\ Replace([Top EXCEPT !.sections = Append(@, s), !.doc = d])
                   /\ g' = [g EXCEPT !.sec = d.sec]
           /\ Throw /\ UNCHANGED done
OpenPaths == /\ ~done /\ Top.f = "doc" /\ "paths" \notin Have
             /\ Push([f |-> "paths", n |-> "", ps |-> <<>>, es |-> <<>>]) /\ Throw /\ UNCHANGED <<g, done>>

(***************************************************************************)
(* Paths                                                                   *)
(***************************************************************************)
MaxPaths == IF Depth = 0 THEN 4 ELSE 2
\* paths of one list have different texts: the first segment is numbered
First == SegLit("s" \o ToString(Len(Top.ps)) \o Top.n)
NamedSegs(k) == {SegNamed(n, ty) : n \in {"id" \o ToString(k)}, ty \in TypesNow} \cup {SegType(ty) : ty \in SeqRange(Plain)} \cup {SegLit("lit")}
OpenItem == /\ ~done /\ Top.f = "paths" /\ Len(Top.ps) < MaxPaths
            /\ \E segs \in Few({<<>>} \cup {<<a>> : a \in NamedSegs(1)} \cup (IF die[2] > 3 THEN {<<a, b>> : a \in NamedSegs(1), b \in {SegNamed("other", Decl("Inner")), SegLit("end"), SegLit(""), SegNamed("last", Str)}} ELSE {})) :
                 LET x == SegsOf(E, <<First>> \o segs, g, <<>>, EmptyFn) IN
                 /\ Push([f |-> "item", segs |-> <<First>> \o segs, ms |-> <<>>, path |-> x.path, item |-> [EmptyItem EXCEPT !.params = x.params]])
                 /\ g' = x.g
            /\ Throw /\ UNCHANGED done

Taken(ps) == DOMAIN ps
ParamChoices(taken) ==
  {[Para(k, n, ty) EXCEPT !.block = ~(d = None /\ r = None /\ dep = None), !.d = d, !.required = r, !.deprecated = dep] :
     k \in {"header", "query"}, n \in {"p1", "p_two", "pThree"} \ taken, ty \in TypesNow, d \in Perhaps("about"), r \in {None} \cup {Some(b) : b \in BOOLEAN}, dep \in Perhaps(TRUE)}
ItemText == /\ ~done /\ Top.f = "item" /\ Len(Top.ms) < 5
            /\ \E k \in {"summary", "description"} :
                 LET c == Text(k, k \o " of " \o PathText(Top.path))
                     x == ItemOf(E, ApiVars, <<c>>, Top.item, g) IN
                 /\ \A i \in 1..Len(Top.ms) : Top.ms[i].k # k
                 /\ Replace([Top EXCEPT !.ms = Append(@, c), !.item = x.item])
            /\ Throw /\ UNCHANGED <<g, done>>
ItemParams == /\ ~done /\ Top.f = "item" /\ Len(Top.ms) < 5
              /\ \E p \in Few(ParamChoices(Taken(Top.item.params))) :
                   LET c == Params(<<p>>)
                       x == ItemOf(E, ApiVars, <<c>>, Top.item, g) IN
                   Replace([Top EXCEPT !.ms = Append(@, c), !.item = x.item]) /\ g' = x.g
              /\ Throw /\ UNCHANGED done
OpenOp == /\ ~done /\ Top.f = "item" /\ Len(Top.ms) < 5
          /\ \E m \in Few({x \in SeqRange(MethodNames) : Lower(x) \notin DOMAIN Top.item.ops}) :
               /\ Push([f |-> "op", method |-> m, ms |-> <<>>, op |-> EmptyOp])
          /\ Throw /\ UNCHANGED <<g, done>>

(***************************************************************************)
(* Operations                                                              *)
(***************************************************************************)
Once == {"summary", "operationId", "description", "deprecated", "body"}
ReqChoices == {Req(n, FALSE, r) : n \in DOMAIN ApiVars, r \in {None, Some(<<"r1", "r2">>)}}
              \cup {Req(n, TRUE, None) : n \in {x \in {"declared", "key one", "bearer", "apiToken"} : x \in DOMAIN g.sec}}
OpChoices ==
  LET texts == {Text(k, k \o " " \o Top.method) : k \in {"summary", "operationId", "description"}}
      others == {[k |-> "deprecated", v |-> b] : b \in BOOLEAN} \cup {[k |-> "tags", ts |-> ts] : ts \in {<<"zoo">>, <<"b", "a">>}}
      params == {Params(<<p>>) : p \in ParamChoices(Taken(Top.op.params))}
      bodies == {Body(ty, d # None \/ r # None, d, r) : ty \in TypesNow, d \in Perhaps("the body"), r \in Perhaps(FALSE)}
      resps == {Resp(code, d, w, ty) : code \in {"200", "404", "299"} \ DOMAIN Top.op.responses, d \in Perhaps("own words"), w \in {"type", "none", "unit"}, ty \in TypesNow}
      secs == {Security(<<<<a>>>>) : a \in ReqChoices} \cup {Security(<<<<a, b>>>>) : a \in ReqChoices, b \in {x \in ReqChoices : x.n = "inQuery"}}
              \cup {Security(<<<<a>>, <<b>>>>) : a \in ReqChoices, b \in ReqChoices}
  IN CASE die[1] \in 0..2 -> texts [] die[1] = 3 -> others [] die[1] \in 4..5 -> params [] die[1] = 6 -> bodies [] die[1] \in 7..8 -> resps [] OTHER -> secs
OpStep == /\ ~done /\ Top.f = "op" /\ Len(Top.ms) < 6
          /\ \E c \in Few(OpChoices) :
               /\ c.k \in Once => \A i \in 1..Len(Top.ms) : Top.ms[i].k # c.k
               /\ c.k = "security" => \A i \in 1..Len(c.alts) : \A a, b \in 1..Len(c.alts[i]) : a # b => c.alts[i][a].n # c.alts[i][b].n
               /\ LET x == OpClause(E, ApiVars, c, Top.op, g) IN Replace([Top EXCEPT !.ms = Append(@, c), !.op = x.op]) /\ g' = x.g
          /\ Throw /\ UNCHANGED done
OpenCallbacks == /\ ~done /\ Top.f = "op" /\ Depth < 2 /\ die[1] > 5 /\ Len(Top.ms) < 6 /\ Top.op.callbacks = EmptyFn
                 /\ Push([f |-> "cbs", cs |-> <<>>, cbs |-> EmptyFn]) /\ Throw /\ UNCHANGED <<g, done>>
OpenCallback == /\ ~done /\ Top.f = "cbs" /\ Len(Top.cs) < 2
                /\ \E n \in {"event", "my event", "onData"} \ DOMAIN Top.cbs : Push([f |-> "paths", n |-> n, ps |-> <<>>, es |-> <<>>])
                /\ Throw /\ UNCHANGED <<g, done>>

(***************************************************************************)
(* The end of a list                                                       *)
(***************************************************************************)
Close ==
  /\ ~done /\ Len(stack) > 1 /\ die[1] \notin {2, 5}
  /\ CASE Top.f = "op" -> PopInto([Below EXCEPT !.ms = Append(@, OpM(Top.method, Top.ms)), !.item.ops = Put(@, Lower(Top.method), Top.op)])
       [] Top.f = "item" -> PopInto([Below EXCEPT !.ps = Append(@, PathD(Top.segs, Top.ms)), !.es = Append(@, [path |-> Top.path, item |-> Top.item])])
       [] Top.f = "cbs" -> PopInto([Below EXCEPT !.ms = Append(@, Callbacks(Top.cs)), !.op.callbacks = Top.cbs])
       [] Top.f = "paths" /\ Below.f = "cbs" -> PopInto([Below EXCEPT !.cs = Append(@, [n |-> Top.n, ps |-> Top.ps]), !.cbs = Put(@, Top.n, Top.es)])
       [] Top.f = "paths" /\ Below.f = "doc" -> Len(Top.ps) > 1 /\ PopInto([Below EXCEPT !.sections = Append(@, PathsS(Top.ps)), !.doc.paths = Top.es])
  /\ Throw /\ UNCHANGED <<g, done>>

Program == Prog(stack[1].sections)
Document == [stack[1].doc EXCEPT !.schemas = g.cx, !.sec = g.sec]
End == /\ ~done /\ Len(stack) = 1 /\ "paths" \in Have
       /\ done' = TRUE /\ PrintT("CASE " \o ToJson(Program)) /\ UNCHANGED <<stack, g, die>>

Next == Section \/ OpenPaths \/ OpenItem \/ ItemText \/ ItemParams \/ OpenOp \/ OpStep \/ OpenCallbacks \/ OpenCallback \/ Close \/ End
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Invariants                                                              *)
(***************************************************************************)
\* reading clause by clause gives the document the description stands for
Agrees == done => Document = Describe(Program)
\* at every moment: nothing dangles, what was read so far refers to registered schemas and schemes only
OpenEntries == UNION {IF stack[i].f = "paths" THEN Entries(stack[i].es)
                      ELSE IF stack[i].f = "item" THEN Entries(<<[path |-> stack[i].path, item |-> stack[i].item]>>)
                      ELSE IF stack[i].f = "op" THEN Entries(<<[path |-> <<>>, item |-> [EmptyItem EXCEPT !.ops = "get" :> stack[i].op]]>>)
                      ELSE {} : i \in 1..Len(stack)}
RefsResolve == Dangling(g.cx) = {} /\ \A e \in OpenEntries : RefsOfEntry(e) \subseteq DOMAIN g.cx
SchemesKnown == \A e \in OpenEntries : \A m \in DOMAIN e.item.ops : \A i \in 1..Len(e.item.ops[m].security) : DOMAIN e.item.ops[m].security[i] \subseteq DOMAIN g.sec
TemplatesMatch == \A e \in OpenEntries : {n \in DOMAIN e.item.params : e.item.params[n].loc = "path"} = Braces(e.path)
DocumentGood == done => Corresponds(Document) /\ RequiresKnown(Document) /\ Resolved(Document)
\* what is read never changes what was read before: at every depth a finished path, operation or callback stays
Stays ==
  [][\A i \in 1..(IF Len(stack) < Len(stack') THEN Len(stack) ELSE Len(stack')) :
       stack[i].f = stack'[i].f =>
         CASE stack[i].f = "paths" -> \A k \in 1..Len(stack[i].es) : stack'[i].es[k] = stack[i].es[k]
           [] stack[i].f = "item" -> /\ \A m \in DOMAIN stack[i].item.ops : stack'[i].item.ops[m] = stack[i].item.ops[m]
                                     /\ \A n \in DOMAIN stack[i].item.params : stack'[i].item.params[n] = stack[i].item.params[n]
           [] stack[i].f = "op" -> /\ \A c \in DOMAIN stack[i].op.responses : stack'[i].op.responses[c] = stack[i].op.responses[c]
                                   /\ \A n \in DOMAIN stack[i].op.params : stack'[i].op.params[n] = stack[i].op.params[n]
                                   /\ \A k \in 1..Len(stack[i].op.security) : stack'[i].op.security[k] = stack[i].op.security[k]
           [] OTHER -> TRUE]_stack
Registered == [][(\A n \in DOMAIN g.cx : g'.cx[n] = g.cx[n]) /\ DOMAIN g.sec \subseteq DOMAIN g'.sec]_g
=============================================================================
