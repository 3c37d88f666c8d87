----------------------------- MODULE OpgRegistry -----------------------------
(***************************************************************************)
(* How the registry describes types, one step at a time: a machine with    *)
(* control, stack and registry runs a history of operations over a graph   *)
(* of structures that mention each other, directly or through wrappers,    *)
(* plainly or inlined.  TLC goes through every graph and history of the    *)
(* universe at hand and checks what holds in every state in between,       *)
(* that every description ends, and that the outcome is the one of the     *)
(* recursive operators of OpgTypes.  Each history is printed, for the      *)
(* implementation to run.                                                  *)
(***************************************************************************)
EXTENDS OpgCases, OpgProps, Json, IOUtils

Universe == IOEnv.UNIVERSE

(***************************************************************************)
(* Graphs and histories                                                    *)
(***************************************************************************)
NodeName(i) == <<"N0", "N1", "N2", "N3">>[i]
Nodes(k) == {Decl(NodeName(i)) : i \in 1..k}
REdge(name, ty, inl, p) == [Fld(name, ty) EXCEPT !.inline = inl, !.desc = p]
Wrapped(x, ws) == {CASE w = "" -> x [] w = "Option" -> OptOf(x) [] w = "Vec" -> VecOf(x) [] w = "Box" -> BoxOf(x) [] w = "HashMap" -> MapOf(x)
                     [] w = "Tuple" -> TupleOf(<<x>>) [] w = "OptionBox" -> OptOf(BoxOf(x)) [] w = "VecOption" -> VecOf(OptOf(x))
                     [] w = "BoxVec" -> BoxOf(VecOf(x)) : w \in ws}
\* (the wrappers named by the universe)
Edges(name, k, ws, ps) == {REdge(name, ty, i, p) : ty \in UNION {Wrapped(x, ws) : x \in Nodes(k)}, i \in BOOLEAN, p \in ps}

FieldSeqs(k, ws1, ws2, ps) ==
  {<<>>} \cup {<<e>> : e \in Edges("a", k, ws1, ps)}
  \cup (IF ws2 = {} THEN {} ELSE {<<e, f>> : e \in Edges("a", k, ws2, ps), f \in Edges("b", k, ws2, ps)})

\* What a node's description expands in place: no such cycle has a finite description
ExpandedBy(E, f) ==
  LET RECURSIVE Ex(_, _)
      Ex(T, inl) == CASE T.t = "decl" -> IF inl \/ E[T.n].c.inline THEN {T.n} ELSE {}
                      [] T.t \in {"Box", "Option"} -> Ex(T.a[1], inl)
                      [] T.t \in {"Vec", "HashMap", "Tuple"} -> Ex(T.a[1], FALSE)
                      [] OTHER -> {}
  IN Ex(f.ty, f.inline)
Expands(E, n) == UNION {ExpandedBy(E, E[n].fields[i]) : i \in 1..Len(E[n].fields)}
RECURSIVE ExpandsTo(_, _)
ExpandsTo(E, S) == LET N == S \cup UNION {Expands(E, n) : n \in S} IN IF N = S THEN S ELSE ExpandsTo(E, N)
Finite(E) == \A n \in DOMAIN E : n \notin ExpandsTo(E, Expands(E, n))

RGraph(k, fs, inl) == [i \in 1..k |-> [Struct(NodeName(i), fs[i]) EXCEPT !.c.inline = i \in inl]]
Graphs ==
  CASE Universe = "small" ->     \* two nodes, at most two plain or optional edges each
         {RGraph(2, <<a, b>>, il) : a \in FieldSeqs(2, {"", "Option", "Vec", "HashMap", "OptionBox"}, {"", "Option"}, {None}),
                                   b \in FieldSeqs(2, {"", "Option", "Vec", "Tuple"}, {}, {None}), il \in {{}, {2}}}
    [] Universe = "overrides" -> \* overrides on the way
         {RGraph(2, <<a, b>>, il) : a \in FieldSeqs(2, {"", "Option", "Vec", "Box"}, {}, {None, Some("here")}),
                                   b \in FieldSeqs(2, {"", "Option", "Box", "VecOption"}, {}, {None, Some("there")}), il \in {{}, {1}, {2}}}
    [] Universe = "three" ->     \* cycles through three nodes
         {RGraph(3, <<a, b, c>>, il) : a \in FieldSeqs(3, {"", "Option", "Vec"}, {}, {None}), b \in FieldSeqs(3, {"", "Option"}, {}, {None}),
                                      c \in FieldSeqs(3, {"", "Option", "BoxVec"}, {}, {None}), il \in {{}, {2}}}
    [] Universe = "large" ->
         {RGraph(2, <<a, b>>, il) : a \in FieldSeqs(2, {"", "Option", "Vec", "HashMap", "Box"}, {"", "Option", "Vec"}, {None}),
                                   b \in FieldSeqs(2, {"", "Option", "Vec", "Tuple"}, {"", "Option"}, {None}), il \in {{}, {2}}}
    [] Universe = "four" ->
         {RGraph(4, <<a, b, c, d>>, il) : a \in FieldSeqs(4, {"", "Vec"}, {}, {None}), b \in FieldSeqs(4, {"", "Option"}, {}, {None}),
                                         c \in FieldSeqs(4, {"Option"}, {}, {None}), d \in FieldSeqs(4, {""}, {}, {None}), il \in {{}, {3}}}

OpMention(ty, inl, d) == [op |-> "mention", ty |-> ty, inline |-> inl, p |-> [NoParams EXCEPT !.d = d]]
OpAdd(n, m) == [op |-> "add", name |-> n, m |-> m]
OpVerify == [op |-> "verify"]
OpContains(n) == [op |-> "contains", name |-> n]
Foreign(n) == Model(Some("put by hand"), Single(FALSE, TObject("to" :> Link(n), None, <<>>)))
N0 == Decl("N0")
N1 == Decl("N1")
Histories ==
  LET base == {<<OpMention(N0, FALSE, None), OpVerify, OpMention(N1, FALSE, Some("again")), OpMention(N0, FALSE, None), OpVerify>>,
               <<OpMention(OptOf(N1), TRUE, None), OpMention(VecOf(N0), FALSE, None), OpVerify>>}
      full == base
              \cup {<<OpContains("N1"), OpMention(BoxOf(N0), TRUE, Some("box")), OpContains("N1"), OpAdd("N1", Foreign("N0")), OpVerify, OpMention(N0, FALSE, None), OpVerify>>,
                    <<OpAdd("N1", Foreign("Missing")), OpMention(N0, FALSE, None), OpVerify, OpAdd("Missing", Foreign("N1")), OpAdd("N0", Foreign("N0")), OpVerify>>}
  IN IF Universe \in {"small", "large"} THEN base ELSE full

(***************************************************************************)
(* The machine                                                             *)
(***************************************************************************)
VARIABLES decls, hist, at, ctl, stack, cx, log
vars == <<decls, hist, at, ctl, stack, cx, log>>

E == EnvOf(decls)
Idle == [k |-> "idle"]
Now(k, T, inl, p) == [k |-> k, T |-> T, inl |-> inl, p |-> p]
AskRef(T, inl, p) == Now("mention", T, inl, p)
AskModel(T) == Now("schema", T, FALSE, NoParams)
GotRef(r) == [k |-> "ref", r |-> r]
GotModel(m) == [k |-> "model", m |-> m]

Init == /\ \E g \in Graphs : Finite(EnvOf(g)) /\ decls = g
        /\ hist \in Histories
        /\ at = 1 /\ ctl = Idle /\ stack = <<>> /\ cx = EmptyCx /\ log = <<>>

Push(f) == stack' = <<f>> \o stack
Pop == stack' = Tail(stack)
Top == stack[1]
Same == UNCHANGED <<decls, hist>>

Begin == /\ ctl = Idle /\ at <= Len(hist) /\ Same /\ UNCHANGED stack
         /\ LET op == hist[at] IN
            CASE op.op = "mention" -> ctl' = AskRef(op.ty, op.inline, op.p) /\ UNCHANGED <<cx, log, at>>
              [] op.op = "add" -> /\ cx' = IF op.name \in DOMAIN cx THEN cx ELSE (op.name :> op.m) @@ cx
                                  /\ log' = Append(log, None) /\ at' = at + 1 /\ UNCHANGED ctl
              [] OTHER -> log' = Append(log, None) /\ at' = at + 1 /\ UNCHANGED <<cx, ctl>>

\* A mention: the nullable form of what is inside, that of what a pointer points to, a link (described on first sight), or the description in place
Select == /\ ctl.k = "mention" /\ Same /\ UNCHANGED <<at, log>>
          /\ IF ctl.T.t = "Option"
             THEN Push([k |-> "optional", p |-> ctl.p]) /\ ctl' = AskRef(ctl.T.a[1], ctl.inl, NoParams) /\ UNCHANGED cx
             ELSE IF ctl.T.t \in Pointers THEN ctl' = AskRef(ctl.T.a[1], ctl.inl, ctl.p) /\ UNCHANGED <<stack, cx>>
             ELSE LET name == TName(E, ctl.T) IN
                  IF ~ctl.inl /\ IsSome(name)
                  THEN IF The(name) \in DOMAIN cx
                       THEN ctl' = GotRef(Link(The(name))) /\ UNCHANGED <<stack, cx>>
                       ELSE /\ cx' = (The(name) :> Stub) @@ cx
                            /\ Push([k |-> "store", n |-> The(name)]) /\ ctl' = AskModel(ctl.T)
                  ELSE Push([k |-> "apply", p |-> ctl.p]) /\ ctl' = AskModel(ctl.T) /\ UNCHANGED cx

Describe ==
  /\ ctl.k = "schema" /\ Same /\ UNCHANGED <<at, log, cx>>
  /\ LET T == ctl.T IN
     CASE T.t \in Pointers -> ctl' = AskModel(T.a[1]) /\ UNCHANGED stack
       [] T.t \in {"Option"} \cup Lists \cup Maps \cup {"Tuple"} ->
            Push([k |-> CASE T.t = "Option" -> "optmodel" [] T.t \in Maps -> "map" [] OTHER -> "array"]) /\ ctl' = AskRef(T.a[1], FALSE, NoParams)
       [] T.t = "decl" ->
            LET fs == E[T.n].fields IN
            IF fs = <<>> THEN ctl' = GotModel(Model(None, Single(FALSE, TObject(EmptyFn, None, <<>>)))) /\ UNCHANGED stack
            ELSE Push([k |-> "fields", n |-> T.n, i |-> 1, refs |-> <<>>]) /\ ctl' = AskRef(fs[1].ty, fs[1].inline, FieldParams(fs[1]))
       [] OTHER -> ctl' = GotModel(PrimModel(T.t)) /\ UNCHANGED stack

WithRef ==
  /\ ctl.k = "ref" /\ stack # <<>> /\ Same /\ UNCHANGED <<at, log, cx>>
  /\ CASE Top.k = "optional" -> Pop /\ ctl' = GotRef(Inline(ApplyParams(IntoNullable(ctl.r), Top.p)))
       [] Top.k = "optmodel" -> Pop /\ ctl' = GotModel(IntoNullable(ctl.r))
       [] Top.k = "array" -> Pop /\ ctl' = GotModel(Sgl(TArray(ctl.r)))
       [] Top.k = "map" -> Pop /\ ctl' = GotModel(Sgl(TObject(EmptyFn, Some(ctl.r), <<>>)))
       [] Top.k = "fields" ->
            LET fs == E[Top.n].fields
                refs == Append(Top.refs, ctl.r)
            IN IF Top.i = Len(fs)
               THEN /\ Pop
                    /\ ctl' = GotModel(Model(E[Top.n].c.desc, Single(FALSE, TObject(
                                [x \in {fs[j].name : j \in 1..Len(fs)} |-> refs[CHOOSE j \in 1..Len(fs) : fs[j].name = x]], None,
                                [j \in 1..Len(fs) |-> fs[j].name]))))
               ELSE /\ stack' = <<[Top EXCEPT !.i = @ + 1, !.refs = refs]>> \o Tail(stack)
                    /\ ctl' = AskRef(fs[Top.i + 1].ty, fs[Top.i + 1].inline, FieldParams(fs[Top.i + 1]))

WithModel ==
  /\ ctl.k = "model" /\ Same /\ UNCHANGED <<at, log>> /\ Pop
  /\ CASE Top.k = "store" -> cx' = (Top.n :> ctl.m) @@ cx /\ ctl' = GotRef(Link(Top.n))
       [] Top.k = "apply" -> ctl' = GotRef(Inline(ApplyParams(ctl.m, Top.p))) /\ UNCHANGED cx

Return == /\ ctl.k = "ref" /\ stack = <<>> /\ Same /\ UNCHANGED <<stack, cx>>
          /\ log' = Append(log, Some(ctl.r)) /\ at' = at + 1 /\ ctl' = Idle

Over == ctl = Idle /\ at > Len(hist)
Script == [decls |-> decls,
           graph |-> [i \in 1..Len(decls) |->
             [inline |-> decls[i].c.inline, desc |-> decls[i].c.desc,
              fields |-> [j \in 1..Len(decls[i].fields) |->
                LET f == decls[i].fields[j] IN [name |-> f.name, ty |-> f.ty, inline |-> f.inline, optional |-> FALSE, p |-> FieldParams(f)]]]],
           model |-> Stub, ops |-> hist]
Report == Over /\ at = Len(hist) + 1 /\ PrintT("CASE " \o ToJson(Script)) /\ at' = at + 1 /\ UNCHANGED <<decls, hist, ctl, stack, cx, log>>

Next == Begin \/ Select \/ Describe \/ WithRef \/ WithModel \/ Return \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* What holds in every state                                               *)
(***************************************************************************)
IsReserved(n) == cx[n] = Stub
ByHand == {hist[i].name : i \in {j \in 1..Len(hist) : hist[j].op = "add"}}
InStore == {stack[i].n : i \in {j \in 1..Len(stack) : stack[j].k = "store"}}

\* names are reserved exactly as long as their description is under way, each once
Reserved == /\ {n \in DOMAIN cx : IsReserved(n)} = InStore
            /\ Cardinality(InStore) = Cardinality({j \in 1..Len(stack) : stack[j].k = "store"})
\* a described type links to registered names only
Settled == \A n \in DOMAIN cx \ ByHand : ~IsReserved(n) => ModelLinks(cx[n]) \subseteq DOMAIN cx
\* between operations nothing is reserved and nothing but what was put by hand dangles
Quiet == ctl = Idle => InStore = {} /\ Dangling(cx) \subseteq {"Missing"} \cup {n \in {"N0", "N1"} : n \notin DOMAIN cx /\ ByHand # {}}
\* descriptions do not nest deeper than the graph allows
Bounded == Len(stack) <= 12 * Len(decls)
\* what has been described stays as it is
NeverChanged == [][\A n \in DOMAIN cx : n \in DOMAIN cx' /\ (~IsReserved(n) => cx'[n] = cx[n])]_vars
\* always inlined types are never registered
InlinedUnregistered == \A n \in DOMAIN cx \ ByHand : ~E[n].c.inline
Ends_ == <>Over

\* The outcome is the one of the recursive description
RECURSIVE BigStep(_, _, _)
BigStep(ops, i, c) ==
  IF i > Len(ops) THEN [cx |-> c, log |-> <<>>]
  ELSE LET op == ops[i]
           m == IF op.op = "mention" THEN Mention(E, op.ty, c, op.inline, op.p) ELSE [cx |-> c, r |-> AnyRef]
           c2 == IF op.op = "add" /\ op.name \notin DOMAIN c THEN (op.name :> op.m) @@ c ELSE m.cx
           rest == BigStep(ops, i + 1, c2)
       IN [cx |-> rest.cx, log |-> <<IF op.op = "mention" THEN Some(m.r) ELSE None>> \o rest.log]
Agrees == Over => BigStep(hist, 1, EmptyCx) = [cx |-> cx, log |-> log]

=============================================================================
