----------------------------- MODULE OpgApiCases -----------------------------
(***************************************************************************)
(* API descriptions over one set of declared types: constructors and the   *)
(* systematic families.                                                    *)
(***************************************************************************)
EXTENDS OpgApi, OpgCases, SequencesExt

ApiDecls == <<
  Struct("Pet", <<Fld("id", Prim("u64")), Fld("petName", Str), Fld("owner", OptOf(BoxOf(Decl("Owner")))), Fld("kind", Decl("Kind"))>>),
  Struct("Owner", <<Fld("pets", VecOf(Decl("Pet"))), Fld("mail", OptOf(Str))>>),
  Enum("Kind", [NoAttrs EXCEPT !.rename_all = "snake_case"], <<UnitV("Cat"), UnitV("BigDog")>>),
  Enum("Shape", TagInternal, <<UnitV("Dot"), StrV("Box", <<Fld("side", I32)>>), NewV("Of", Decl("Owner"))>>),
  [Newtype("PetId", [Pos(Prim("i64")) EXCEPT !.desc = Some("number of a pet")]) EXCEPT !.c.inline = TRUE],
  Newtype("Token", [Pos(Str) EXCEPT !.format = Some("tok")]),
  [Struct("Inner", <<Fld("shape", Decl("Shape")), Fld("tok", Decl("Token"))>>) EXCEPT !.c.inline = TRUE],
  Newtype("HTTPCode", Pos(Prim("u16"))), Newtype("ID", Pos(Prim("u32"))), Newtype("X", Pos(Str)), Newtype("Été", Pos(Prim("u16"))),
  Struct("lower_case", <<Fld("x", Decl("X"))>>), Newtype("_Under", Pos(Prim("i8")))>>
ApiVars == ("basic_auth" :> [k |-> "basic", d |-> Some("a basic one")]) @@ ("bearer" :> [k |-> "bearer", format |-> Some("JWT"), d |-> None])
        @@ ("apiToken" :> [k |-> "apiKey", loc |-> "header", name |-> "X-Token", d |-> None])
        @@ ("inQuery" :> [k |-> "apiKey", loc |-> "query", name |-> "q", d |-> Some("in the query")])
Prog(sections) == [decls |-> ApiDecls, vars |-> ApiVars, sections |-> sections]

\* Types that can be written as a path, and those that name a segment
Plain == <<Str, Decl("Pet"), Decl("PetId"), Prim("u32"), Decl("Kind"), Decl("Token"), Prim("Uuid"), Decl("Inner"), Decl("Owner"), Prim("bool"), Decl("Shape"),
           Decl("HTTPCode"), Decl("ID"), Decl("X"), Decl("Été"), Decl("lower_case"), Decl("_Under")>>
Wrapped == <<VecOf(Decl("Pet")), OptOf(Decl("Owner")), BoxOf(Decl("Shape")), MapOf(Decl("Kind")), VecOf(OptOf(Decl("Inner"))), OptOf(Prim("u8")),
             VecOf(Decl("PetId")), MapOf(VecOf(Decl("Token"))), OptOf(BoxOf(Decl("Pet"))), Ty("Arc", <<Decl("Token")>>)>>
Types == Plain \o Wrapped
Nth(s, i) == s[(i % Len(s)) + 1]

Para(k, n, ty) == [k |-> k, n |-> n, ty |-> ty, block |-> FALSE, d |-> None, required |-> None, deprecated |-> None, schema |-> None]
SegLit(v) == [k |-> "lit", v |-> v]
SegNamed(n, ty) == [k |-> "named", n |-> n, ty |-> ty]
SegType(ty) == [k |-> "type", ty |-> ty]
OpM(m, ms) == [k |-> "op", method |-> m, ms |-> ms]
PathD(segs, ms) == [segs |-> segs, ms |-> ms]
PathsS(ps) == [s |-> "paths", ps |-> ps]
Resp(code, d, what, ty) == [k |-> "response", code |-> code, d |-> d, what |-> what, ty |-> ty]
Body(ty, block, d, r) == [k |-> "body", ty |-> ty, block |-> block, d |-> d, required |-> r]
Text(k, v) == [k |-> k, v |-> v]
Params(ps) == [k |-> "parameters", ps |-> ps]
Req(n, lit, roles) == [n |-> n, lit |-> lit, roles |-> roles]
Security(alts) == [k |-> "security", alts |-> alts]
Callbacks(cs) == [k |-> "callbacks", cs |-> cs]
InfoS(ms) == [s |-> "info", ms |-> ms]
SchemesS(ds) == [s |-> "security_schemes", ds |-> ds]
MethodNames == <<"GET", "PUT", "POST", "DELETE", "OPTIONS", "HEAD", "PATCH", "TRACE">>

\* a sequence cut into pieces of n
Chunks(s, n) == [i \in 1..((Len(s) + n - 1) \div n) |-> SubSeq(s, (i - 1) * n + 1, IF i * n > Len(s) THEN Len(s) ELSE i * n)]
\* operations laid out over paths /p<i>/..., eight methods each
OpsOnPaths(ops) ==
  LET cs == Chunks(ops, 8) IN
  PathsS([i \in 1..Len(cs) |-> PathD(<<SegLit("p" \o ToString(i))>>, [k \in 1..Len(cs[i]) |-> OpM(MethodNames[((i + k) % 8) + 1], cs[i][k])])])
OpProgs(ops, n) == LET cs == Chunks(ops, n) IN [i \in 1..Len(cs) |-> Prog(<<OpsOnPaths(cs[i])>>)]

(***************************************************************************)
(* path templates                                                          *)
(***************************************************************************)
SegKinds(n) == [1..n -> {"lit", "named", "type"}]
SegBy(kind, i, salt) ==
  CASE kind = "lit" -> SegLit(Nth(<<"pets", "v1", "by-id", "a_b", "x.y">>, i + salt))
    [] kind = "named" -> SegNamed(Nth(<<"id", "ownerId", "snake_name", "r", "Upper">>, i), Nth(Types, i * 3 + salt))
    [] OTHER -> SegType(Nth(Plain, i * 5 + salt))
DistinctNames(segs) == \A i, k \in 1..Len(segs) : (i < k /\ segs[i].k # "lit" /\ segs[k].k # "lit") => SegName(segs[i]) # SegName(segs[k])
SegSeqs == SetToSeq({s \in UNION {{[i \in 1..n |-> SegBy(f[i], i, n + salt)] : f \in SegKinds(n)} : n \in 1..4, salt \in {0}} : DistinctNames(s)})
          \o SetToSeq({s \in UNION {{[i \in 1..n |-> SegBy(f[i], i, salt)] : f \in SegKinds(n)} : n \in 1..2, salt \in 1..17} : DistinctNames(s)})
\* several paths in one document must have different texts: number them
Numbered(ss) == [i \in 1..Len(ss) |-> PathD(<<SegLit("n" \o ToString(i))>> \o ss[i], IF i % 3 = 0 THEN <<OpM("GET", <<Resp("200", None, "none", Str)>>)>> ELSE <<>>)]
Bare(ss) == LET IsNew(i) == \A k \in 1..(i - 1) : [x \in 1..Len(ss[k]) |-> SegName(ss[k][x])] # [x \in 1..Len(ss[i]) |-> SegName(ss[i][x])]
                keep == SelectSeq([i \in 1..Len(ss) |-> i], IsNew)
            IN [i \in 1..Len(keep) |-> PathD(ss[keep[i]], <<>>)]
PathProgs == LET cs == Chunks(SegSeqs, 12) IN
             [i \in 1..Len(cs) |-> Prog(<<PathsS(IF i % 2 = 0 THEN Numbered(cs[i]) ELSE Bare(cs[i]))>>)]

\* unusual literals at every place of a path: nothing is trimmed, merged or escaped
OddLits == <<"", ".", "..", " ", "a b", "~", "$ref", "%2F", "a:b", "*", "é", "x?y=z", "#">>
OddPaths(t) ==
  <<PathD(<<SegLit(t)>>, <<>>), PathD(<<SegLit("one"), SegLit(t)>>, <<Text("summary", "last")>>), PathD(<<SegLit(t), SegLit("two")>>, <<>>),
    PathD(<<SegLit("three"), SegLit(t), SegLit("end")>>, <<>>), PathD(<<SegNamed("id", Str), SegLit(t)>>, <<OpM("GET", <<Resp("200", None, "none", Str)>>)>>),
    PathD(<<SegLit(t), SegType(Decl("PetId"))>>, <<>>), PathD(<<SegLit(t), SegLit(t)>>, <<>>), PathD(<<SegLit("four"), SegLit(t), SegLit(t)>>, <<>>),
    PathD(<<SegLit("five"), SegLit(t), SegNamed("id", Decl("Pet")), SegLit(t)>>, <<>>)>>
OddPathProgs == [i \in 1..Len(OddLits) |-> Prog(<<PathsS(OddPaths(OddLits[i]))>>)]

(***************************************************************************)
(* parameters                                                              *)
(***************************************************************************)
ParamSet(k) == {[Para(k, "", Str) EXCEPT !.block = TRUE, !.d = d, !.required = r, !.deprecated = x, !.schema = s] :
                  d \in {None, Some("about it")}, r \in {None, Some(TRUE), Some(FALSE)}, x \in {None, Some(TRUE), Some(FALSE)}, s \in {None, Some(Decl("Kind"))}}
AllParams == SetToSeq(ParamSet("header")) \o SetToSeq(ParamSet("query")) \o [i \in 1..Len(Types) |-> Para("query", "", Types[i])]
             \o [i \in 1..Len(Types) |-> [Para("header", "", Str) EXCEPT !.block = TRUE, !.schema = Some(Types[i])]] \o <<Para("header", "", Str)>>
NamePool == <<"alpha", "beta_two", "gammaThree", "Delta", "x_y">>
HeaderPool == <<"X-Alpha", "Authorization", "x-lower-case", "Accept", "If-Match">>
Christened(ps) == [i \in 1..Len(ps) |-> [ps[i] EXCEPT !.n = (IF ps[i].k = "query" THEN NamePool ELSE HeaderPool)[i], !.ty = IF ps[i].k = "query" /\ ps[i].ty = Str THEN Nth(Types, i) ELSE @]]
ParamGroups == LET cs == Chunks(AllParams, 3) IN [i \in 1..Len(cs) |-> Christened(cs[i])]
ParamOps == [i \in 1..Len(ParamGroups) |-> IF i % 4 = 0 THEN [k \in 1..Len(ParamGroups[i]) |-> Params(<<ParamGroups[i][k]>>)] ELSE <<Params(ParamGroups[i])>>]
ParamItems == [i \in 1..Len(ParamGroups) |->
   PathD(<<SegLit("i" \o ToString(i)), SegNamed("id", Nth(Types, i))>>,
         (IF i % 2 = 0 THEN <<OpM("GET", <<Params(<<Para("query", "own", Str)>>)>>)>> ELSE <<>>) \o <<Params(ParamGroups[i])>>
         \o (IF i % 3 = 0 THEN <<OpM("PUT", <<Params(<<Para("query", "id", Str), Para("header", "beta_two", Str)>>)>>)>> ELSE <<>>))]
ParamProgs == OpProgs(ParamOps, 16) \o (LET cs == Chunks(ParamItems, 10) IN [i \in 1..Len(cs) |-> Prog(<<PathsS(cs[i])>>)])

(***************************************************************************)
(* operations: every clause next to every other, in both orders            *)
(***************************************************************************)
Clauses == <<Text("summary", "A summary"), Text("operationId", "theOp"), Text("description", "What it does"),
             [k |-> "deprecated", v |-> TRUE], [k |-> "deprecated", v |-> FALSE], [k |-> "tags", ts |-> <<"zoo", "animals">>], [k |-> "tags", ts |-> <<>>],
             Params(<<Para("header", "X-H", Str), Para("query", "q", Decl("Kind"))>>), Params(<<>>),
             Security(<<<<Req("bearer", FALSE, None)>>>>), Body(Decl("Pet"), FALSE, None, None), Body(Decl("Shape"), TRUE, Some("a body"), Some(FALSE)),
             Resp("200", None, "type", Decl("Owner")), Resp("404", Some("gone"), "none", Str),
             Callbacks(<<[n |-> "onEvent", ps |-> <<PathD(<<SegLit("hook"), SegNamed("id", Str)>>, <<OpM("POST", <<Resp("202", None, "none", Str), Text("summary", "called")>>)>>)>>]>>)>>
Pairs == [i \in 1..(Len(Clauses) * Len(Clauses)) |-> <<Clauses[((i - 1) \div Len(Clauses)) + 1], Clauses[((i - 1) % Len(Clauses)) + 1]>>]
GoodPairs == SelectSeq(Pairs, LAMBDA p : p[1].k # p[2].k \/ (p[1].k \in {"tags", "parameters", "response"} /\ p[1] # p[2]))
OpPairProgs == OpProgs(GoodPairs, 16)

\* ------------------------------------------------------------- responses
Codes == SetToSeq(DOMAIN Phrases) \o <<"299", "599", "420">>
RespSeq == [i \in 1..Len(Codes) |-> Resp(Codes[i], IF i % 3 = 0 THEN Some("own text " \o Codes[i]) ELSE None, Nth(<<"type", "none", "unit", "any">>, i), Nth(Types, i))]
           \o [i \in 1..Len(Types) |-> Resp(Nth(<<"200", "201", "500">>, i), IF i % 2 = 0 THEN Some("") ELSE None, "type", Types[i])]
RespOps == [i \in 1..Len(RespSeq) |-> IF RespSeq[i].code = Nth(RespSeq, i).code THEN <<RespSeq[i]>> ELSE <<Nth(RespSeq, i), RespSeq[i], Nth(Clauses, i)>>]
RespOk(o) == \A i, k \in 1..Len(o) : (i < k /\ o[i].k = "response" /\ o[k].k = "response") => o[i].code # o[k].code
BodySeq == [i \in 1..Len(Types) |-> Body(Types[i], FALSE, None, None)]
           \o SetToSeq({Body(Decl("Token"), TRUE, d, r) : d \in {None, Some("text"), Some("")}, r \in {None, Some(TRUE), Some(FALSE)}})
RespProgs == OpProgs(SelectSeq(RespOps, RespOk) \o [i \in 1..Len(BodySeq) |-> <<BodySeq[i]>>], 20)

(***************************************************************************)
(* security                                                                *)
(***************************************************************************)
Items == <<Req("bearer", FALSE, None), Req("apiToken", FALSE, Some(<<"read", "write">>)), Req("declared", TRUE, None), Req("basic_auth", FALSE, Some(<<>>)),
           Req("key one", TRUE, Some(<<"admin">>)), Req("inQuery", TRUE, Some(<<"b", "a", "b">>))>>
Conj(S) == SetToSeq({c \in S : \A i, k \in 1..Len(c) : i < k => c[i].n # c[k].n})
Conjs == Conj({<<Items[i]>> : i \in 1..6} \cup {<<Items[i], Items[k]>> : i, k \in 1..6}) \o Conj({<<Items[i], Items[(i % 6) + 1], Items[((i + 2) % 6) + 1]>> : i \in 1..6})
SecOps == [i \in 1..Len(Conjs) |-> CASE i % 3 = 0 -> <<Security(<<Conjs[i]>>)>>
                                     [] i % 3 = 1 -> <<Security(<<Conjs[i], Nth(Conjs, i * 7)>>)>>
                                     [] OTHER -> <<Security(<<Nth(Conjs, i * 5), Conjs[i], <<Nth(Items, i)>>>>), Text("summary", "s")>>]
           \o <<<<Security(<<>>)>>, <<Security(<<Conjs[1]>>), Security(<<Conjs[2], Conjs[3]>>)>>>>
DeclS(n, s) == [k |-> "decl", n |-> n, scheme |-> s]
VarS(n) == [k |-> "var", n |-> n]
FixedSchemes == <<DeclS("declared", [k |-> "basic", d |-> None]), VarS("inQuery"), DeclS("key one", [k |-> "apiKey", loc |-> "cookie", name |-> "sid", d |-> Some("a cookie")])>>
SchemeSet == SetToSeq({[k |-> "basic", d |-> d] : d \in {None, Some("who")}}
           \cup {[k |-> "bearer", format |-> f, d |-> d] : f \in {None, Some("JWT")}, d \in {None, Some("who")}}
           \cup {[k |-> "apiKey", loc |-> l, name |-> "X-" \o l, d |-> d] : l \in {"header", "query", "cookie"}, d \in {None, Some("who")}})
SchemeDecls(i) == FixedSchemes \o <<DeclS("extra1", Nth(SchemeSet, i)), DeclS("extra2", Nth(SchemeSet, i + 5))>> \o (IF i % 2 = 0 THEN <<VarS("bearer"), VarS("basic_auth")>> ELSE <<>>)
SecProgs == LET cs == Chunks(SecOps, 6) IN
  [i \in 1..Len(cs) |-> Prog(IF i % 2 = 0 THEN <<SchemesS(SchemeDecls(i)), OpsOnPaths(cs[i])>> ELSE <<OpsOnPaths(cs[i]), SchemesS(SchemeDecls(i))>>)]
  \o [i \in 1..12 |-> Prog(<<SchemesS(<<DeclS("only", Nth(SchemeSet, i))>> \o (IF i % 2 = 0 THEN <<VarS(Nth(<<"bearer", "apiToken", "inQuery">>, i))>> ELSE <<>>))>>)]

(***************************************************************************)
(* callbacks and sections                                                  *)
(***************************************************************************)
Ping(s) == OpM("POST", <<Text("summary", s), Body(Decl("Pet"), FALSE, None, None), Resp("200", None, "unit", Str), Security(<<<<Req("apiToken", FALSE, None)>>>>)>>)
CbPath(a, i) == PathD(<<SegLit(a), SegNamed("id" \o ToString(i), Nth(Types, i))>>, <<Text("description", a), Ping(a), Params(<<Para("header", "X-" \o a, Str)>>)>>)
CbPath2(a) == PathD(<<SegType(Decl("Kind")), SegLit(a)>>, <<OpM("GET", <<Callbacks(<<[n |-> "inner", ps |-> <<CbPath("deep" \o a, 2), CbPath("more" \o a, 4)>>]>>), Text("summary", "outer " \o a)>>)>>)
Outer(i, cs) == PathD(<<SegLit("o" \o ToString(i)), SegNamed("id", Str)>>, <<OpM("PUT", <<Text("operationId", "op" \o ToString(i)), Callbacks(cs), Resp("204", None, "none", Str)>>), OpM("GET", <<Text("summary", "other")>>)>>)
CbSets == <<<<>>, <<[n |-> "one", ps |-> <<>>]>>, <<[n |-> "one", ps |-> <<CbPath("z", 1), CbPath("a", 3)>>]>>, <<[n |-> "my event", ps |-> <<CbPath("b", 5)>>], [n |-> "second", ps |-> <<CbPath("c", 7), CbPath("b", 6)>>]>>,
            <<[n |-> "x", ps |-> <<CbPath2("x")>>]>>, <<[n |-> "x y", ps |-> <<CbPath2("q"), CbPath("r", 8)>>], [n |-> "a", ps |-> <<CbPath2("s")>>]>>>>
CallbackProgs == [i \in 1..Len(CbSets) |-> Prog(<<PathsS(<<Outer(1, CbSets[i]), Outer(2, Nth(CbSets, i)), PathD(<<SegLit("last")>>, <<>>)>>)>>)]

SectionPool == <<InfoS(<<Text("title", "T"), Text("version", "1.2")>>), [s |-> "tags", ts |-> <<[n |-> "zoo", d |-> None], [n |-> "animals", d |-> Some("beasts")]>>],
                 [s |-> "servers", us |-> <<[url |-> "https://z.example", d |-> Some("main")], [url |-> "http://a.example/v1", d |-> None]>>],
                 SchemesS(FixedSchemes), PathsS(<<PathD(<<SegLit("z"), SegType(Decl("PetId"))>>, <<Text("summary", "zz"), OpM("GET", <<Resp("200", None, "type", VecOf(Decl("Pet"))), Security(<<<<Req("bearer", FALSE, None)>>>>)>>)>>),
                                                   PathD(<<SegLit("a")>>, <<OpM("HEAD", <<>>), Text("description", "after")>>)>>)>>
SectionIx == <<<<1, 2, 3, 4, 5>>, <<5, 4, 3, 2, 1>>, <<2, 4, 5>>, <<3, 1>>, <<5, 1>>, <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<3, 5, 2, 4, 1>>, <<4, 1, 5, 3, 2>>>>
InfoSets == <<<<>>, <<Text("title", "only")>>, <<Text("version", "0")>>, <<Text("description", "d"), Text("title", "t")>>, <<Text("version", "1"), Text("description", ""), Text("title", "long title: 'x'")>>>>
SectionProgs == [i \in 1..Len(SectionIx) |-> Prog([k \in 1..Len(SectionIx[i]) |-> SectionPool[SectionIx[i][k]]])]
  \o [i \in 1..Len(InfoSets) |-> Prog(<<InfoS(InfoSets[i])>>)]
  \o <<Prog(<<PathsS(<<>>), [s |-> "tags", ts |-> <<>>], [s |-> "servers", us |-> <<>>], SchemesS(<<>>)>>),
       Prog(<<PathsS(SectionPool[5].ps), PathsS(<<PathD(<<SegLit("later")>>, <<OpM("GET", <<Body(Decl("Inner"), FALSE, None, None)>>)>>)>>),
              [s |-> "servers", us |-> <<[url |-> "u1", d |-> None]>>], [s |-> "servers", us |-> <<[url |-> "u0", d |-> None]>>], SchemesS(FixedSchemes)>>)>>

(***************************************************************************)
(* text: strings reach the document as they were written                  *)
(***************************************************************************)
InPath == Texts \ {"{brace}"}
TextProg(t) == Prog(<<
  InfoS(<<Text("title", t), Text("description", t), Text("version", t)>>), [s |-> "tags", ts |-> <<[n |-> "zoo", d |-> Some(t)]>>],
  [s |-> "servers", us |-> <<[url |-> t, d |-> Some(t)]>>],
  SchemesS(<<DeclS(t, [k |-> "bearer", format |-> Some(t), d |-> Some(t)]), DeclS("k" \o t, [k |-> "apiKey", loc |-> "query", name |-> t, d |-> Some(t)])>>),
  PathsS(<<PathD((IF t \in InPath THEN <<SegLit(t), SegNamed("id", Str), SegLit(t)>> ELSE <<SegLit("p")>>),
                 <<Text("summary", t), Text("description", t), Params(<<[Para("header", t, Str) EXCEPT !.d = Some(t), !.block = TRUE], [Para("query", "q", Str) EXCEPT !.d = Some(t), !.block = TRUE]>>),
                   OpM("GET", <<Text("summary", t), Text("operationId", t), Text("description", t), Params(<<[Para("header", t, Decl("Pet")) EXCEPT !.d = Some(t), !.block = TRUE]>>),
                                Body(Decl("Pet"), TRUE, Some(t), None), Resp("200", Some(t), "type", Str),
                                Security(<<<<Req(t, TRUE, Some(<<t>>)), Req("k" \o t, TRUE, Some(<<t, "x">>))>>>>),
                                Callbacks(<<[n |-> t, ps |-> <<PathD(<<SegLit("hook")>>, <<Text("summary", t)>>)>>]>>)>>)>>)>>)>>)
TextProgs == [i \in 1..Cardinality(Texts) |-> TextProg(SetToSeq(Texts)[i])]

(***************************************************************************)
(* large: many of everything                                               *)
(***************************************************************************)
No(i) == ToString(i)
LongPath(n, salt) == [i \in 1..n |-> IF (i + salt) % 3 = 0 THEN SegLit("s" \o No(i % 4)) ELSE SegNamed("n" \o No(i), Nth(Types, i + salt))]
ManyParams(n, salt) == [i \in 1..n |-> IF i % 2 = 0 THEN [Para("header", "X-" \o No((i * 7) % 100), Str) EXCEPT !.block = i % 4 = 0, !.required = IF i % 4 = 0 THEN Some(i % 8 = 0) ELSE None]
                                        ELSE Para("query", "q" \o No((i * 11) % 100), Nth(Types, i + salt))]
ManyResps(n, salt) == [i \in 1..n |-> Resp(Codes[i + salt], IF i % 4 = 0 THEN Some("own " \o No(i)) ELSE None, Nth(<<"type", "none", "unit", "any", "type">>, i), Nth(Types, i + salt))]
ManyAlts(n, salt) == [i \in 1..n |-> Nth(Conjs, i * 3 + salt)]
RECURSIVE DeepCb(_)
DeepCb(n) == <<[n |-> "level" \o No(n), ps |-> <<PathD(<<SegLit("d" \o No(n)), SegNamed("p" \o No(n), Nth(Types, n))>>,
                 <<OpM(Nth(MethodNames, n), <<Text("summary", "level " \o No(n)), Body(Nth(Types, n + 5), FALSE, None, None)>> \o (IF n = 0 THEN <<>> ELSE <<Callbacks(DeepCb(n - 1))>>))>>)>>]>>
LargeOp(i) == <<Params(ManyParams(7, i)), [k |-> "tags", ts |-> [j \in 1..15 |-> "tag" \o No((j * 5 + i) % 17)]], Security(ManyAlts(5, i)), Params([j \in 1..9 |-> ManyParams(16, i)[j + 7]])>>
              \o ManyResps(30, (i * 9) % 30) \o <<Callbacks([j \in 1..6 |-> [n |-> "cb" \o No((j * 5) % 7), ps |-> <<CbPath("c" \o No(j), j), CbPath("b" \o No(j), j + 1)>>]])>>
LargeProgs == <<
  Prog(<<SchemesS(FixedSchemes), PathsS(<<PathD(LongPath(14, 0), <<Params(ManyParams(20, 3)), OpM("GET", LargeOp(1)), OpM("PUT", LargeOp(2))>>)>>)>>),
  Prog(<<SchemesS(FixedSchemes), PathsS(<<PathD(LongPath(9, 1), [i \in 1..8 |-> OpM(Nth(MethodNames, i), LargeOp(i))])>>)>>),
  Prog(<<PathsS([i \in 1..40 |-> PathD(<<SegLit("x" \o No((i * 23) % 41)), SegNamed("id", Nth(Types, i))>>, <<OpM(Nth(MethodNames, i), <<Resp("200", None, "type", Nth(Types, i * 3)), Text("summary", No(i))>>), Text("description", No(i))>>)])>>),
  Prog(<<PathsS([i \in 1..12 |-> PathD(LongPath(i + 2, i), <<>>)]), PathsS([i \in 1..12 |-> PathD(<<SegLit("again" \o No(13 - i))>>, <<OpM("HEAD", <<Params(ManyParams(i, i))>>)>>)])>>),
  Prog(<<PathsS(<<PathD(<<SegLit("deep")>>, <<OpM("POST", <<Callbacks(DeepCb(6))>>)>>), PathD(<<SegLit("shallow")>>, <<OpM("POST", <<Callbacks(DeepCb(0))>>)>>)>>)>>),
  Prog(<<[s |-> "servers", us |-> [i \in 1..25 |-> [url |-> "u" \o No((i * 9) % 26), d |-> IF i % 2 = 0 THEN Some(No(i)) ELSE None]]],
         [s |-> "tags", ts |-> [i \in 1..25 |-> [n |-> "t" \o No((i * 9) % 26), d |-> IF i % 3 = 0 THEN Some(No(i)) ELSE None]]],
         SchemesS([i \in 1..20 |-> DeclS("s" \o No((i * 9) % 26), Nth(SchemeSet, i))]), PathsS(<<>>)>>)>>

\* names that are nearly the same are different names
NearHeads(ty) == Params(<<Para("header", "X-Id", Str), Para("header", "x-id", ty), Para("query", "X_ID", I32), Para("query", "x_id", Str), Para("header", "X-Id ", Str)>>)
NearProgs == <<
  Prog(<<[s |-> "tags", ts |-> <<[n |-> "zoo", d |-> Some("one")], [n |-> "Zoo", d |-> Some("two")], [n |-> "zoo_", d |-> None]>>],
         SchemesS(<<DeclS("key", [k |-> "basic", d |-> None]), DeclS("Key", [k |-> "bearer", format |-> None, d |-> None]), DeclS("key ", [k |-> "basic", d |-> Some("third")])>>),
         PathsS(<<PathD(<<SegLit("a"), SegNamed("id", Str), SegNamed("Id", I32), SegNamed("ID", Decl("Pet"))>>, <<NearHeads(Decl("Pet")), OpM("GET", <<NearHeads(Decl("Kind"))>>)>>),
                  PathD(<<SegLit("A"), SegNamed("id", I32)>>, <<Text("summary", "upper"), OpM("GET", <<Security(<<<<Req("key", TRUE, None), Req("Key", TRUE, Some(<<"r">>))>>, <<Req("key ", TRUE, None)>>>>)>>)>>),
                  PathD(<<SegLit("a "), SegNamed("id", Boolean)>>, <<OpM("POST", <<[k |-> "tags", ts |-> <<"zoo", "Zoo">>],
                     Callbacks(<<[n |-> "event", ps |-> <<PathD(<<SegLit("h")>>, <<Text("summary", "1")>>)>>], [n |-> "Event", ps |-> <<PathD(<<SegLit("h")>>, <<Text("summary", "2")>>), PathD(<<SegLit("H")>>, <<>>)>>]>>)>>)>>)>>)>>)>>

\* the same, between what is declared and what is declared by use, and between a path and its operations
NearSchemes == SchemesS(<<DeclS("Bearer", [k |-> "basic", d |-> None]), DeclS("BASIC_AUTH", [k |-> "bearer", format |-> None, d |-> Some("b")]), DeclS("apitoken", [k |-> "basic", d |-> None]),
                          DeclS("inquery", [k |-> "apiKey", loc |-> "header", name |-> "X-Q", d |-> None])>>)
NearUses == PathsS(<<PathD(<<SegLit("u")>>, <<OpM("GET", <<Security(<<<<Req("bearer", FALSE, None), Req("Bearer", TRUE, Some(<<"r">>))>>, <<Req("basic_auth", FALSE, None)>>>>)>>),
                                             OpM("PUT", <<Security(<<<<Req("apiToken", FALSE, Some(<<"w">>))>>, <<Req("inQuery", FALSE, None), Req("inquery", TRUE, None)>>>>)>>)>>)>>)
SharedNames(k1, k2) ==
  PathD(<<SegLit(k1 \o k2)>>, <<Params(<<[Para(k1, "shared", Decl("Pet")) EXCEPT !.block = TRUE, !.d = Some("of the path")], Para("query", "own", Str)>>),
        OpM("GET", <<Params(<<[Para(k2, "shared", Decl("Kind")) EXCEPT !.block = TRUE, !.required = Some(TRUE)]>>)>>),
        OpM("PUT", <<Params(<<Para("query", "other", Str)>>), Params(<<Para(k2, "shared", Str)>>)>>),
        OpM("POST", <<[k |-> "tags", ts |-> <<"b", "a">>], [k |-> "tags", ts |-> <<"zoo">>], [k |-> "tags", ts |-> <<"c", "zoo_2">>]>>), Params(<<Para("header", "late", Str)>>)>>)
SharedProgs == <<Prog(<<NearSchemes, NearUses>>), Prog(<<NearUses, NearSchemes>>),
                 Prog(<<PathsS(<<SharedNames("query", "query"), SharedNames("query", "header"), SharedNames("header", "query"), SharedNames("header", "header")>>)>>)>>

ApiProgs == NearProgs \o SharedProgs \o TextProgs \o OddPathProgs \o LargeProgs \o PathProgs \o ParamProgs \o OpPairProgs \o RespProgs \o SecProgs \o CallbackProgs \o SectionProgs
=============================================================================
