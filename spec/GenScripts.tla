------------------------------ MODULE GenScripts -----------------------------
(***************************************************************************)
(* Systematic scripts (FAMILY), written as a JSON array to OUT.            *)
(***************************************************************************)
EXTENDS OpgScripts, OpgCases, Json, IOUtils, SequencesExt

Script(m, ops) == [decls |-> <<>>, graph |-> <<>>, model |-> m, ops |-> ops]

\* ---------------------------------------------------------------- models
StrM == Sgl(TString(None, None, None))
Obj(props, addl, req) == Sgl(TObject(props, addl, req))
TDs == {TString(v, f, e) : v \in {None, Some(<<"x", "y">>)}, f \in {None, Some("own format")}, e \in {None, Some("own example")}}
       \cup {TSimple(k, f, e) : k \in {"number", "integer"}, f \in {None, Some("own format")}, e \in {None, Some("own example")}}
       \cup {TBool, TArray(Link("X")), TArray(AnyRef), TObject(EmptyFn, None, <<>>),
             TObject("a" :> Inline(StrM), Some(Link("X")), <<"a">>)}
Singles == {Model(d, Single(n, td)) : d \in {None, Some("own description")}, n \in BOOLEAN, td \in TDs}
Multis == {Model(d, [k |-> k, refs |-> r]) : d \in {None, Some("own description")}, k \in Alternatives,
             r \in {<<>>, <<Link("X")>>, <<Inline(StrM), AnyRef>>}}
Models == Singles \cup Multis

Params == {[d |-> d, nullable |-> n, variants |-> v, format |-> f, example |-> e] :
             d \in {None, Some("given description")}, n \in {None, Some(TRUE), Some(FALSE)}, v \in {None, Some(<<"v">>)},
             f \in {None, Some("given format")}, e \in {None, Some("given example")}}
ApplyScripts == {Script(m, <<[op |-> "apply", p |-> p]>>) : m \in Models, p \in Params}

\* ------------------------------------------------------------- extending
Refs1 == {Link("X"), Inline(StrM), AnyRef}
PropFns == {EmptyFn} \cup {"a" :> r : r \in Refs1} \cup {("a" :> Link("X")) @@ ("b" :> r) : r \in Refs1} \cup {"b" :> Inline(Obj("a" :> AnyRef, None, <<"a">>))}
           \cup {("a" :> AnyRef) @@ ("b" :> AnyRef) @@ ("c" :> Link("Y"))} \cup {"c" :> AnyRef}
ReqOf(f) == {<<>>} \cup {<<n>> : n \in DOMAIN f} \cup {SetToSeq(DOMAIN f)} \cup (IF "a" \in DOMAIN f THEN {<<"a", "a">>} ELSE {<<"ghost">>})
ObjTDs == UNION {{TObject(f, ad, r) : ad \in {None, Some(Link("Z")), Some(AnyRef)}, r \in ReqOf(f)} : f \in PropFns}
OtherTDs == UNION {{TObject(f, ad, r) : ad \in {None, Some(AnyRef)}, r \in ReqOf(f)} : f \in PropFns}
NonObjects == {StrM, Sgl(TBool), Sgl(TArray(Link("X"))), Model(None, OneOf(<<Inline(Obj("q" :> AnyRef, None, <<>>))>>)),
               Model(Some("d"), [k |-> "allOf", refs |-> <<Link("X")>>]), Sgl(TSimple("integer", None, None))}
Holders == {Model(d, Single(n, td)) : d \in {None, Some("own")}, n \in BOOLEAN, td \in {TObject("a" :> AnyRef, None, <<"a">>), TObject(EmptyFn, Some(AnyRef), <<>>)}}
MergeScripts ==
  {Script(Sgl(td), <<[op |-> "merge", m |-> Sgl(o)]>>) : td \in ObjTDs, o \in OtherTDs}
  \cup {Script(Sgl(td), <<[op |-> "objmerge", td |-> o]>>) : td \in ObjTDs, o \in OtherTDs}
  \cup {Script(a, <<[op |-> "merge", m |-> b]>>) : a \in NonObjects \cup Holders, b \in NonObjects \cup Holders}
  \cup {Script(Sgl(td), <<[op |-> "addprop", name |-> n, ref |-> r, req |-> q]>>) : td \in ObjTDs, n \in {"a", "b", "ghost", "new"}, r \in Refs1, q \in BOOLEAN}
  \cup {Script(Sgl(TObject(EmptyFn, None, <<>>)), <<[op |-> "addprop", name |-> n1, ref |-> AnyRef, req |-> q],
                [op |-> o2, name |-> n2, ref |-> Link("X"), req |-> q, td |-> TObject((n2 :> AnyRef) @@ ("z" :> AnyRef), None, <<"z">>)],
                [op |-> "merge", m |-> Obj((n3 :> Inline(StrM)) @@ ("w" :> AnyRef), None, <<n3, "w">>)],
                [op |-> "addprop", name |-> "w", ref |-> AnyRef, req |-> TRUE]>>) :
          n1 \in {"a", "b"}, n2 \in {"a", "b"}, n3 \in {"a", "b", "c"}, q \in BOOLEAN, o2 \in {"addprop", "objmerge"}}

\* names that are nearly the same are different names
NearScripts ==
  {Script(Sgl(TObject(n1 :> AnyRef, None, r)), <<[op |-> "addprop", name |-> n2, ref |-> Link("X"), req |-> q], [op |-> "merge", m |-> Obj(n3 :> Inline(StrM), None, <<n3>>)]>>) :
     n1 \in {"a", ""}, r \in {<<>>, <<"a">>}, n2 \in {"a", "A", " a", ""}, n3 \in {"a", "A", "a ", "", "aa"}, q \in BOOLEAN}

\* ---------------------------------------------------- nullable, security
NullableScripts == {Script(Stub, <<[op |-> "nullable", ref |-> r]>>) : r \in {Inline(m) : m \in Models} \cup {Link("X"), AnyRef}}
Schemes == {[k |-> "basic", d |-> d] : d \in {None, Some("who")}}
           \cup {[k |-> "bearer", format |-> f, d |-> d] : f \in {None, Some("JWT")}, d \in {None, Some("who")}}
           \cup {[k |-> "apiKey", loc |-> l, name |-> "X-Key", d |-> d] : l \in {"header", "query", "cookie"}, d \in {None, Some("who")}}
SchemeScripts == {Script(Stub, <<[op |-> "scheme", name |-> n1, scheme |-> a], [op |-> "scheme", name |-> n2, scheme |-> b], [op |-> "scheme", name |-> n1, scheme |-> b]>>) :
                    n1 \in {"one"}, n2 \in {"one", "two", "One"}, a \in Schemes, b \in Schemes}

\* ---------------------------------------------------------- verification
\* a link in every place a schema can have one
Around(r) ==
  {Obj(("p" :> r) @@ ("q" :> AnyRef), None, <<>>), Obj(("o" :> Link("A")) @@ ("p" :> r), Some(Link("B")), <<"p">>), Obj(EmptyFn, Some(r), <<>>),
   Obj("p" :> Inline(StrM), Some(r), <<>>), Sgl(TArray(r)),
   Model(None, OneOf(<<r>>)), Model(None, OneOf(<<Link("A"), AnyRef, r>>)), Model(Some("d"), [k |-> "allOf", refs |-> <<Inline(StrM), r>>]),
   Model(None, [k |-> "anyOf", refs |-> <<r, Link("B")>>])}
Places1(n) == Around(Link(n))
Places2(n) == UNION {Around(Inline(m)) : m \in Places1(n)}
Places3(n) == UNION {Around(Inline(m)) : m \in Places2(n)}
Add(n, m) == [op |-> "add", name |-> n, m |-> m]
V == [op |-> "verify"]
\* names that are nearly a registered one
NearNames == {"a", "AA", "", " A", "A ", "b", "A/B", "c", "Ä", "A1"}
\* A is what is looked at; B is there; C sometimes; nothing else
VerifyScript(m, m2) == Script(Stub, <<V, Add("B", m2), V, Add("A", m), V, Add("C", StrM), V>>)
VerifyScripts ==
  {VerifyScript(m, StrM) : m \in UNION {Places1(n) \cup Places2(n) : n \in {"A", "B", "C", "Nowhere"}}}
  \cup {VerifyScript(m, StrM) : m \in Places3("C")}
  \cup {VerifyScript(m, m2) : m \in Places1("C") \cup Places1("Nowhere"), m2 \in Places1("A") \cup Places1("C") \cup Places2("Else")}
  \cup {VerifyScript(m, StrM) : m \in UNION {Places1(n) : n \in NearNames \cup {"#/components/schemas/A"}}}
  \cup {Script(Stub, <<Add("A", m), V, Add(n, StrM), V>>) : m \in UNION {Places1(n) : n \in NearNames}, n \in NearNames}
  \cup {Script(Stub, <<Add("A", m), Add("A", StrM), V, Add("C", Obj("x" :> Link("A"), None, <<>>)), V>>) : m \in Places1("C") \cup Places2("Gone")}

\* ------------------------------------------------------- deep and wide
Wrap6(i, r) == CASE i % 6 = 0 -> Obj(("p" :> r) @@ ("q" :> AnyRef), None, <<"p">>) [] i % 6 = 1 -> Sgl(TArray(r)) [] i % 6 = 2 -> Model(None, OneOf(<<Inline(StrM), r>>))
                 [] i % 6 = 3 -> Obj("q" :> Inline(StrM), Some(r), <<>>) [] i % 6 = 4 -> Model(Some("d"), [k |-> "allOf", refs |-> <<r, AnyRef>>])
                 [] OTHER -> Model(None, [k |-> "anyOf", refs |-> <<Link("B"), r>>])
RECURSIVE Deep(_, _, _)
Deep(n, step, r) == Wrap6(n * step, IF n = 1 THEN r ELSE Inline(Deep(n - 1, step, r)))
Depths == {4, 5, 7, 8, 9, 12, 16, 17, 24, 33}
Nm(i) == "n" \o ToString(i)
\* the link stands at place k of n, everything else is there
WideRefs(n, k, l) == [i \in 1..n |-> IF i = k THEN Link(l) ELSE <<Link("B"), AnyRef, Inline(StrM), Inline(Sgl(TArray(Link("B"))))>>[(i % 4) + 1]]
WideProps(n, k, l) == LET w == WideRefs(n, k, l) IN [s \in {Nm(i) : i \in 1..n} |-> w[CHOOSE i \in 1..n : Nm(i) = s]]
Wide(n, k, l) == {Obj(WideProps(n, k, l), None, <<>>), Model(None, OneOf(WideRefs(n, k, l))), Model(None, [k |-> "allOf", refs |-> WideRefs(n, k, l)]), Model(None, [k |-> "anyOf", refs |-> WideRefs(n, k, l)])}
Wides == {<<5, 5>>, <<9, 1>>, <<9, 4>>, <<9, 9>>, <<17, 16>>, <<33, 33>>, <<33, 2>>, <<33, 20>>}
ManyAdds(n, k, l) == [i \in 1..n |-> Add(Nm(i), IF i = k THEN Sgl(TArray(Link(l))) ELSE Obj("x" :> Link(Nm((i % n) + 1)), None, <<>>))]
\* what is registered by hand is there under its own name only, once and for all
Asks(n) == [op |-> "contains", name |-> n]
OtherNames == NearNames \cup {"A", "\t", "A\n", "\"A\"", "#/components/schemas/A", "A<B>", "a::A", "&A", "r#A", "A,B", "A.", "ss", "SS"}
NamesScripts ==
  {Script(Stub, <<Asks(a), Add(a, StrM), Asks(a), Asks(b), Add(b, Sgl(TArray(Link(a)))), Asks(b), Asks(c), Add(a, Obj("x" :> Link(b), None, <<>>)), Add(b, StrM), Asks(a)>>) :
     a \in OtherNames, b \in OtherNames, c \in {"A", "a"}}
  \cup {Script(Stub, ManyAdds(n, n + 1, "") \o <<Asks(Nm(k)), Asks(Nm(n + 1)), Add(Nm(k), StrM), Asks(Nm(k))>>) : n \in {2, 9, 40}, k \in {1, 2, 8}}

BigVerify ==
  {VerifyScript(Deep(n, s, Link(l)), StrM) : n \in Depths, s \in {1, 2, 3, 5, 6}, l \in {"C", "B"}}
  \cup UNION {{VerifyScript(m, StrM) : m \in Wide(w[1], w[2], l) \cup UNION {Around(Inline(m)) : m \in Wide(w[1], w[2], l)}} : w \in Wides, l \in {"C", "A"}}
  \cup {Script(Stub, ManyAdds(n, k, l) \o <<V, Add("C", StrM), V>>) : n \in {5, 12, 25}, k \in {1, 2, 5, 12, 25}, l \in {"C", "n1"}}
ManyProps(S, r) == [s \in {Nm(i) : i \in S} |-> r]
ManyNames(S) == LET q == SetToSeq(S) IN [i \in 1..Len(q) |-> Nm(q[i])]
BigMerge ==
  {Script(Obj(ManyProps(a, Link("X")), None, ManyNames(a \ {2, 9})), <<[op |-> o, m |-> Obj(ManyProps(b, AnyRef), None, ManyNames(b \ {21})), td |-> TObject(ManyProps(b, AnyRef), None, ManyNames(b \ {21}))]>>) :
     o \in {"merge", "objmerge"}, a \in {1..8, 1..20, {1, 30}, {}}, b \in {9..16, 21..40, 20..24, {30}, 31..33, {}, 8..9}}
  \cup {Script(Obj(ManyProps(1..20, Link("X")), None, ManyNames(1..20)), <<[op |-> "addprop", name |-> Nm(i), ref |-> AnyRef, req |-> q]>>) : i \in {1, 10, 20, 21, 2}, q \in BOOLEAN}
BigApply == {Script(m, <<[op |-> "apply", p |-> p]>>) :
               m \in {Deep(n, s, Inline(StrM)) : n \in {2, 3, 4, 6, 12}, s \in {1, 5, 6}} \cup UNION {Wide(9, k, "X") : k \in {1, 9}},
               p \in {[d |-> d, nullable |-> n, variants |-> v, format |-> f, example |-> e] : d \in {None, Some("given")}, n \in {None, Some(TRUE)}, v \in {None, Some(<<"v">>)}, f \in {None, Some("f")}, e \in {None, Some("e")}}}

\* ------------------------------------------------------------- documents
Weird == "q\"uote \\ / {brace} 'a': - # % & \t tab"
Para(d, loc, r, dep, s) == [d |-> d, loc |-> loc, required |-> r, deprecated |-> dep, schema |-> s]
Paras == {Para(d, l, r, x, s) : d \in {None, Some("about")}, l \in {"query", "header", "path", "cookie"}, r \in BOOLEAN, x \in BOOLEAN,
            s \in {None, Some(Link("X")), Some(Inline(StrM))}}
Bodies == {[d |-> d, required |-> r, schema |-> s] : d \in {None, Some(""), Some("body")}, r \in BOOLEAN, s \in {Link("X"), AnyRef, Inline(StrM)}}
Resps == {[d |-> d, schema |-> s] : d \in {"", "fine"}, s \in {None, Some(Link("X")), Some(AnyRef), Some(Inline(Sgl(TArray(Link("X")))))}}
Seg(v) == [k |-> "path", v |-> v]
Par(v) == [k |-> "param", v |-> v]
Entry(p, it) == [path |-> p, item |-> it]
DocOf(it) == [EmptyDoc EXCEPT !.paths = <<Entry(<<Seg("a"), Par("id"), Seg("b")>>, it)>>]
WithOp(m, o) == DocOf([EmptyItem EXCEPT !.ops = m :> o])
CbItem == [EmptyItem EXCEPT !.d = Some("called back"), !.ops = "post" :> [EmptyOp EXCEPT !.responses = "204" :> [d |-> "ok", schema |-> None]]]
Pick(b, x, y) == IF b THEN x ELSE y
OpBy(b) == [tags |-> Pick(b[1], <<"zoo", "alpha">>, <<>>), summary |-> Pick(b[2], Some("sum"), None), opid |-> Pick(b[3], Some("theOp"), None),
            d |-> Pick(b[4], Some(Weird), None), deprecated |-> b[5],
            security |-> Pick(b[6], <<("z" :> <<>>) @@ ("k" :> <<"r1", "r0">>), "k" :> <<"r">>>>, <<>>),
            body |-> Pick(b[7], Some([d |-> Some("b"), required |-> TRUE, schema |-> Link("X")]), None),
            responses |-> Pick(b[8], ("404" :> [d |-> "no", schema |-> None]) @@ ("200" :> [d |-> "yes", schema |-> Some(Link("X"))]), EmptyFn),
            params |-> Pick(b[9], ("zz" :> Para(None, "query", FALSE, FALSE, Some(Link("X")))) @@ ("aa" :> Para(Some("p"), "header", TRUE, TRUE, None)), EmptyFn),
            callbacks |-> Pick(b[10], "onIt" :> <<Entry(<<Seg("z"), Par("p")>>, CbItem), Entry(<<Seg("c")>>, CbItem)>>, EmptyFn)]
Bits(n) == [1..n -> BOOLEAN]
ItemBy(b) == [summary |-> Pick(b[1], Some("s"), None), d |-> Pick(b[2], Some(""), None),
              ops |-> Pick(b[3], [m \in Methods |-> [EmptyOp EXCEPT !.summary = Some(m)]], EmptyFn),
              params |-> Pick(b[4], ("id" :> Para(None, "path", TRUE, FALSE, Some(Inline(StrM)))) @@ ("b" :> Para(None, "query", FALSE, FALSE, None)), EmptyFn)]
DocBy(b) == [info |-> [title |-> Pick(b[1], "Title", ""), d |-> Pick(b[2], Some("Info text"), None), version |-> Pick(b[1], "1.0", "")],
             tags |-> Pick(b[3], ("beta" :> None) @@ ("alpha" :> Some("first")) @@ ("gamma" :> Some("")), EmptyFn),
             servers |-> Pick(b[4], <<[url |-> "https://z", d |-> None], [url |-> "https://a", d |-> Some("second")]>>, <<>>),
             paths |-> Pick(b[5], <<Entry(<<Seg("z")>>, EmptyItem), Entry(<<Seg("b"), Par("id")>>, CbItem), Entry(<<Seg("a"), Seg("b")>>, EmptyItem), Entry(<<>>, EmptyItem), Entry(<<Par("only")>>, CbItem)>>, <<>>),
             schemas |-> Pick(b[6], ("X" :> StrM) @@ ("A_B" :> Obj("x" :> Link("X"), None, <<"x">>)), EmptyFn),
             sec |-> Pick(b[7], ("tok" :> [k |-> "bearer", format |-> None, d |-> None]) @@ ("bas" :> [k |-> "basic", d |-> Some("b")]), EmptyFn)]
DocScripts ==
  {[doc |-> d] : d \in
     {DocBy(b) : b \in Bits(7)}
     \cup {DocOf(ItemBy(b)) : b \in Bits(4)}
     \cup {WithOp("get", OpBy(b)) : b \in Bits(10)}
     \cup {WithOp(m, OpBy([i \in 1..10 |-> i # 7])) : m \in Methods}
     \cup {WithOp("post", [EmptyOp EXCEPT !.params = "p" :> p]) : p \in Paras}
     \cup {DocOf([EmptyItem EXCEPT !.params = "p" :> p]) : p \in Paras}
     \cup {WithOp("put", [EmptyOp EXCEPT !.body = Some(b)]) : b \in Bodies}
     \cup {WithOp("put", [EmptyOp EXCEPT !.responses = c :> r]) : r \in Resps, c \in {"200", "418", "599", "100"}}
     \cup {[EmptyDoc EXCEPT !.sec = n :> s] : s \in Schemes \cup {[k |-> "apiKey", loc |-> "path", name |-> "", d |-> None]}, n \in {"s", "Weird name"}}
     \cup {[EmptyDoc EXCEPT !.schemas = "X" :> m] : m \in Models \cup Places2("X")}
     \cup {[EmptyDoc EXCEPT !.schemas = "X" :> m] : m \in UNION {Around(Inline(x)) : x \in Models}}
     \cup {[EmptyDoc EXCEPT !.schemas = n :> Obj(n :> Link(n), None, <<n>>), !.info.title = n] : n \in {"", "a b", "$ref", "type", "properties", Weird, "A::B<C>"}}
     \cup {[EmptyDoc EXCEPT !.schemas = "X" :> Sgl(TString(Some(v), Some(Weird), Some(Weird)))] : v \in {<<>>, <<"b", "a", "b">>, <<"">>, <<Weird>>}}
     \cup {[EmptyDoc EXCEPT !.schemas = "X" :> Deep(n, s, Link("X"))] : n \in Depths, s \in {1, 2, 3, 5, 6}}
     \cup {[EmptyDoc EXCEPT !.schemas = "X" :> m] : m \in UNION {Wide(w[1], w[2], "X") : w \in Wides}}
     \cup {[EmptyDoc EXCEPT !.schemas = ManyProps(1..n, Sgl(TArray(Link("n1")))), !.tags = [s \in {Nm(i) : i \in 1..n} |-> IF s = "n2" THEN None ELSE Some(s)],
              !.sec = [s \in {Nm(i) : i \in 1..n} |-> [k |-> "bearer", format |-> Some(s), d |-> None]],
              !.servers = [i \in 1..n |-> [url |-> Nm(i), d |-> None]],
              !.paths = [i \in 1..n |-> Entry(<<Seg("s" \o Nm(i))>> \o [k \in 1..(i % 12) |-> IF (i + k) % 2 = 0 THEN Seg(Nm(n - i)) ELSE Par(Nm(k))],
                         [EmptyItem EXCEPT !.params = [s \in {Nm(k) : k \in 1..i} |-> Para(Some(s), "query", FALSE, TRUE, None)],
                            !.ops = "get" :> [EmptyOp EXCEPT !.tags = [k \in 1..i |-> Nm(n - k)], !.security = [k \in 1..i |-> Nm(k) :> <<Nm(k)>>],
                               !.responses = [c \in {ToString(200 + k) : k \in 1..i} |-> [d |-> c, schema |-> None]],
                               !.callbacks = [s \in {Nm(k) : k \in 1..(i % 5)} |-> <<Entry(<<Seg(s)>>, CbItem), Entry(<<Par("a"), Seg(s)>>, CbItem)>>]]])]] : n \in {5, 12, 30}}
     \cup {[EmptyDoc EXCEPT !.schemas = "X" :> Obj(("b" :> AnyRef) @@ ("a" :> AnyRef), None, r)] : r \in {<<"b", "a">>, <<"a", "b">>, <<"a", "a">>, <<"zz">>}}}

Scripts(f) ==
  CASE f = "apply" -> ApplyScripts \cup BigApply [] f = "merge" -> MergeScripts \cup NearScripts \cup BigMerge [] f = "nullable" -> NullableScripts
    [] f = "scheme" -> SchemeScripts [] f = "verify" -> VerifyScripts \cup BigVerify [] f = "doc" -> DocScripts [] f = "names" -> NamesScripts

All == SetToSeq(Scripts(IOEnv.FAMILY))
ASSUME JsonSerialize(IOEnv.OUT, All)
ASSUME PrintT(<<IOEnv.FAMILY, Len(All)>>)
=============================================================================
