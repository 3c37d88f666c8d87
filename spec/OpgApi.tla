-------------------------------- MODULE OpgApi -------------------------------
(***************************************************************************)
(* API descriptions (the describe_api macro) and the document each of them *)
(* stands for.                                                             *)
(*                                                                         *)
(*   Prog == [decls, vars: name -> Scheme, sections: Seq(Section)]         *)
(*   Section == [s: "info", ms: Seq([k: "title"/"version"/"description",v])]*)
(*     | [s: "tags", ts: Seq([n, d: Opt])]                                 *)
(*     | [s: "servers", us: Seq([url, d: Opt])]                            *)
(*     | [s: "security_schemes", ds: Seq([k: "var", n]                     *)
(*                                    | [k: "decl", n, scheme: Scheme])]   *)
(*     | [s: "paths", ps: Seq(PathDecl)]                                   *)
(*   PathDecl == [segs: Seq([k: "lit", v] | [k: "named", n, ty]            *)
(*                        | [k: "type", ty]), ms: Seq(ItemClause)]         *)
(*   ItemClause == [k: "summary"/"description", v] | [k: "parameters", ps] *)
(*     | [k: "op", method, ms: Seq(OpClause)]                              *)
(*   ParamDecl == [k: "header"/"query", n, ty, block, d: Opt,              *)
(*                 required, deprecated: Opt(BOOLEAN), schema: Opt(Type)]  *)
(*   OpClause == [k: "summary"/"operationId"/"description", v]             *)
(*     | [k: "deprecated", v] | [k: "tags", ts] | [k: "parameters", ps]    *)
(*     | [k: "security", alts: Seq(Seq([n, lit, roles: Opt(Seq)]))]        *)
(*     | [k: "body", ty, block, d: Opt, required: Opt]                     *)
(*     | [k: "response", code, d: Opt, what: "none"/"unit"/"type"/"any", ty]*)
(*     | [k: "callbacks", cs: Seq([n, ps: Seq(PathDecl)])]                 *)
(*                                                                         *)
(* g == [cx, sec] is what the whole document shares: registered schemas    *)
(* and security schemes.                                                   *)
(***************************************************************************)
EXTENDS OpgTypes, OpgDoc

\* Reason phrases of the status codes (RFC 9110 and friends); others have none
Phrases == ("100" :> "Continue") @@ ("101" :> "Switching Protocols") @@ ("102" :> "Processing") @@ ("200" :> "OK")
        @@ ("201" :> "Created") @@ ("202" :> "Accepted") @@ ("203" :> "Non Authoritative Information") @@ ("204" :> "No Content")
        @@ ("205" :> "Reset Content") @@ ("206" :> "Partial Content") @@ ("207" :> "Multi-Status") @@ ("208" :> "Already Reported")
        @@ ("226" :> "IM Used") @@ ("300" :> "Multiple Choices") @@ ("301" :> "Moved Permanently") @@ ("302" :> "Found")
        @@ ("303" :> "See Other") @@ ("304" :> "Not Modified") @@ ("305" :> "Use Proxy") @@ ("307" :> "Temporary Redirect")
        @@ ("308" :> "Permanent Redirect") @@ ("400" :> "Bad Request") @@ ("401" :> "Unauthorized") @@ ("402" :> "Payment Required")
        @@ ("403" :> "Forbidden") @@ ("404" :> "Not Found") @@ ("405" :> "Method Not Allowed") @@ ("406" :> "Not Acceptable")
        @@ ("407" :> "Proxy Authentication Required") @@ ("408" :> "Request Timeout") @@ ("409" :> "Conflict") @@ ("410" :> "Gone")
        @@ ("411" :> "Length Required") @@ ("412" :> "Precondition Failed") @@ ("413" :> "Payload Too Large") @@ ("414" :> "URI Too Long")
        @@ ("415" :> "Unsupported Media Type") @@ ("416" :> "Range Not Satisfiable") @@ ("417" :> "Expectation Failed") @@ ("418" :> "I'm a teapot")
        @@ ("421" :> "Misdirected Request") @@ ("422" :> "Unprocessable Entity") @@ ("423" :> "Locked") @@ ("424" :> "Failed Dependency")
        @@ ("426" :> "Upgrade Required") @@ ("428" :> "Precondition Required") @@ ("429" :> "Too Many Requests") @@ ("431" :> "Request Header Fields Too Large")
        @@ ("451" :> "Unavailable For Legal Reasons") @@ ("500" :> "Internal Server Error") @@ ("501" :> "Not Implemented") @@ ("502" :> "Bad Gateway")
        @@ ("503" :> "Service Unavailable") @@ ("504" :> "Gateway Timeout") @@ ("505" :> "HTTP Version Not Supported") @@ ("506" :> "Variant Also Negotiates")
        @@ ("507" :> "Insufficient Storage") @@ ("508" :> "Loop Detected") @@ ("510" :> "Not Extended") @@ ("511" :> "Network Authentication Required")
Phrase(code) == IF code \in DOMAIN Phrases THEN Phrases[code] ELSE ""

Put(f, k, v) == (k :> v) @@ f
G0 == [cx |-> EmptyCx, sec |-> EmptyFn]
Uses(E, ty, g) == LET m == Mention(E, ty, g.cx, FALSE, NoParams) IN [g |-> [g EXCEPT !.cx = m.cx], r |-> m.r]
Val(o, default) == IF IsSome(o) THEN The(o) ELSE default

(***************************************************************************)
(* Parameters: headers are strings and required unless said otherwise,     *)
(* queries are optional; path parameters are always required               *)
(***************************************************************************)
StringTy == Prim("String")
ParamOf(E, p, g) ==
  LET u1 == Uses(E, IF p.k = "header" THEN StringTy ELSE p.ty, g)
      u == IF IsSome(p.schema) THEN Uses(E, The(p.schema), u1.g) ELSE u1
  IN [g |-> u.g, v |-> [d |-> p.d, loc |-> p.k, required |-> Val(p.required, p.k = "header"), deprecated |-> Val(p.deprecated, FALSE), schema |-> Some(u.r)]]
RECURSIVE ParamsOf(_, _, _, _)
ParamsOf(E, ps, g, into) ==
  IF Len(ps) = 0 THEN [g |-> g, params |-> into]
  ELSE LET x == ParamOf(E, ps[1], g) IN ParamsOf(E, Tail(ps), x.g, Put(into, ps[1].n, x.v))

\* A segment that is just a type is named after it
TypeSegment(ty) == Decap(IF ty.t = "decl" THEN ty.n ELSE ty.t)
SegName(s) == CASE s.k = "lit" -> s.v [] s.k = "named" -> s.n [] OTHER -> TypeSegment(s.ty)
RECURSIVE SegsOf(_, _, _, _, _)
SegsOf(E, segs, g, path, params) ==
  IF Len(segs) = 0 THEN [g |-> g, path |-> path, params |-> params]
  ELSE LET s == segs[1] IN
       IF s.k = "lit" THEN SegsOf(E, Tail(segs), g, Append(path, [k |-> "path", v |-> s.v]), params)
       ELSE LET u == Uses(E, s.ty, g) IN
            SegsOf(E, Tail(segs), u.g, Append(path, [k |-> "param", v |-> SegName(s)]),
                   Put(params, SegName(s), [d |-> None, loc |-> "path", required |-> TRUE, deprecated |-> FALSE, schema |-> Some(u.r)]))

(***************************************************************************)
(* Clauses of an operation, but callbacks                                  *)
(***************************************************************************)
RECURSIVE Conjunction(_, _, _, _)
Conjunction(vars, items, g, into) ==
  IF Len(items) = 0 THEN [g |-> g, v |-> into]
  ELSE LET it == items[1]
           g1 == IF it.lit \/ it.n \in DOMAIN g.sec THEN g ELSE [g EXCEPT !.sec = Put(@, it.n, vars[it.n])]
       IN Conjunction(vars, Tail(items), g1, Put(into, it.n, Val(it.roles, <<>>)))
RECURSIVE Alternation(_, _, _, _)
Alternation(vars, alts, g, into) ==
  IF Len(alts) = 0 THEN [g |-> g, v |-> into]
  ELSE LET x == Conjunction(vars, alts[1], g, EmptyFn) IN Alternation(vars, Tail(alts), x.g, Append(into, x.v))

ResponseOf(E, c, g) ==
  LET u == CASE c.what = "none" -> [g |-> g, s |-> None]
             [] c.what = "any" -> [g |-> g, s |-> Some(AnyRef)]
             [] OTHER -> LET x == Uses(E, IF c.what = "unit" THEN Prim("unit") ELSE c.ty, g) IN [g |-> x.g, s |-> Some(x.r)]
  IN [g |-> u.g, v |-> [d |-> Val(c.d, Phrase(c.code)), schema |-> u.s]]

OpClause(E, vars, c, op, g) ==
  CASE c.k = "summary" -> [g |-> g, op |-> [op EXCEPT !.summary = Some(c.v)]]
    [] c.k = "operationId" -> [g |-> g, op |-> [op EXCEPT !.opid = Some(c.v)]]
    [] c.k = "description" -> [g |-> g, op |-> [op EXCEPT !.d = Some(c.v)]]
    [] c.k = "deprecated" -> [g |-> g, op |-> [op EXCEPT !.deprecated = c.v]]
    [] c.k = "tags" -> [g |-> g, op |-> [op EXCEPT !.tags = @ \o c.ts]]
    [] c.k = "parameters" -> LET x == ParamsOf(E, c.ps, g, op.params) IN [g |-> x.g, op |-> [op EXCEPT !.params = x.params]]
    [] c.k = "security" -> LET x == Alternation(vars, c.alts, g, op.security) IN [g |-> x.g, op |-> [op EXCEPT !.security = x.v]]
    [] c.k = "body" -> LET u == Uses(E, c.ty, g) IN
         [g |-> u.g, op |-> [op EXCEPT !.body = Some([d |-> Some(Val(c.d, "")), required |-> Val(c.required, TRUE), schema |-> u.r])]]
    [] c.k = "response" -> LET x == ResponseOf(E, c, g) IN [g |-> x.g, op |-> [op EXCEPT !.responses = Put(@, c.code, x.v)]]

(***************************************************************************)
(* Operations, paths, sections                                             *)
(***************************************************************************)
RECURSIVE OpOf(_, _, _, _, _), CallbacksOf(_, _, _, _, _), PathsOf(_, _, _, _, _), ItemOf(_, _, _, _, _)
OpOf(E, vars, ms, op, g) ==
  IF Len(ms) = 0 THEN [g |-> g, op |-> op]
  ELSE LET x == IF ms[1].k = "callbacks"
                THEN LET y == CallbacksOf(E, vars, ms[1].cs, op.callbacks, g) IN [g |-> y.g, op |-> [op EXCEPT !.callbacks = y.cbs]]
                ELSE OpClause(E, vars, ms[1], op, g)
       IN OpOf(E, vars, Tail(ms), x.op, x.g)
CallbacksOf(E, vars, cs, into, g) ==
  IF Len(cs) = 0 THEN [g |-> g, cbs |-> into]
  ELSE LET x == PathsOf(E, vars, cs[1].ps, <<>>, g) IN CallbacksOf(E, vars, Tail(cs), Put(into, cs[1].n, x.ps), x.g)
ItemOf(E, vars, ms, it, g) ==
  IF Len(ms) = 0 THEN [g |-> g, item |-> it]
  ELSE LET c == ms[1]
           x == CASE c.k = "summary" -> [g |-> g, item |-> [it EXCEPT !.summary = Some(c.v)]]
                  [] c.k = "description" -> [g |-> g, item |-> [it EXCEPT !.d = Some(c.v)]]
                  [] c.k = "parameters" -> LET y == ParamsOf(E, c.ps, g, it.params) IN [g |-> y.g, item |-> [it EXCEPT !.params = y.params]]
                  [] c.k = "op" -> LET y == OpOf(E, vars, c.ms, EmptyOp, g) IN [g |-> y.g, item |-> [it EXCEPT !.ops = Put(@, Lower(c.method), y.op)]]
       IN ItemOf(E, vars, Tail(ms), x.item, x.g)
PathsOf(E, vars, ps, into, g) ==
  IF Len(ps) = 0 THEN [g |-> g, ps |-> into]
  ELSE LET s == SegsOf(E, ps[1].segs, g, <<>>, EmptyFn)
           x == ItemOf(E, vars, ps[1].ms, [EmptyItem EXCEPT !.params = s.params], s.g)
       IN PathsOf(E, vars, Tail(ps), Append(into, [path |-> s.path, item |-> x.item]), x.g)

InfoBy(m, info) == CASE m.k = "title" -> [info EXCEPT !.title = m.v] [] m.k = "version" -> [info EXCEPT !.version = m.v] [] OTHER -> [info EXCEPT !.d = Some(m.v)]
RECURSIVE InfoOf(_, _)
InfoOf(ms, info) == IF Len(ms) = 0 THEN info ELSE InfoOf(Tail(ms), InfoBy(ms[1], info))
RECURSIVE TagsOf(_, _)
TagsOf(ts, into) == IF Len(ts) = 0 THEN into ELSE TagsOf(Tail(ts), Put(into, ts[1].n, ts[1].d))
RECURSIVE SchemesOf(_, _, _)
SchemesOf(vars, ds, into) == IF Len(ds) = 0 THEN into ELSE SchemesOf(vars, Tail(ds), Put(into, ds[1].n, IF ds[1].k = "var" THEN vars[ds[1].n] ELSE ds[1].scheme))

SectionOf(E, vars, s, d) ==
  CASE s.s = "info" -> [d EXCEPT !.info = InfoOf(s.ms, EmptyDoc.info)]
    [] s.s = "tags" -> [d EXCEPT !.tags = TagsOf(s.ts, @)]
    [] s.s = "servers" -> [d EXCEPT !.servers = @ \o s.us]
    [] s.s = "security_schemes" -> [d EXCEPT !.sec = SchemesOf(vars, s.ds, @)]
    [] s.s = "paths" -> LET x == PathsOf(E, vars, s.ps, d.paths, [cx |-> d.schemas, sec |-> d.sec])
                        IN [d EXCEPT !.paths = x.ps, !.schemas = x.g.cx, !.sec = x.g.sec]
RECURSIVE Sections(_, _, _, _)
Sections(E, vars, ss, d) == IF Len(ss) = 0 THEN d ELSE Sections(E, vars, Tail(ss), SectionOf(E, vars, ss[1], d))
Describe(p) == Sections(EnvOf(p.decls), p.vars, p.sections, EmptyDoc)

(***************************************************************************)
(* What the properties say about a document by itself                      *)
(***************************************************************************)
Braces(path) == {path[i].v : i \in {k \in 1..Len(path) : path[k].k = "param"}}
RECURSIVE Entries(_)
Entries(es) ==       \* all entries, also those of callbacks
  LET Cbs(it) == UNION {UNION {Entries(it.ops[m].callbacks[n]) : n \in DOMAIN it.ops[m].callbacks} : m \in DOMAIN it.ops}
  IN {es[i] : i \in 1..Len(es)} \cup UNION {Cbs(es[i].item) : i \in 1..Len(es)}
Corresponds(d) == \A e \in Entries(d.paths) :
  {n \in DOMAIN e.item.params : e.item.params[n].loc = "path"} = Braces(e.path) /\ \A n \in Braces(e.path) : e.item.params[n].required
RequiresKnown(d) == \A e \in Entries(d.paths) : \A m \in DOMAIN e.item.ops :
  \A i \in 1..Len(e.item.ops[m].security) : DOMAIN e.item.ops[m].security[i] \subseteq DOMAIN d.sec
RefsOfEntry(e) ==
  LET P(ps) == UNION {IF IsSome(ps[n].schema) THEN RefLinks(The(ps[n].schema)) ELSE {} : n \in DOMAIN ps}
      O(o) == P(o.params) \cup (IF IsSome(o.body) THEN RefLinks(The(o.body).schema) ELSE {})
              \cup UNION {IF IsSome(o.responses[c].schema) THEN RefLinks(The(o.responses[c].schema)) ELSE {} : c \in DOMAIN o.responses}
  IN P(e.item.params) \cup UNION {O(e.item.ops[m]) : m \in DOMAIN e.item.ops}
Resolved(d) == Dangling(d.schemas) = {} /\ \A e \in Entries(d.paths) : RefsOfEntry(e) \subseteq DOMAIN d.schemas
=============================================================================
