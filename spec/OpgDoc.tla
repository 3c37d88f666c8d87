------------------------------- MODULE OpgDoc --------------------------------
(***************************************************************************)
(* API documents and how they are written out.                             *)
(*                                                                         *)
(*   Doc   == [info: [title, d: Opt, version], tags: name -> Opt(string),  *)
(*             servers: Seq([url, d: Opt]), paths: Seq(Entry),             *)
(*             schemas: name -> Model, sec: name -> Scheme]                *)
(*   Entry == [path: Seq([k: "path" / "param", v: string]), item: Item]    *)
(*   Item  == [summary, d: Opt, ops: method -> Op, params: name -> Param]  *)
(*   Op    == [tags: Seq, summary, opid, d: Opt, deprecated: BOOLEAN,      *)
(*             security: Seq(name -> Seq(role)), body: Opt(Body),          *)
(*             responses: code -> Resp, params: name -> Param,             *)
(*             callbacks: name -> Seq(Entry)]                              *)
(*   Body  == [d: Opt, required, schema: Ref]                              *)
(*   Resp  == [d: string, schema: Opt(Ref)]                                *)
(*   Param == [d: Opt, loc, required, deprecated, schema: Opt(Ref)]        *)
(*   Scheme == [k: "basic", d] | [k: "bearer", format, d]                  *)
(*           | [k: "apiKey", loc, name, d]                                 *)
(***************************************************************************)
EXTENDS OpgSchema

Methods == {"get", "put", "post", "delete", "options", "head", "patch", "trace"}

EmptyOp == [tags |-> <<>>, summary |-> None, opid |-> None, d |-> None, deprecated |-> FALSE, security |-> <<>>,
            body |-> None, responses |-> EmptyFn, params |-> EmptyFn, callbacks |-> EmptyFn]
EmptyItem == [summary |-> None, d |-> None, ops |-> EmptyFn, params |-> EmptyFn]
EmptyDoc == [info |-> [title |-> "", d |-> None, version |-> ""], tags |-> EmptyFn, servers |-> <<>>, paths |-> <<>>,
             schemas |-> EmptyFn, sec |-> EmptyFn]

OptStr(k, o) == IF IsSome(o) THEN k :> JS(The(o)) ELSE EmptyFn
IfFlag(k, b) == IF b THEN k :> JB(TRUE) ELSE EmptyFn

RECURSIVE PathText(_)
PathText(p) == IF Len(p) = 0 THEN ""
               ELSE "/" \o (IF p[1].k = "param" THEN "{" \o p[1].v \o "}" ELSE p[1].v) \o PathText(Tail(p))

JsonContent(schema) == "content" :> JO("application/json" :> JO("schema" :> RenderRef(schema)))
RenderBody(b) == JO(IfFlag("required", b.required) @@ OptStr("description", b.d) @@ JsonContent(b.schema))
RenderResp(r) == JO(("description" :> JS(r.d)) @@ (IF IsSome(r.schema) THEN JsonContent(The(r.schema)) ELSE EmptyFn))

RenderParam(name, p) ==
  JO(("name" :> JS(name)) @@ OptStr("description", p.d) @@ ("in" :> JS(p.loc)) @@ IfFlag("required", p.required)
     @@ IfFlag("deprecated", p.deprecated) @@ (IF IsSome(p.schema) THEN "schema" :> RenderRef(The(p.schema)) ELSE EmptyFn))
\* Lists that are maps in memory: their order is not observable here (TLC does not order strings), so they are sets
RenderParams(ps) == IF DOMAIN ps = {} THEN EmptyFn ELSE "parameters" :> [set |-> {RenderParam(n, ps[n]) : n \in DOMAIN ps}]
RenderTags(ts) == IF DOMAIN ts = {} THEN EmptyFn
                  ELSE "tags" :> [set |-> {JO(("name" :> JS(n)) @@ OptStr("description", ts[n])) : n \in DOMAIN ts}]

RenderScheme(s) ==
  CASE s.k = "basic" -> JO(("type" :> JS("http")) @@ ("scheme" :> JS("basic")) @@ OptStr("description", s.d))
    [] s.k = "bearer" -> JO(("type" :> JS("http")) @@ ("scheme" :> JS("bearer")) @@ OptStr("bearerFormat", s.format) @@ OptStr("description", s.d))
    [] s.k = "apiKey" -> JO(("type" :> JS("apiKey")) @@ ("in" :> JS(s.loc)) @@ ("name" :> JS(s.name)) @@ OptStr("description", s.d))

RECURSIVE RenderOp(_), RenderItem(_), RenderPaths(_)
RenderOp(o) ==
  JO((IF Len(o.tags) > 0 THEN "tags" :> StrArr(o.tags) ELSE EmptyFn)
     @@ OptStr("summary", o.summary) @@ OptStr("operationId", o.opid) @@ OptStr("description", o.d)
     @@ IfFlag("deprecated", o.deprecated)
     @@ (IF Len(o.security) > 0
         THEN "security" :> JA([i \in 1..Len(o.security) |-> JO([n \in DOMAIN o.security[i] |-> StrArr(o.security[i][n])])]) ELSE EmptyFn)
     @@ (IF IsSome(o.body) THEN "requestBody" :> RenderBody(The(o.body)) ELSE EmptyFn)
     @@ ("responses" :> JO([c \in DOMAIN o.responses |-> RenderResp(o.responses[c])]))
     @@ RenderParams(o.params)
     @@ (IF DOMAIN o.callbacks # {}
         THEN "callbacks" :> JO([n \in DOMAIN o.callbacks |-> RenderPaths(o.callbacks[n])]) ELSE EmptyFn))

RenderItem(it) ==
  JO(OptStr("summary", it.summary) @@ OptStr("description", it.d) @@ [m \in DOMAIN it.ops |-> RenderOp(it.ops[m])] @@ RenderParams(it.params))

RenderPaths(es) ==
  JO([t \in {PathText(es[i].path) : i \in 1..Len(es)} |->
        RenderItem(es[CHOOSE i \in 1..Len(es) : PathText(es[i].path) = t].item)])
PathOrder(es) == [i \in 1..Len(es) |-> PathText(es[i].path)]

RenderComponents(d) ==
  JO((IF DOMAIN d.schemas # {} THEN "schemas" :> JO(RenderSchemas(d.schemas)) ELSE EmptyFn)
     @@ (IF DOMAIN d.sec # {} THEN "securitySchemes" :> JO([n \in DOMAIN d.sec |-> RenderScheme(d.sec[n])]) ELSE EmptyFn))

RenderDoc(d) ==
  JO(("openapi" :> JS("3.0.3"))
     @@ ("info" :> JO(("title" :> JS(d.info.title)) @@ OptStr("description", d.info.d) @@ ("version" :> JS(d.info.version))))
     @@ RenderTags(d.tags)
     @@ (IF Len(d.servers) > 0
         THEN "servers" :> JA([i \in 1..Len(d.servers) |-> JO(("url" :> JS(d.servers[i].url)) @@ OptStr("description", d.servers[i].d))]) ELSE EmptyFn)
     @@ ("paths" :> RenderPaths(d.paths))
     @@ ("components" :> RenderComponents(d)))

(***************************************************************************)
(* The order in which paths are written: per list of paths, by its place   *)
(***************************************************************************)
RECURSIVE Orders(_, _)
Orders(es, at) ==
  LET Cb(i, m, n) == es[i].item.ops[m].callbacks[n]
      inner == {<<i, m, n>> \in (1..Len(es)) \X Methods \X UNION {DOMAIN es[i].item.ops[m].callbacks : <<i, m>> \in {x \in (1..Len(es)) \X Methods : x[2] \in DOMAIN es[x[1]].item.ops}} :
                   m \in DOMAIN es[i].item.ops /\ n \in DOMAIN es[i].item.ops[m].callbacks}
  IN {[at |-> at, keys |-> PathOrder(es)]} \cup UNION {Orders(Cb(x[1], x[2], x[3]), at \o PathText(es[x[1]].path) \o " " \o x[2] \o " " \o x[3] \o " ") : x \in inner}

=============================================================================
