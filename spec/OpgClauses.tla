------------------------------ MODULE OpgClauses -----------------------------
(***************************************************************************)
(* Which descriptions the macros accept, clause by clause.                 *)
(*                                                                         *)
(* A clause of an API or type description is a list of members.  It is     *)
(* accepted iff every member is one of the clause's own with a value of    *)
(* its type, and every member without which it would mean nothing is       *)
(* there.  In an API description the order of the members does not matter. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

\* the members of each clause, in the order in which they are usually written
Members == [
  info |-> <<"title: \"t\"", "version: \"1\"", "description: \"d\"">>,
  http |-> <<"scheme: Bearer", "bearer_format: \"JWT\"", "description: \"d\"">>,
  apikey |-> <<"name: \"n\"", "parameter_in: Query", "description: \"d\"">>,
  path |-> <<"summary: \"s\"", "description: \"d\"", "parameters: { (header \"x\") }", "GET: { 200: None }", "POST: { 200: u8 }">>,
  operation |-> <<"summary: \"s\"", "operationId: \"o\"", "description: \"d\"", "deprecated: true", "tags: { a, b }", "parameters: { (query q: u8) }",
                  "callbacks: { cb: { (\"x\"): { POST: { 200: None } } } }", "security: { \"key\" }", "body: u8", "200: None", "404(\"gone\"): String">>,
  body |-> <<"schema: u8", "description: \"d\"", "required: false">>,
  header |-> <<"description: \"d\"", "required: false", "deprecated: true", "schema: u8">>,
  query |-> <<"description: \"d\"", "required: true", "deprecated: true", "schema: u8">>,
  string |-> <<"description: \"d\"", "format: \"f\"", "example: \"e\"", "variants: [\"a\", \"b\"]">>,
  number |-> <<"description: \"d\"", "format: \"f\"", "example: \"e\"">>,
  integer |-> <<"description: \"d\"", "format: \"f\"", "example: \"e\"">>,
  boolean |-> <<"description: \"d\"">>,
  array |-> <<"description: \"d\"", "items: (string => {})">>,
  object |-> <<"description: \"d\"", "properties: { a: (string => {}) b[required]: (link => \"x\") }">>,
  raw |-> <<"description: \"d\"", "ident: data">>]
Clauses == DOMAIN Members
OfTypes == {"string", "number", "integer", "boolean", "array", "object", "raw"}

\* the positions of the members that have to be there
Needed == [c \in Clauses |-> CASE c \in {"http", "apikey", "body"} -> {1}
                               [] c \in {"array", "object", "raw"} -> {2}
                               [] OTHER -> {}]

\* members that do not belong there, or whose value is of another type
Wrong == [
  info |-> {"title: 5u8.no_such_method()", "Title: \"t\"", "summary: \"s\""},
  http |-> {"scheme: Digest", "description: Opaque", "bearer: \"x\"", "name: \"n\"", "parameter_in: Header"},
  apikey |-> {"parameter_in: Body", "name: Opaque", "scheme: Basic", "bearer_format: \"x\"", "in: Header"},
  path |-> {"summary: 5", "title: \"t\"", "FETCH: { 200: None }", "get: { 200: None }", "parameters: { (cookie \"x\") }", "parameters: { (query q) }", "GET: { unknown: 1 }", "200: None"},
  operation |-> {"deprecated: \"yes\"", "deprecated: 1", "operation_id: \"o\"", "title: \"t\"", "\"200\": None", "70000: None", "200: Opaque", "200: no_such_type", "body: Opaque",
                 "body: { description: \"d\" }", "body: {}", "tags: { \"a\" }", "security: { no_such_scheme }", "callbacks: { cb: { POST: { 200: None } } }", "GET: { 200: None }", "parameters: { unknown }"},
  body |-> {"required: 5", "required: \"yes\"", "description: 5", "schema: Opaque", "optional: true", "Schema: u8", "deprecated: true"},
  header |-> {"required: \"yes\"", "deprecated: 1", "schema: Opaque", "name: \"n\"", "nullable: true"},
  query |-> {"required: \"yes\"", "deprecated: 1", "schema: Opaque", "name: \"n\"", "nullable: true"},
  string |-> {"nullable: true", "items: (string => {})", "variants: \"a\"", "summary: \"s\""},
  number |-> {"nullable: true", "variants: [\"a\"]", "summary: \"s\""},
  integer |-> {"nullable: true", "variants: [\"a\"]", "summary: \"s\""},
  boolean |-> {"nullable: true", "summary: \"s\"", "items: (string => {})"},
  array |-> {"nullable: true", "properties: {}"},
  object |-> {"nullable: true", "items: (string => {})", "required: [a]"},
  raw |-> {"nullable: true", "type: data"}]
\* a member of which the value is itself misspelt
WrongInside == {
  [clause |-> "array", text |-> "items: (strings => {})"], [clause |-> "array", text |-> "items: string"], [clause |-> "array", text |-> "items: (link => 5)"],
  [clause |-> "object", text |-> "properties: { a: (strings => {}) }"], [clause |-> "object", text |-> "properties: { a[optional]: (string => {}) }"],
  [clause |-> "object", text |-> "properties: { a[required]: string }"], [clause |-> "object", text |-> "properties: { \"a\": (string => {}) }"],
  [clause |-> "raw", text |-> "ident: 5"], [clause |-> "raw", text |-> "ident: no_such_variable"]}

Case(c, is, missing, wrong) == [k |-> "clause", clause |-> c, items |-> is, missing |-> missing, wrong |-> wrong]
Chosen(c, S) == LET ix == SetToSortSeq(S, <) IN [i \in 1..Len(ix) |-> Members[c][ix[i]]]
Lacks(c, S) == Needed[c] \ S # {}
\* all choices of members; of a long clause, those of at most two and of all but one
Selections(c) == IF Len(Members[c]) <= 5 THEN SUBSET (1..Len(Members[c]))
              ELSE {S \in SUBSET (1..Len(Members[c])) : Cardinality(S) <= 2 \/ Cardinality(S) >= Len(Members[c]) - 1}
\* a security scheme has to have some member
Choosable(c) == {S \in Selections(c) : c \in {"http", "apikey"} => S # {}}
Spoiled(c) == {S \in {{}, {1}, {1, 2}} : S \subseteq 1..Len(Members[c]) /\ (Needed[c] \subseteq S \/ S = {})}
ClauseCases ==
       UNION {{Case(c, Chosen(c, S), Lacks(c, S), FALSE) : S \in Choosable(c)} : c \in Clauses}
  \cup UNION {{Case(c, Reverse(Chosen(c, S)), Lacks(c, S), FALSE) : S \in Choosable(c)} : c \in Clauses \ OfTypes}
  \cup UNION {{Case(c, <<w>> \o Chosen(c, S), Lacks(c, S), TRUE) : w \in Wrong[c], S \in Spoiled(c)} : c \in Clauses}
  \cup UNION {{Case(c, Chosen(c, S) \o <<w>>, Lacks(c, S), TRUE) : w \in Wrong[c], S \in Spoiled(c)} : c \in Clauses}
  \cup {Case(x.clause, <<x.text>>, FALSE, TRUE) : x \in WrongInside}
AcceptsClause(c) == ~c.missing /\ ~c.wrong
=============================================================================
