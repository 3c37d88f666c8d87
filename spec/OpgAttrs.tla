------------------------------- MODULE OpgAttrs ------------------------------
(***************************************************************************)
(* Which declarations the derive accepts: its attributes, its shapes and   *)
(* its type parameters.                                                    *)
(*                                                                         *)
(* Attributes.  At a place (a container of some kind, a variant, a field)  *)
(* a sequence of items is written, in one attribute or in several.  Each   *)
(* item fills a slot.  The declaration is accepted iff every item is well  *)
(* formed and known at that place, and no slot is filled twice; order and  *)
(* grouping do not matter.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Places == {"struct", "newtype", "tuple", "enum", "variant", "varfield", "field"}

Good(text, slot) == [text |-> text, slot |-> slot, ok |-> TRUE]
Bad(text, slot)  == [text |-> text, slot |-> slot, ok |-> FALSE]

GoodItems == {
  Good("\"A description\"", "description"), Good("\"Another one\"", "description"),
  Good("format = \"id\"", "format"), Good("format = \"uri\"", "format"),
  Good("example = \"x\"", "example"), Good("example = \"\"", "example"), Good("example_with = \"1 + 1\"", "example"),
  Good("inline", "inline"), Good("nullable", "nullable"), Good("optional", "optional"),
  Good("string", "type"), Good("number", "type"), Good("integer", "type"), Good("boolean", "type")}

BadItems == {
  \* ill-typed
  Bad("5", "description"), Bad("true", "description"), Bad("b\"bytes\"", "description"), Bad("'c'", "description"), Bad("1.5", "description"),
  Bad("format = 5", "format"), Bad("format = true", "format"), Bad("example = 5", "example"), Bad("example = 'c'", "example"),
  Bad("example_with = 5", "example"), Bad("example_with = \"1 +\"", "example"), Bad("example_with = \"\"", "example"), Bad("example_with = \"let\"", "example"),
  \* of the wrong form
  Bad("format", "format"), Bad("format(\"id\")", "format"), Bad("example", "example"), Bad("example(\"x\")", "example"), Bad("example_with", "example"),
  Bad("inline = \"yes\"", "inline"), Bad("inline = true", "inline"), Bad("inline()", "inline"), Bad("nullable = \"yes\"", "nullable"), Bad("nullable(true)", "nullable"),
  Bad("optional = true", "optional"), Bad("optional(x)", "optional"), Bad("string = \"x\"", "type"), Bad("string()", "type"), Bad("any = 1", "type"),
  \* unknown
  Bad("unknown", "?"), Bad("unknown = \"x\"", "?"), Bad("unknown(\"x\")", "?"), Bad("skip", "?"), Bad("rename = \"x\"", "?"), Bad("description = \"x\"", "?"),
  Bad("Inline", "?"), Bad("Nullable", "?"), Bad("str", "?"), Bad("bool", "?"), Bad("int", "?"), Bad("float", "?"), Bad("object", "?"), Bad("array", "?"),
  Bad("required", "?"), Bad("opg::inline", "?"), Bad("inline::inline", "?"), Bad("nullable::x = \"y\"", "?"), Bad("format::x = \"y\"", "?"), Bad("type = \"string\"", "?"),
  Bad("example_with_ = \"1\"", "?"), Bad("formats = \"x\"", "?"),
  \* not a list of items at all
  Bad("format = ", "syntax"), Bad("format \"x\"", "syntax"), Bad("= \"x\"", "syntax"), Bad("inline nullable", "syntax"), Bad("\"a\" \"b\"", "syntax"), Bad("(", "syntax-skip")}
  \ {Bad("(", "syntax-skip")}

Items == GoodItems \cup BadItems

Known(place, item) ==
  /\ item.ok
  /\ item.slot = "optional" => place \in {"field", "varfield"}
  /\ item.slot = "nullable" => place # "variant"
AcceptsItems(place, items) ==
  /\ \A i \in 1..Len(items) : Known(place, items[i])
  /\ \A i, j \in 1..Len(items) : items[i].slot = items[j].slot => i = j

\* a whole attribute that is not of the form opg(...)
BareForms == {"#[opg]", "#[opg = \"x\"]"}

(***************************************************************************)
(* Shapes.                                                                 *)
(*   [k: "struct", style, n: number of fields] | [k: "union"]              *)
(*   [k: "enum", tagging, variants: Seq([style, skip, disc: BOOLEAN])]     *)
(***************************************************************************)
Styles == {"unit", "newtype", "tuple", "struct", "tuple0", "struct0"}
\* a newtype variant whose field is skipped ("hidden") is written as a unit variant
VStyles == Styles \cup {"hidden"}
Live(s) == SelectSeq(s.variants, LAMBDA v : ~v.skip)
Consistent(s) == \A i, j \in 1..Len(s.variants) : s.variants[i].disc = s.variants[j].disc
AcceptsShape(s) ==
  CASE s.k = "union" -> FALSE
    [] s.k = "struct" -> s.style # "unit"
    [] s.k = "enum" ->
         /\ Consistent(s)
         /\ CASE s.tagging = "untagged" ->
                   /\ \E i \in 1..Len(s.variants) : s.variants[i].style # "unit"
                   /\ \A i \in 1..Len(Live(s)) : Live(s)[i].style \in {"newtype", "struct", "struct0"}
              [] s.tagging = "internal" -> \A i \in 1..Len(s.variants) : s.variants[i].style \in {"unit", "hidden", "newtype", "struct", "struct0"}
              [] OTHER -> TRUE

V(style, skip, disc) == [style |-> style, skip |-> skip, disc |-> disc]
Enum(tagging, vs) == [k |-> "enum", tagging |-> tagging, variants |-> vs]
Taggings == {"external", "internal", "adjacent", "untagged"}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Shapes ==
  {[k |-> "union"]}
  \cup {[k |-> "struct", style |-> st] : st \in Styles}
  \cup {Enum(tg, vs) : tg \in Taggings, vs \in SeqsUpTo({V(st, sk, FALSE) : st \in VStyles, sk \in BOOLEAN}, 2)}
  \cup {Enum("external", [i \in 1..Len(ds) |-> V("unit", FALSE, ds[i])]) : ds \in SeqsUpTo(BOOLEAN, 5)}
  \cup {Enum(tg, [i \in 1..Len(ds) |-> V("unit", FALSE, ds[i])]) : tg \in {"internal", "adjacent"}, ds \in SeqsUpTo(BOOLEAN, 3)}

(***************************************************************************)
(* Type parameters.  Each field of a generic declaration uses a parameter  *)
(* in some way.  The derived implementation asks for a schema exactly of   *)
(* those parameters and associated types that are written, so an argument  *)
(* without schema is fine for the others.                                  *)
(***************************************************************************)
Uses == {"plain", "vec", "option", "boxed", "ref", "pair", "array", "map", "nested",
         "assoc", "assocgroup", "qualified", "assocvec", "skip", "phantom", "skipvariant", "any"}
NeedsSchema(u) == u \in {"plain", "vec", "option", "boxed", "ref", "pair", "array", "map", "nested", "qualified"}
NeedsOut(u) == u \in {"assoc", "assocgroup", "qualified", "assocvec"}
Bounds == {"none", "inline", "where", "default", "lifetime", "unsized"}
GStyles == {"struct", "tuple", "newtype", "enum"}
Scopes == {"module", "function", "closure", "nested", "macro"}
\* a declaration: style, scope, fields (each a use of one of the parameters), bounds of the parameters
Generic(st, sc, fs, bs) == [k |-> "generic", style |-> st, scope |-> sc, fields |-> fs, bounds |-> bs]
Field(p, u) == [p |-> p, u |-> u]
Params(g) == {g.fields[i].p : i \in 1..Len(g.fields)}
Fits(g) ==
  /\ g.style = "newtype" => Len(g.fields) = 1 /\ g.fields[1].u \notin {"skip", "phantom", "any"}
  /\ \A i \in 1..Len(g.fields) : g.fields[i].u = "skipvariant" => g.style = "enum"
  /\ \A p \in Params(g) :
       LET us == {g.fields[i].u : i \in {j \in 1..Len(g.fields) : g.fields[j].p = p}} IN
       /\ g.bounds[p] = "unsized" => us \subseteq {"boxed", "ref", "phantom"}
       /\ "any" \in us => us = {"any"}
\* which parameters have to have a schema
Relevant(g) == {g.fields[i].p : i \in {j \in 1..Len(g.fields) : NeedsSchema(g.fields[j].u)}}
Generics == {g \in
       {Generic(st, "module", <<Field("T", u)>>, [p \in {"T"} |-> b]) : st \in GStyles, u \in Uses, b \in Bounds}
  \cup {Generic(st, sc, <<Field("T", u)>>, [p \in {"T"} |-> "none"]) : st \in GStyles, sc \in Scopes, u \in Uses}
  \cup {Generic(st, "module", <<Field("T", u), Field("U", w)>>, [p \in {"T", "U"} |-> "none"]) : st \in GStyles, u \in Uses, w \in Uses}
  \cup {Generic(st, "module", <<Field("T", u), Field("T", w)>>, [p \in {"T"} |-> "none"]) : st \in GStyles, u \in Uses, w \in Uses}
  : Fits(g)}
=============================================================================
