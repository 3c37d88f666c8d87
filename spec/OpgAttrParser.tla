---------------------------- MODULE OpgAttrParser ----------------------------
(***************************************************************************)
(* The attribute reader as a machine: items are read one after the other,  *)
(* each either fills its slot or is an error; errors are collected and the *)
(* declaration is accepted iff there is none at the end.  Checked against  *)
(* the declarative account, for every sequence of items up to MaxItems.         *)
(***************************************************************************)
EXTENDS OpgAttrs, SequencesExt
CONSTANT MaxItems
VARIABLES place, read, slots, errors
vars == <<place, read, slots, errors>>
Init == place \in Places /\ read = <<>> /\ slots = {} /\ errors = 0
Read(item) ==
  /\ Len(read) < MaxItems /\ read' = Append(read, item) /\ place' = place
  /\ IF ~Known(place, item) THEN errors' = errors + 1 /\ slots' = slots
     ELSE IF item.slot \in slots THEN errors' = errors + 1 /\ slots' = slots
     ELSE errors' = errors /\ slots' = slots \cup {item.slot}
Next == \E item \in Items : Read(item)
Spec == Init /\ [][Next]_vars
Agrees == (errors = 0) <=> AcceptsItems(place, read)
\* what is accepted has each slot filled by exactly one item, whatever the order
OrderFree == AcceptsItems(place, read) <=> AcceptsItems(place, Reverse(read))
Exact == errors = 0 => Cardinality(slots) = Len(read)
\* an error is never forgotten
Stays == [][errors' >= errors]_vars
=============================================================================
