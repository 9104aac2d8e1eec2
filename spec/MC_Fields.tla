------------------------------ MODULE MC_Fields ------------------------------
(***************************************************************************)
(* Every sequence of property lines, up to a number of them, in each kind  *)
(* of component: each property with its samples, extension properties and  *)
(* other ones.                                                             *)
(*                                                                         *)
(* The reader is compared with a component which is updated as the lines   *)
(* come: a single value is replaced, the others are added.                 *)
(***************************************************************************)
EXTENDS Samples, Json

CONSTANTS Of, Depth, Each

VARIABLES vKind, vLines, vComp

\* Lines: <<"f", name, n>> a field with its n-th sample, <<"o", key, value>> another property.
Others == {<<"o", k, v>> : k \in {"X-A", "X-B", "A", "XA"}, v \in {"1", "2"}}
Known(kind, at) ==
    UNION {LET f == Fields[kind][j] IN
           {<<"f", f.name, at + n>> : n \in 0..((IF Each < Count(f.ty) THEN Each ELSE Count(f.ty)) - 1)}
           : j \in {m \in 1..Len(Fields[kind]) : Fields[kind][m].name \notin {"ACTION", "RECURRENCE-ID"}}}

LineOf(kind, l) ==
    IF l[1] = "o" THEN [key |-> C(l[2]), p |-> <<<<C("N"), C(l[3])>>>>, v |-> C(l[3])]
    ELSE LET f == FieldOf(kind, l[2])  v == Sample(f.ty, l[3]) IN
         [key |-> C(l[2]), p |-> TypeParams(f.ty, v), v |-> WriteValue(f.ty, v)]

Bytes(l) == l.key \o Flatten([j \in 1..Len(l.p) |-> WriteParam(l.p[j])]) \o <<COLON>> \o l.v \o <<CR, LF>>

\* A required property which isn't among the lines comes first, unless it's left out.
Given == {vLines[j][2] : j \in 1..Len(vLines)}
Filled(kind, given, but) ==
    SelectSeq(Fields[kind], LAMBDA f : f.mult = "req" /\ f.name \notin given /\ f.name # but)
TextOf(kind, lines, but) ==
    LET given == {lines[j][2] : j \in 1..Len(lines)}
        first == Filled(kind, given, but)
        own == [j \in 1..Len(first) |-> [key |-> C(first[j].name), p |-> TypeParams(first[j].ty, First(kind, first[j])),
                                         v |-> WriteValue(first[j].ty, First(kind, first[j]))]]
        all == own \o [j \in 1..Len(lines) |-> LineOf(kind, lines[j])]
    IN C("BEGIN:" \o WireName(kind)) \o <<CR, LF>> \o Flatten([j \in 1..Len(all) |-> Bytes(all[j])])
         \o C("END:" \o WireName(kind)) \o <<CR, LF>>

Emit(kind, text) == PrintT("@@" \o ToJson([want |-> kind, text |-> text]))

Init ==
    /\ vKind \in Of
    /\ vLines = <<>>
    /\ vComp = Minimal(vKind)
    /\ Emit(vKind, TextOf(vKind, <<>>, ""))
    /\ \A j \in 1..Len(Fields[vKind]) :
         Fields[vKind][j].mult = "req" => Emit(vKind, TextOf(vKind, <<>>, Fields[vKind][j].name))

Put(es, key, e) == LET s == InsertKV([j \in 1..Len(es) |-> <<es[j].n, es[j]>>], key, <<key, e>>) IN [j \in 1..Len(s) |-> s[j][2]]

\* What a line does to the component.
Updated(c, l) ==
    LET x == LineOf(c.k, l)
        e == [n |-> x.key, k |-> x.key, p |-> x.p, v |-> x.v]
    IN IF l[1] = "o"
       THEN IF l[2] \in {"X-A", "X-B"} THEN [c EXCEPT !.x = Put(@, x.key, e)] ELSE [c EXCEPT !.i = Put(@, x.key, e)]
       ELSE LET f == FieldOf(c.k, l[2])  v == Sample(f.ty, l[3]) IN
            IF f.mult \in {"req", "opt"} THEN [c EXCEPT !.f[l[2]] = <<v>>]
            ELSE [c EXCEPT !.f[l[2]] = Append(@, v)]

Next ==
    /\ Len(vLines) < Depth
    /\ UNCHANGED vKind
    /\ \E l \in Known(vKind, Len(vLines) + 1) \cup Others :
         /\ vLines' = Append(vLines, l)
         /\ vComp' = Updated(vComp, l)
         /\ Emit(vKind, TextOf(vKind, Append(vLines, l), ""))

-----------------------------------------------------------------------------

Reading(but) == Read(vKind, TextOf(vKind, vLines, but), {})

\* A date alone takes its kind from its text, whatever its parameters.
Safe ==
    /\ LET r == Reading("") IN r.st \in {"ok", "ext"} /\ r.v = vComp
    \* Without one of those required it's an error.
    /\ \A j \in 1..Len(Fields[vKind]) :
         LET f == Fields[vKind][j] IN f.mult = "req" /\ f.name \notin Given => Reading(f.name).st = "bad"
=============================================================================
