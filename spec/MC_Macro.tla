------------------------------ MODULE MC_Macro ------------------------------
(***************************************************************************)
(* The fields named in a macro, one after the other, each one by a text, a *)
(* value or a list of them.                                                *)
(*                                                                         *)
(* What is made is compared with the component whose fields are set by     *)
(* hand as they are named, with the one named in the reverse order, and    *)
(* with the one which is read from the same properties.                    *)
(***************************************************************************)
EXTENDS Samples, Macro

CONSTANTS Of, Depth, Each

VARIABLES vKind, vEntries, vHand

\* The fields as they are when none is named.
Blank(kind) ==
    [Minimal(kind) EXCEPT !.f = [name \in FieldNames(kind) |->
        LET f == FieldOf(kind, name) IN IF f.mult = "req" THEN <<DefaultValue(kind, f)>> ELSE <<>>]]

\* A text says the same as the value, for these types.
Said == {"TEXT", "URI", "DT", "DOD", "DUR", "GEO", "RRULE", "RSTATUS", "TRIGGER", "OFFSET"}
Words(ty, v) == IF ty \in {"TEXT", "URI"} THEN v.t ELSE WriteValue(ty, v)
\* The macros give no parameters to a text.
Plain(ty, v) == IF ty \in {"TEXT", "URI"} THEN Text(v.t) ELSE v

Multiple(f) == f.mult \in {"many", "append"}
\* A recurrence date is one line, and a list of them is one value for each.
Ways(f) ==
    LET at(n) == Sample(f.ty, n)
        few == IF Each < Count(f.ty) THEN Each ELSE Count(f.ty)
        one(n) == {<<<<<<"val", at(n)>>>>, <<at(n)>>>>}
                  \cup IF f.ty \in Said THEN {<<<<<<"str", Words(f.ty, at(n))>>>>, <<Plain(f.ty, at(n))>>>>} ELSE {}
    IN IF Multiple(f)
       THEN UNION {one(n) : n \in 1..few}
            \cup {<<<<<<"list", <<at(1), at(2)>>>>>>, <<at(1), at(2)>>>>, <<<<<<"list", <<>>>>>>, <<>>>>}
            \cup IF f.ty \in Said
                 THEN {<<<<<<"str", Words(f.ty, at(2))>>, <<"val", at(1)>>>>, <<Plain(f.ty, at(2)), at(1)>>>>} ELSE {}
       ELSE UNION {one(n) : n \in 1..few}
            \cup IF f.mult = "opt" THEN {<<<<<<"opt", <<at(1)>>>>>>, <<at(1)>>>>, <<<<<<"opt", <<>>>>>>, <<>>>>} ELSE {}

Named == {vEntries[j].n : j \in 1..Len(vEntries)}

Init == vKind \in Of /\ vEntries = <<>> /\ vHand = Blank(vKind)

Next ==
    /\ Len(vEntries) < Depth
    /\ UNCHANGED vKind
    /\ \E j \in 1..Len(Fields[vKind]) :
         LET f == Fields[vKind][j] IN
         /\ f.name \notin Named \cup {"ACTION"}
         \* In one order of the fields: the others are the reverse of these, or begin with one of these.
         /\ \E w \in Ways(f) :
              /\ vEntries' = Append(vEntries, [n |-> f.name, v |-> w[1]])
              /\ vHand' = [vHand EXCEPT !.f[f.name] = w[2]]

-----------------------------------------------------------------------------

\* A text which isn't one of the type makes it an error, wherever it is.
Others(kind) == {f \in {Fields[kind][j] : j \in 1..Len(Fields[kind])} : f.ty \in Said \ {"TEXT", "URI"} /\ f.name \notin Named}

Safe ==
    LET m == Made(vKind, vEntries) IN
    /\ m.st \in {"ok", "ext"} /\ m.v = vHand
    /\ Made(vKind, Reverse(vEntries)) = m
    /\ \A f \in Others(vKind), s \in {<<>>, C("?"), C("20240230"), C("FREQ=")} :
         Made(vKind, Append(vEntries, [n |-> f.name, v |-> <<<<"str", s>>>>])).st \in {"bad", "free"}
    \* What isn't named is blank.
    /\ \A name \in FieldNames(vKind) \ Named : m.v.f[name] = Blank(vKind).f[name]
    /\ m.v.x = <<>> /\ m.v.i = <<>> /\ \A j \in 1..Len(m.v.s) : m.v.s[j][2] = <<>>
    \* Written then read, it's what it spells out: its texts are in their escaped form.
    /\ LET r == Read(vKind, WriteComponent(m.v, {}), {}) IN r.st \in {"ok", "ext"} /\ Differs(m.v, r.v) = ""
=============================================================================
