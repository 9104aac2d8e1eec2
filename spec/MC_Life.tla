------------------------------ MODULE MC_Life ------------------------------
(***************************************************************************)
(* The lives of components of one kind: from a minimal or a full one,      *)
(* sequences of changes, of writing then reading, and of taking an         *)
(* occurrence.                                                             *)
(*                                                                         *)
(* What a step doesn't change stays, in the component, in the text and in  *)
(* the recurrence.                                                         *)
(***************************************************************************)
EXTENDS Samples, Life, Json

CONSTANTS Of, From1, Depth, Alt, Only

\* The component, what it was before the last step, what this step changed, the steps.
VARIABLES vComp, vPrev, vNames, vLog, vStep

Entry1(name, p, v) == [n |-> C(name), k |-> C(name), p |-> p, v |-> C(v)]
Inside(wire) == IF wire = "VALARM" THEN {"AUDIO", "EMAIL"} ELSE {wire}
Known1(kind, n) == [Minimal(kind) EXCEPT !.x = <<Entry1("X-N", <<>>, ToString(n))>>]

Daily == [NoRule EXCEPT !.count = <<3>>]
Recurring == {"VEVENT", "VTODO", "VJOURNAL"}

\* Each property with its second sample, twice those which take several.
Full(kind) ==
    [Minimal(kind) EXCEPT
       !.f = [name \in FieldNames(kind) |->
                LET f == FieldOf(kind, name) IN
                CASE name = "ACTION" -> <<Text(C(kind))>>
                  [] name = "RECURRENCE-ID" -> <<>>
                  [] name = "RRULE" -> <<Daily>>
                  [] f.mult \in {"many", "append"} -> <<Sample(f.ty, 2), Sample(f.ty, 1)>>
                  [] OTHER -> <<Sample(f.ty, 2)>>],
       !.x = <<Entry1("X-A", <<>>, "1")>>,
       !.i = <<Entry1("A", <<<<C("P"), C("a:b")>>>>, ":;,")>>,
       !.s = [j \in 1..Len(Subs[kind]) |-> <<Subs[kind][j], <<Known1(CHOOSE k \in Inside(Subs[kind][j]) : TRUE, j)>>>>]]

\* What a field may become.
ValuesOf(f) ==
    (IF f.mult = "req" THEN {} ELSE {<<>>})
      \cup {<<Sample(f.ty, 3 + n)>> : n \in 0..(Alt - 1)}
      \cup (IF f.name = "RRULE" THEN {<<Daily>>} ELSE {})
      \cup (IF f.mult \in {"many", "append"} THEN {<<Sample(f.ty, 3), Sample(f.ty, 1)>>} ELSE {})

AllChanges(kind) ==
    UNION { {[op |-> "set", part |-> "f", name |-> Fields[kind][j].name, v |-> vs] : vs \in ValuesOf(Fields[kind][j])} :
              j \in {j \in 1..Len(Fields[kind]) : Fields[kind][j].name \notin {"ACTION", "RECURRENCE-ID"}} }
    \cup {[op |-> "set", part |-> "x", name |-> "x", v |-> es] : es \in {<<>>, <<Entry1("X-A", <<>>, "2"), Entry1("X-B", <<>>, "")>>}}
    \cup {[op |-> "set", part |-> "i", name |-> "i", v |-> es] : es \in {<<>>, <<Entry1("A", <<>>, "q")>>}}
    \cup UNION { UNION { {[op |-> "set", part |-> "s", name |-> Subs[kind][j], v |-> cs] : cs \in {<<>>, <<Known1(k, 7), Known1(k, 8)>>}} :
                         k \in Inside(Subs[kind][j]) } : j \in 1..Len(Subs[kind]) }

\* Only some of them, or all.
Changes(kind) == {e \in AllChanges(kind) : Only = {} \/ e.name \in Only}

\* The names of the lines which a change may change.
NamesOf(e, c) == CASE e.part = "f" -> <<e.name>>
                   [] e.part = "x" -> <<"X-A", "X-B">>
                   [] e.part = "i" -> <<"A">>
                   [] e.part = "s" -> <<WireName(e.name)>>

\* One which recurs.
Repeating(kind) ==
    LET c == Minimal(kind) IN
    [c EXCEPT !.f = [name \in DOMAIN c.f |->
        CASE name = "DTSTART" -> <<Dt1>>
          [] name = "RRULE" -> <<Daily>>
          [] name \in {"DTEND", "DUE"} -> <<Plus(Dt1, <<0, 0, 90>>)>>
          [] name = "EXDATE" -> <<Plus(Dt1, <<0, 1, 0>>)>>
          [] OTHER -> c.f[name]]]

Init ==
    /\ \E k \in Of : \E start \in From1 :
          vComp = CASE start = "full" -> Full(k) [] start = "recurring" -> Repeating(k) [] start = "min" -> Minimal(k)
    /\ vPrev = vComp /\ vNames = <<>> /\ vStep = "start"
    /\ vLog = <<[op |-> "build", c |-> vComp]>>

Change ==
    \E e \in Changes(vComp.k) :
        /\ Edited(vComp, e) # vComp
        /\ vComp' = Edited(vComp, e)
        /\ vNames' = NamesOf(e, vComp)
        /\ vLog' = Append(vLog, e)
        /\ vStep' = "change"

Cycle ==
    /\ vStep # "cycle"
    /\ vComp' = Read(vComp.k, WriteComponent(vComp, {}), {}).v
    /\ vNames' = <<>>
    /\ vLog' = Append(vLog, [op |-> "cycle"])
    /\ vStep' = "cycle"

Take ==
    /\ vComp.k \in Recurring
    /\ CanRecur(vComp)
    /\ \E n \in {0, 1, 2} :
         LET s == ToOccurrence(PlanIn(vComp, <<>>), StartRecur(PlanIn(vComp, <<>>)), n) IN
         /\ ~s.over
         \* Not beyond the years which can be written.
         /\ GoodDate(s.cand) /\ \A j \in 1..Len(s.end) : GoodDate(s.end[j])
         /\ vComp' = Occurrence(vComp, s)
         /\ vNames' = <<"DTSTART", "DTEND", "DUE", "RRULE">>
         /\ vLog' = Append(vLog, [op |-> "take", n |-> n])
         /\ vStep' = "take"

Next ==
    /\ Len(vLog) <= Depth
    /\ vPrev' = vComp
    /\ Change \/ Cycle \/ Take
    /\ Len(vLog') <= Depth \/ PrintT("@@" \o ToJson(vLog'))

-----------------------------------------------------------------------------

Without(c, names) == [name \in FieldNames(c.k) \ {names[j] : j \in 1..Len(names)} |-> c.f[name]]

\* What isn't named stays in the component...
Framed ==
    /\ vStep # "cycle" => Without(vComp, vNames) = Without(vPrev, vNames)
    /\ vStep = "take" => vComp.x = vPrev.x /\ vComp.i = vPrev.i /\ vComp.s = vPrev.s

\* ... and in the text.
TextFrame ==
    LET a == Raw(WriteComponent(vPrev, {}))
        b == Raw(WriteComponent(vComp, {}))
    IN a.ok /\ b.ok /\ SameBeside(a.tree, b.tree, vNames)

\* The first occurrences.
RECURSIVE Some(_, _, _)
Some(p, s, n) ==
    LET t == ToOccurrence(p, s, 0) IN
    IF n = 0 \/ t.over THEN <<>>
    ELSE <<[d |-> t.cand, end |-> t.end, cnt |-> t.cnt]>> \o Some(p, Advance(p, t), n - 1)
Occurrences(c, n) == IF CanRecur(c) THEN Some(PlanIn(c, <<>>), StartRecur(PlanIn(c, <<>>)), n) ELSE <<>>

Bearing == {"DTSTART", "DTEND", "DUE", "RRULE", "EXDATE"}

\* The recurrence isn't changed by anything else, and goes on from what is taken.
Recurrence ==
    vComp.k \in Recurring =>
    LET here == Occurrences(vComp, 2) IN
    /\ vStep = "take" =>
         LET n == vLog[Len(vLog)].n
             all == Occurrences(vPrev, n + 2)
         IN here = SubSeq(all, n + 1, Len(all))
    /\ vStep # "take" /\ (\A j \in 1..Len(vNames) : vNames[j] \notin Bearing) => here = Occurrences(vPrev, 2)

\* Writing and reading changes nothing, at any time.
Stable == vStep = "cycle" => /\ Differs(vPrev, vComp) = "" /\ WriteComponent(vComp, {}) = WriteComponent(vPrev, {})

Safe == Framed /\ TextFrame /\ Recurrence /\ Stable
=============================================================================
