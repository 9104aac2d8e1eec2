-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* The life of a component: it's changed, written, read, and replaced by   *)
(* its occurrences.                                                        *)
(***************************************************************************)
EXTENDS Writer, Recur

-----------------------------------------------------------------------------
(* Equality *)

\* Where two components aren't the same.
RECURSIVE Unlike(_, _)
Unlike(a, b) ==
    IF a.k # b.k THEN "kind"
    ELSE LET fields == Fields[a.k]
             bad == SelectInSeq(fields, LAMBDA f : a.f[f.name] # b.f[f.name])
             badsub == SelectInSeq([j \in 1..Len(a.s) |-> j], LAMBDA j :
                      LET as == a.s[j][2]  bs == b.s[j][2] IN
                      Len(as) # Len(bs) \/ \E n \in 1..Len(as) : Unlike(as[n], bs[n]) # "")
         IN IF bad # 0 THEN fields[bad].name
            ELSE IF a.x # b.x THEN "extension properties"
            ELSE IF a.i # b.i THEN "other properties"
            ELSE IF badsub # 0 THEN "components " \o a.s[badsub][1]
            ELSE ""

-----------------------------------------------------------------------------
(* Changes *)

\* A component with a part changed.
Edited(c, e) ==
    CASE e.part = "f" -> [c EXCEPT !.f[e.name] = e.v]
      [] e.part = "x" -> [c EXCEPT !.x = e.v]
      [] e.part = "i" -> [c EXCEPT !.i = e.v]
      [] e.part = "s" -> [c EXCEPT !.s = Now([j \in 1..Len(c.s) |-> IF c.s[j][1] = e.name THEN <<e.name, e.v>> ELSE c.s[j]])]

\* Two texts hold the same, save the lines of these names and these kinds of components.
SameBeside(a, b, beside) ==
    LET names == {C(beside[j]) : j \in 1..Len(beside)}
        kinds == {beside[j] : j \in 1..Len(beside)}
        lines(t) == SelectSeq(t.lines, LAMBDA l : l.key \notin names)
        subs(t) == SelectSeq(t.subs, LAMBDA c : c.k \notin kinds)
    IN a.k = b.k /\ lines(a) = lines(b) /\ subs(a) = subs(b)

-----------------------------------------------------------------------------
(* Occurrences *)

EndName(c) == IF c.k = "VEVENT" THEN "DTEND" ELSE "DUE"
HasEnd(c) == c.k \in {"VEVENT", "VTODO"}
EndOf(c) == IF HasEnd(c) THEN c.f[EndName(c)] ELSE <<>>

\* Without a start or a rule, there are no occurrences.
CanRecur(c) == c.f["DTSTART"] # <<>> /\ c.f["RRULE"] # <<>>
PlanIn(c, zone) == [rule |-> c.f["RRULE"][1], ex |-> c.f["EXDATE"], cand |-> c.f["DTSTART"][1], end |-> EndOf(c), zone |-> zone]

Occurrence(c, s) ==
    [c EXCEPT !.f = TLCEval([name \in DOMAIN c.f |->
        IF name = "DTSTART" THEN <<s.cand>>
        ELSE IF HasEnd(c) /\ name = EndName(c) THEN s.end
        ELSE IF name = "RRULE" THEN <<[c.f["RRULE"][1] EXCEPT !.count = s.cnt]>>
        ELSE c.f[name]])]

\* The state of the machine at the n-th occurrence, from 0 on; over if there is none.
RECURSIVE ToOccurrence(_, _, _)
ToOccurrence(p, s, n) ==
    IF Ended(p, s) THEN End(s)
    ELSE IF Excluded(p, s) THEN ToOccurrence(p, Advance(p, s), n)
    ELSE IF n = 0 THEN s
    ELSE ToOccurrence(p, Advance(p, s), n - 1)
=============================================================================
