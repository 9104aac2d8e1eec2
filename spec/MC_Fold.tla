------------------------------- MODULE MC_Fold -------------------------------
(***************************************************************************)
(* Folding. In the mode "written": the lines whose length is around those  *)
(* where they are folded, with characters of one to four octets there. In  *)
(* the mode "read": a text folded at each place, and at two places, near   *)
(* one another or not.                                                     *)
(***************************************************************************)
EXTENDS Samples, Json

CONSTANTS Mode, Size

VARIABLES vText, vComp

Repeat(c, n) == [j \in 1..n |-> c]
Wide == <<97, 233, 8364, 128512, COMMA, BSL>>
Escape1(c) == IF c \in {COMMA, BSL} THEN <<BSL, c>> ELSE <<c>>

\* A name, the text before, characters of one width, the text after.
Held(name, n, w, k, m, p) ==
    LET t == Repeat(97, n) \o Flatten([j \in 1..k |-> Escape1(Wide[w])]) \o Repeat(98, m)
        ps == IF p = 0 THEN <<>> ELSE <<<<C("P"), Repeat(99, p)>>>>
    IN IF name = "TZID" THEN [Minimal("VTIMEZONE") EXCEPT !.f["TZID"] = <<[p |-> ps, t |-> t]>>]
       ELSE [Minimal("VTIMEZONE") EXCEPT !.x = <<[n |-> C(name), k |-> C(name), p |-> ps, v |-> t]>>]

Around == {75, 150} \cup (IF Size = 2 THEN {225} ELSE {})

WrittenInit ==
    \E name \in {"TZID", "X-A"}, around \in Around, back \in 0..(IF Size = 1 THEN 6 ELSE 12), w \in 1..Len(Wide),
       k \in 1..(IF Size = 1 THEN 2 ELSE 4), m \in {0, 1, 5}, p \in {0, 10} \cup (IF Size = 2 THEN {69, 70, 71, 72} ELSE {}) :
      LET head == Len(C(name)) + 1 + (IF p = 0 THEN 0 ELSE 3 + p)
          n == around - head - back
      IN /\ n >= 0
         /\ vComp = Held(name, n, w, k, m, p)
         /\ vText = WriteComponent(vComp, {})

\* With what may be cut: quotes, separators, escapes, wide characters, a nested component.
Whole == C("BEGIN:VEVENT") \o <<CR, LF>> \o C("DTSTAMP:20240229T235959") \o <<CR, LF>> \o C("UID:u") \o <<CR, LF>> \o C("DTSTART:20240301") \o <<CR, LF>>
         \o C("SUMMARY;L=\"a:b\";M=c:d\\,e ") \o <<233, 128512>> \o <<CR, LF>> \o C("CATEGORIES:a,b") \o <<CR, LF>>
         \o (IF Size = 1 THEN <<>>
             ELSE C("DURATION:-P1D") \o <<CR, LF>> \o C("X-A;B=:; c") \o <<CR, LF>> \o C("BEGIN:VALARM") \o <<CR, LF>> \o C("ACTION:AUDIO") \o <<CR, LF>>
                  \o C("TRIGGER:PT5M") \o <<CR, LF>> \o C("END:VALARM") \o <<CR, LF>>)
         \o C("END:VEVENT") \o <<CR, LF>>

FoldAt(s, i) == Upto(s, i) \o <<CR, LF, SP>> \o From(s, i + 1)

\* A fold within another would not be one.
ReadInit ==
    \E i \in 0..Len(Whole), j \in 0..Len(Whole) :
      /\ i <= j /\ (j - i <= 3 * Size \/ (j - i) % (IF Size = 1 THEN 40 ELSE 8) = 0)
      /\ vText = FoldAt(FoldAt(Whole, j), i)
      /\ vComp = Read("VEVENT", Whole, {}).v

Init == /\ IF Mode = "written" THEN WrittenInit ELSE ReadInit
        /\ PrintT("@@" \o (IF Mode = "written" THEN ToJson(vComp) ELSE ToJson([want |-> "VEVENT", text |-> vText])))
Next == FALSE /\ UNCHANGED <<vText, vComp>>

-----------------------------------------------------------------------------

Safe ==
    /\ Mode = "written" =>
         /\ WellFormedPhysical(vText)
         /\ Written(vComp, vText, {}) = ""
         /\ LET r == Read("VTIMEZONE", vText, {}) IN r.st \in {"ok", "ext"} /\ r.v = vComp
    /\ Mode = "read" =>
         /\ Unfold(vText) = Whole
         /\ LET r == Read("VEVENT", vText, {}) IN r.st = "ok" /\ r.v = vComp
=============================================================================
