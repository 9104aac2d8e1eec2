------------------------------ MODULE MC_Recur ------------------------------
(***************************************************************************)
(* Every recurrence of some sets, step by step.                            *)
(*                                                                         *)
(* The machine, which goes from candidate to candidate, is compared with   *)
(* the k-th candidate computed directly and with the list of occurrences   *)
(* filtered from these; the guarantees which are read in the properties    *)
(* are checked on the occurrences so far.                                  *)
(*                                                                         *)
(* Modes: "steps" the rules and the starts, "bounds" their counts, limits  *)
(* and excluded dates, "ends" the ends and due dates, "windows" what is    *)
(* asked, "zones" all of these for instants around the changes of zones.   *)
(***************************************************************************)
EXTENDS Recur, Json, IOUtils, FiniteSetsExt

CONSTANTS Mode, Size, Depth

VARIABLES vPlan, vWin, vSt, vAt, vOut, vShut

\* The zones: name -> changes.
ZoneTables == IF Mode = "zones" THEN ndJsonDeserialize(IOEnv.ZONES)[1] ELSE [UTC |-> <<>>]

AllFreqs == {"SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"}
Rule(f, n, until, count) ==
    [freq |-> f, until |-> until, count |-> count, interval |-> n, by |-> [j \in 1..8 |-> <<>>], byday |-> <<>>, wkst |-> <<>>]
PlanOf(rule, s, ex, end, z) == [rule |-> rule, ex |-> ex, cand |-> s, end |-> end, zone |-> z]
Of(kind, x) == IF kind = 0 THEN AsDate(x) ELSE [AsDateTime(x) EXCEPT ![1] = kind]

-----------------------------------------------------------------------------
(* The k-th candidate, from 0 on, without the ones before. *)

UnitSeconds == [SECONDLY |-> 1, MINUTELY |-> 60, HOURLY |-> 3600]
RECURSIVE Nth(_, _, _)
Nth(rule, s, k) ==
    IF k = 0 THEN s
    ELSE IF rule.freq \in SubDaily THEN Move(Midnight(s), 0, k * StepOf(rule) * UnitSeconds[rule.freq])
    ELSE IF rule.freq \in {"DAILY", "WEEKLY"} THEN Move(s, k * StepOf(rule) * (IF rule.freq = "DAILY" THEN 1 ELSE 7), 0)
    ELSE LET months == StepOf(rule) * (IF rule.freq = "YEARLY" THEN 12 ELSE 1)
             \* Of the next multiples of the interval, the k-th one which has such a day.
             year(m) == (s[2] * 12 + s[3] - 1 + m * months) \div 12
             month(m) == ((s[2] * 12 + s[3] - 1 + m * months) % 12) + 1
             has(m) == ValidYMD(year(m), month(m), s[4])
             m == IF s[4] <= 28 THEN k ELSE SelectSeq([m \in 1..(20 * k + 20) |-> m], has)[k]
         IN [s EXCEPT ![2] = year(m), ![3] = month(m)]

\* A date next to the k-th candidate.
Near(rule, s, k, kind, secs) == Of(kind, Move(AsDateTime(Nth(rule, s, k)), 0, secs))

-----------------------------------------------------------------------------
(* What is explored *)

Big == Size > 1

StepStarts ==
    LET days == IF Big THEN {<<y, md[1], md[2]>> : y \in {1899, 1999, 2000, 2023, 2024, 2096}, md \in {<<1, 1>>, <<1, 29>>, <<1, 30>>, <<1, 31>>, <<2, 28>>, <<3, 31>>, <<8, 31>>, <<12, 31>>}}
                               \cup {<<y, 2, 29>> : y \in {1600, 1896, 2000, 2024, 2096}}
                ELSE {<<2023, 1, 29>>, <<2024, 1, 30>>, <<2024, 1, 31>>, <<2024, 2, 29>>, <<1999, 12, 31>>, <<2100, 2, 28>>}
    IN {<<0>> \o d : d \in days} \cup {<<k>> \o d \o <<23, 59, 59>> : k \in {1, 2}, d \in days}
StepIntervals == IF Big THEN {0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 13, 24, 25, 48, 60, 100, 127, 128, 200, 255} ELSE {0, 1, 2, 12, 255}

Chosen(rule, s, ex, end, z, w) == vPlan = PlanOf(rule, s, ex, end, z) /\ vWin = w

InitSteps ==
    \E f \in AllFreqs, n \in StepIntervals, s \in StepStarts :
        Chosen(Rule(f, n, <<>>, <<>>), s, <<>>, <<>>, <<>>, <<"all">>)

BoundStarts == {<<0, 2024, 1, 31>>, <<1, 2023, 12, 31, 23, 59, 59>>, <<2, 2024, 2, 29, 0, 0, 0>>}
BoundFreqs == IF Big THEN AllFreqs ELSE {"HOURLY", "DAILY", "MONTHLY"}
BoundCounts == {<<>>} \cup {<<n>> : n \in IF Big THEN 0..3 ELSE {0, 1, 3}}
Limits(r, s) ==
    {<<>>} \cup {<<Near(r, s, k, kind, secs)>> : k \in 0..2, kind \in 0..2, secs \in IF s[1] = 0 /\ ~Big THEN {0} ELSE {-1, 0, 1}}
Excluding(r, s) ==
    LET all == {Nth(r, s, k) : k \in 0..2} IN
    {SetToSeq(x) : x \in SUBSET all} \cup {<<Of(1, Nth(r, s, 1)), Of(2, Nth(r, s, 1))>>, <<Nth(r, s, 1), Nth(r, s, 1), AsDate(Nth(r, s, 2))>>}

InitBounds ==
    \E f \in BoundFreqs, n \in (IF Big THEN {1, 2} ELSE {1}), s \in BoundStarts :
        \E rule \in {Rule(f, n, <<>>, <<>>)} :
            \E u \in Limits(rule, s), c \in BoundCounts, x \in Excluding(rule, s) :
                Chosen([rule EXCEPT !.until = u, !.count = c], s, x, <<>>, <<>>, <<"all">>)

InitEnds ==
    \E f \in AllFreqs, n \in {1, 2}, s \in BoundStarts, c \in {<<>>, <<3>>}, x \in {<<>>, <<<<2, 2024, 3, 1, 0, 0, 0>>, <<0, 2024, 2, 1>>>>},
       kind \in 0..2, secs \in (IF Big THEN {0, 1, 3600, 86399, 86400, 2678400, -1, -3600, -86400} ELSE {0, 3600, 86400, -3600}) :
        Chosen(Rule(f, n, <<>>, c), s, x, <<Of(kind, Move(AsDateTime(s), 0, secs))>>, <<>>, <<"all">>)

\* A date recurring within the day isn't compared with bounds having a time.
Comparable(r, s, kind) == ~(s[1] = 0 /\ kind # 0 /\ r.freq \in SubDaily)

Windows(r, s) ==
    LET ds == {Near(r, s, k, kind, secs) : k \in 0..2, kind \in {x \in 0..2 : Comparable(r, s, x)}, secs \in IF Big THEN {-1, 0, 1} ELSE {-1, 0}}
    IN {<<"all">>} \cup {<<"after", a>> : a \in ds} \cup {<<"at", a>> : a \in ds} \cup {<<"between", a, b>> : a \in ds, b \in ds}

InitWindows ==
    \E f \in BoundFreqs, s \in BoundStarts :
        \E rule \in {Rule(f, 1, <<>>, <<>>)} :
            \E w \in Windows(rule, s), c \in {<<>>, <<2>>}, x \in {<<>>, <<Nth(rule, s, 1)>>} :
                Chosen([rule EXCEPT !.count = c], s, x, <<>>, <<>>, w)

\* Instants before each change of a zone, so that an occurrence is at the change or about.
InitZones ==
    \E name \in DOMAIN ZoneTables : \E k \in 2..Len(ZoneTables[name]) :
    \E f \in {"MINUTELY", "HOURLY", "DAILY"}, n \in {1, 30}, shift \in (IF Big THEN {-1, 0, 1, 1800} ELSE {0}) :
        \E z \in {ZoneTables[name]}, rule \in {Rule(f, n, <<>>, <<>>)} :
        \E s \in {Move(z[k][1], 0, shift - 2 * (IF f = "DAILY" THEN 86400 ELSE n * UnitSeconds[f]))} :
            LET c(j) == Nth(rule, s, j)
                local(j) == Clock(c(j), z)
            IN \E u \in {<<>>, <<c(2)>>, <<local(2)>>, <<AsDate(local(2))>>},
                  x \in {<<>>, <<c(1), local(2)>>},
                  w \in {<<"all">>, <<"between", c(1), local(3)>>, <<"after", local(2)>>, <<"at", AsDate(local(1))>>} :
                Chosen([rule EXCEPT !.until = u, !.count = <<6>>], s, x, <<Move(s, 0, 5400)>>, z, w)

-----------------------------------------------------------------------------

\* Not beyond the years which can be written.
StepsOf(plan) ==
    LET far == IF plan.rule.freq = "YEARLY" THEN 400 \div StepOf(plan.rule) ELSE Depth IN
    IF far < 2 THEN 2 ELSE IF far < Depth THEN far ELSE Depth

ZoneName(z) == IF z = <<>> THEN "UTC" ELSE CHOOSE n \in DOMAIN ZoneTables : ZoneTables[n] = z

Init ==
    /\ CASE Mode = "steps" -> InitSteps
         [] Mode = "bounds" -> InitBounds
         [] Mode = "ends" -> InitEnds
         [] Mode = "windows" -> InitWindows
         [] Mode = "zones" -> InitZones
    /\ vSt = StartRecur(vPlan) /\ vAt = 0 /\ vOut = <<>> /\ vShut = FALSE
    /\ PrintT("@@" \o ToJson([rule |-> vPlan.rule, ex |-> vPlan.ex, start |-> vPlan.cand, end |-> vPlan.end,
                              w |-> vWin, n |-> StepsOf(vPlan), tz |-> ZoneName(vPlan.zone), zone |-> vPlan.zone]))

\* Skips a candidate, emits it, or stops.
Next ==
    /\ ~vShut /\ Len(vOut) < StepsOf(vPlan)
    /\ UNCHANGED <<vPlan, vWin>>
    /\ IF Ended(vPlan, vSt) \/ Past(vWin, vSt.cand, vPlan.zone)
       THEN vShut' = TRUE /\ UNCHANGED <<vSt, vAt, vOut>>
       ELSE /\ vSt' = Advance(vPlan, vSt)
            /\ vAt' = vAt + 1
            /\ vShut' = FALSE
            /\ vOut' = IF Excluded(vPlan, vSt) \/ Before(vWin, vSt.cand, vPlan.zone) THEN vOut
                       ELSE Append(vOut, [k |-> vAt, d |-> vSt.cand, end |-> vSt.end, cnt |-> vSt.cnt])

-----------------------------------------------------------------------------

zone == vPlan.zone
r == vPlan.rule
s0 == vPlan.cand

\* The k-th candidate is within the bounds, and is an occurrence.
Within(k) ==
    /\ \A j \in 1..Len(r.count) : k < r.count[j]
    /\ \A j \in 1..Len(r.until) : ~Less(r.until[j], Nth(r, s0, k), zone)
    /\ vWin[1] = "between" => Less(Nth(r, s0, k), vWin[3], zone)
    /\ vWin[1] = "at" => Less(Nth(r, s0, k), Plus(vWin[2], <<0, 1, 0>>), zone)
Wanted(k) ==
    /\ \A j \in 1..Len(vPlan.ex) : vPlan.ex[j] # Nth(r, s0, k)
    /\ vWin[1] # "all" => ~Less(Nth(r, s0, k), vWin[2], zone)

\* The machine is at the candidate computed directly, and has emitted what is wanted of those before.
Direct ==
    /\ vSt.cand = Nth(r, s0, vAt)
    /\ vAt = 0 \/ Within(vAt - 1)
    /\ vShut => ~Within(vAt)
    /\ [j \in 1..Len(vOut) |-> vOut[j].k] = SelectSeq([j \in 1..vAt |-> j - 1], Wanted)
    \* Those before were checked as they were emitted.
    /\ vOut = <<>> \/ vOut[Len(vOut)].d = Nth(r, s0, vOut[Len(vOut)].k)

\* Later and later, and of the same kind.
Increasing ==
    \A j \in 2..Len(vOut) :
        /\ DateLess(vOut[j - 1].d, vOut[j].d) \/ (~HasTime(s0) /\ r.freq \in SubDaily)
        /\ vOut[j].d[1] = (IF s0[1] = 0 /\ r.freq \in SubDaily THEN 1 ELSE s0[1])

\* Each candidate is exactly one interval later; months and years keep the day and the time.
Spaced ==
    LET to == NextCandidate(r, vSt.cand) IN
    IF r.freq \in Exact
    THEN Minus(to, vSt.cand) = Length(IF r.freq = "DAILY" THEN StepOf(r) ELSE IF r.freq = "WEEKLY" THEN 7 * StepOf(r) ELSE 0,
                                      IF r.freq \in SubDaily THEN StepOf(r) * UnitSeconds[r.freq] ELSE 0)
    ELSE SubSeq(to, 4, Len(to)) = SubSeq(vSt.cand, 4, Len(to)) /\ (r.freq = "YEARLY" => to[3] = vSt.cand[3])

\* The count is that of the candidates.
Counted ==
    /\ \A j \in 1..Len(vOut) : \A m \in 1..Len(r.count) : vOut[j].cnt = <<r.count[m] - vOut[j].k>>
    /\ \A m \in 1..Len(r.count) : Len(vOut) <= r.count[m]
    /\ r.count = <<>> /\ r.until = <<>> /\ vWin[1] \in {"all", "after"} => ~vShut

\* The limit is included, and no occurrence is later.
Limited ==
    \A j \in 1..Len(vOut) : \A m \in 1..Len(r.until) : ~Less(r.until[m], vOut[j].d, zone)

\* The length is kept.
Kept ==
    \A j \in 1..Len(vOut) : \A m \in 1..Len(vPlan.end) :
        LooseEnd(r, s0, vPlan.end[m])
        \/ Minus(Midnight(vOut[j].end[m]), Midnight(vOut[j].d)) = Minus(Midnight(vPlan.end[m]), Midnight(s0))

\* What is computed from an occurrence is the rest.
Resumed ==
    \A j \in {1, Len(vOut)} \ {0} : vOut = <<>> \/ Nth(r, vOut[j].d, vAt - vOut[j].k) = vSt.cand

\* All is within the window.
Windowed ==
    \A j \in 1..Len(vOut) :
        /\ vWin[1] \in {"between", "after", "at"} => ~Less(vOut[j].d, vWin[2], zone)
        /\ vWin[1] = "between" => Less(vOut[j].d, vWin[3], zone)
        /\ vWin[1] = "at" => Less(vOut[j].d, Plus(vWin[2], <<0, 1, 0>>), zone)

Safe == Direct /\ Increasing /\ Spaced /\ Counted /\ Limited /\ Kept /\ Resumed /\ Windowed
=============================================================================
