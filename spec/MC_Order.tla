------------------------------ MODULE MC_Order ------------------------------
(***************************************************************************)
(* Every pair of some dates, or of some periods: their order, what is      *)
(* between them, and what they are converted to.                           *)
(*                                                                         *)
(* Modes: "dates" of all kinds, "lengths" added to them, "periods", and    *)
(* "zones" around the changes of local time zones.  A state is a value and *)
(* another one; what holds for three is checked with each third one.       *)
(***************************************************************************)
EXTENDS Order, Json, IOUtils, FiniteSetsExt

CONSTANTS Mode, Size

VARIABLES vA, vB, vZone, vNear

Big == Size > 1
ZoneTables == IF Mode = "zones" THEN ndJsonDeserialize(IOEnv.ZONES)[1] ELSE [UTC |-> <<>>]

Days == {<<2024, 2, 28>>, <<2024, 2, 29>>, <<2024, 3, 1>>, <<2023, 12, 31>>, <<2024, 1, 1>>, <<2, 1, 1>>}
          \cup (IF Big THEN {<<2023, 2, 28>>, <<2023, 3, 1>>, <<1900, 2, 28>>, <<1900, 3, 1>>, <<2000, 2, 29>>, <<8998, 12, 31>>, <<1969, 12, 31>>, <<1970, 1, 1>>} ELSE {})
Times == {<<0, 0, 0>>, <<0, 0, 1>>, <<23, 59, 59>>} \cup (IF Big THEN {<<12, 0, 0>>, <<0, 1, 0>>, <<1, 0, 0>>} ELSE {<<12, 34, 56>>})
Dates == {<<0>> \o d : d \in Days} \cup {<<k>> \o d \o t : k \in {1, 2}, d \in Days, t \in Times}

Lens == {Length(d, s) : d \in {-31, -1, 0, 1, 7} \cup (IF Big THEN {-366, -365, -7, 2, 31, 365, 366} ELSE {}), s \in {-1, 0, 1} \cup (IF Big THEN {-3600, 60, 86399} ELSE {})}

PeriodDays == {<<k, 2024, 2, 28, 23, 0, 0>> : k \in {1, 2}}
Periods == {<<"se", s, Move(s, 0, n)>> : s \in PeriodDays, n \in {0, 1, 3600, 86400, 90000} \cup (IF Big THEN {-1, -3600, 86399, 172800} ELSE {})}
             \cup {<<"sd", s, l>> : s \in {<<1, 2024, 1, 1, 0, 0, 0>>}, l \in {<<0, 0, 0>>, <<0, 0, 1>>, <<0, 0, 3600>>, <<0, 1, 0>>, <<0, 1, 3600>>} \cup (IF Big THEN {<<0, 0, 86399>>, <<0, 2, 0>>} ELSE {})}

\* Around a change of a zone: instants, and the times shown by the clock before and after it.
Around(z, k) ==
    LET secs == {-3600, -1, 0, 1, 3600} \cup (IF Big THEN {-7200, -1800, 1799, 1800, 3599, 7200, 86400, -86400} ELSE {1800})
        at(n) == Move(z[k][1], 0, n)
        shown(n, j) == AsNaive(Move(at(n), 0, z[j][2]))
    IN {at(n) : n \in secs} \cup {shown(n, k - 1) : n \in secs} \cup {shown(n, k) : n \in secs} \cup {AsDate(shown(0, k)), AsDate(shown(-1, k - 1))}

-----------------------------------------------------------------------------

Op(op, ty, a, b) == [op |-> op, ty |-> ty, a |-> a, b |-> b]
Both(a, b) == HasTime(a) /\ HasTime(b)
PairOps(a, b) ==
    IF Mode = "periods" THEN <<Op("cmp", "Period", a, b)>> \o (IF a[1] = b[1] THEN <<Op("cmp", IF a[1] = "se" THEN "StartEnd" ELSE "StartDur", a, b)>> ELSE <<>>)
    ELSE IF Mode = "lengths"
    THEN <<Op("plus", "Date", a, b)>> \o (IF HasTime(a) THEN <<Op("plus", "DateTime", a, b), Op("minus", "DateTime", a, b)>> ELSE <<>>)
    ELSE <<Op("cmp", "Date", a, b)>> \o (IF Both(a, b) THEN <<Op("cmp", "DateTime", a, b), Op("diff", "DateTime", a, b)>> ELSE <<>>)
AloneOps(a) == IF Mode = "periods" THEN <<[op |-> "pdur", a |-> a]>> ELSE <<[op |-> "conv", a |-> a]>>

Others(near) == IF Mode = "lengths" THEN SetToSeq(Lens) ELSE SetToSeq(near)
ZoneName(z) == IF z = <<>> THEN "UTC" ELSE CHOOSE n \in DOMAIN ZoneTables : ZoneTables[n] = z

\* The first value; the second one is added to it.
Init ==
    /\ CASE Mode \in {"dates", "lengths"} -> vNear = Dates /\ vZone = <<>>
         [] Mode = "periods" -> vNear = Periods /\ vZone = <<>>
         [] Mode = "zones" -> \E name \in DOMAIN ZoneTables : \E k \in 2..Len(ZoneTables[name]) :
                                vZone = ZoneTables[name] /\ vNear = Around(ZoneTables[name], k)
    /\ vA \in vNear
    /\ vB = <<>>
    /\ LET os == Others(vNear) IN
       PrintT("@@" \o ToJson([fam |-> "model", tz |-> ZoneName(vZone), zone |-> vZone,
                              ops |-> AloneOps(vA) \o Flatten([j \in 1..Len(os) |-> PairOps(vA, os[j])])]))

Next ==
    /\ vB = <<>>
    /\ UNCHANGED <<vA, vZone, vNear>>
    /\ vB' \in (IF Mode = "lengths" THEN Lens ELSE vNear)

-----------------------------------------------------------------------------

L(a, b) == Less(a, b, vZone)

Dated == Mode \in {"dates", "zones"} /\ vB # <<>>
\* The kinds which are ordered together: instants, or anything else with them by its clock.
Alike(a, b, c) == HasTime(a) = HasTime(b) /\ HasTime(b) = HasTime(c) /\ (vZone = <<>> \/ (a[1] = b[1] /\ b[1] = c[1]))

Ordered ==
    Dated =>
      /\ ~(L(vA, vB) /\ L(vB, vA))
      /\ vA = vB => ~L(vA, vB)
      /\ Cmp("Date", vA, vB, vZone) = -Cmp("Date", vB, vA, vZone)
      \* Two of a kind are equal in the order only if they are the same.
      /\ vA[1] = vB[1] /\ vA # vB => L(vA, vB) \/ L(vB, vA)
      /\ \A c \in vNear : Alike(vA, vB, c) =>
            /\ L(vA, vB) /\ L(vB, c) => L(vA, c)
            /\ L(vA, vB) => L(vA, c) \/ L(c, vB)
      \* A date is before all the times of the next day, after those of the day before, and with those of its own.
      /\ HasTime(vA) # HasTime(vB) => (L(vA, vB) <=> DayOf(Wall(vA, vZone)) < DayOf(Wall(vB, vZone)))

\* The difference is negative before, null at the same time; adding it gives the other back.
Subtracted ==
    Dated /\ Both(vA, vB) =>
      LET d == Between(vA, vB, vZone) IN
      /\ (d[1] = 1) = L(vA, vB)
      /\ (d = <<0, 0, 0>>) = (~L(vA, vB) /\ ~L(vB, vA))
      /\ Between(vB, vA, vZone) = Neg(d)
      /\ vA[1] = vB[1] => Plus(vB, d) = vA

Added ==
    Mode = "lengths" /\ vB # <<>> =>
      /\ HasTime(vA) => /\ Minus(Plus(vA, vB), vA) = vB
                        /\ Plus(Plus(vA, vB), Neg(vB)) = vA
                        /\ DateLess(vA, Plus(vA, vB)) = (vB[1] = 0 /\ vB # <<0, 0, 0>>)
      /\ Plus(vA, vB)[1] = vA[1]
      /\ ValidYMD(Plus(vA, vB)[2], Plus(vA, vB)[3], Plus(vA, vB)[4])
      /\ \A l \in Lens : HasTime(vA) /\ LengthLess(vB, l) => DateLess(Plus(vA, vB), Plus(vA, l))
      /\ ~HasTime(vA) /\ vB[3] = 0 => Minus(Plus(vA, vB), vA) = vB

Converted ==
    Mode # "periods" =>
      /\ AsDate(AsDateTime(vA)) = AsDate(vA)
      /\ HasTime(vA) => AsDateTime(vA) = vA
      /\ ~HasTime(vA) => SecOf(AsDateTime(vA)) = 0
      /\ Clock(AsNaive(vA), vZone) = AsNaive(vA)
      /\ Civil(DayOf(vA)) = <<vA[2], vA[3], vA[4]>>

\* A time of the clock is that of none, one or two instants, and each instant has one.
Clocked ==
    Mode = "zones" =>
      LET ts == Instants(vA, vZone) IN
      /\ Cardinality(ts) <= 2
      /\ vA[1] = 1 => \A t \in ts : Clock(t, vZone) = vA
      /\ vA[1] = 2 => vA \in Instants(Clock(vA, vZone), vZone)
      \* A second of the clock which is shown twice or never is one of those around a change.
      /\ vA[1] = 1 /\ Cardinality(ts) # 1 =>
           \E k \in 2..Len(vZone) : \E j \in {k - 1, k} :
               LET t == Move(AsInstant(vA), 0, -vZone[j][2]) IN
               Between(t, vZone[k][1], <<>>)[2] <= 1
      \* The clock goes back at a change by as much as the offset does.
      /\ \A k \in 2..Len(vZone) :
            Minus(Wall(vZone[k][1], vZone), Wall(Move(vZone[k][1], 0, -1), vZone)) = Length(0, vZone[k][2] - vZone[k - 1][2] + 1)

Periodic ==
    Mode = "periods" /\ vB # <<>> =>
      LET c == Cmp("Period", vA, vB, vZone)  l == PeriodLength(vA, vZone) IN
      /\ c = -Cmp("Period", vB, vA, vZone)
      /\ c = 0 <=> l = PeriodLength(vB, vZone)
      /\ vA[1] = "se" => Plus(vA[2], l) = vA[3]
      \* Written with its length, it's as long.
      /\ Cmp("Period", <<"sd", vA[2], l>>, vB, vZone) = c
      /\ \A p \in Periods : c <= 0 /\ Cmp("Period", vB, p, vZone) <= 0 => Cmp("Period", vA, p, vZone) <= 0

Safe == Ordered /\ Subtracted /\ Added /\ Converted /\ Clocked /\ Periodic
=============================================================================
