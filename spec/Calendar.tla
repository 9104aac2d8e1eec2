------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The civil calendar, dates, date-times and lengths of time.              *)
(*                                                                         *)
(*   <<0, y, m, d>>              a date                                    *)
(*   <<1, y, m, d, h, mi, s>>    a floating date-time                      *)
(*   <<2, y, m, d, h, mi, s>>    an instant, given by its UTC fields       *)
(*   <<neg, days, secs>>         a length, 0 <= secs < 86400, neg is 0/1   *)
(*                                                                         *)
(* A point of the time line is <<day, sec>>, the day being counted from    *)
(* 0000-03-01: numbers stay small, TLC's integers have 32 bits.            *)
(***************************************************************************)
EXTENDS Integers, Sequences

IsLeap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)

DaysIn(y, m) == IF m = 2 THEN IF IsLeap(y) THEN 29 ELSE 28
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

ValidYMD(y, m, d) == m >= 1 /\ m <= 12 /\ d >= 1 /\ d <= DaysIn(y, m)

\* Days since 0000-03-01 (March starts the year: the leap day comes last).
DayNumber(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        mm == IF m <= 2 THEN m + 9 ELSE m - 3
        era == yy \div 400
        yoe == yy % 400
    IN era * 146097 + yoe * 365 + (yoe \div 4) - (yoe \div 100)
         + ((153 * mm + 2) \div 5) + d - 1

\* The date of a day number.
Civil(n) ==
    LET era == n \div 146097
        doe == n % 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        d == doy - ((153 * mp + 2) \div 5) + 1
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
    IN <<y, m, d>>

HasTime(x) == x[1] # 0
KindOf(x) == x[1]
DayOf(x) == DayNumber(x[2], x[3], x[4])
SecOf(x) == IF HasTime(x) THEN x[5] * 3600 + x[6] * 60 + x[7] ELSE 0
Point(x) == <<DayOf(x), SecOf(x)>>

Make(kind, day, sec) ==
    LET c == Civil(day) IN
    IF kind = 0 THEN <<0, c[1], c[2], c[3]>>
    ELSE <<kind, c[1], c[2], c[3], sec \div 3600, (sec \div 60) % 60, sec % 60>>

\* Normal form of a number of days and a (possibly negative) number of seconds.
Norm(day, sec) == <<day + sec \div 86400, sec % 86400>>

\* Moves along the time line, keeping the kind: a date moves by whole days.
Move(x, days, secs) ==
    LET p == Norm(DayOf(x) + days, SecOf(x) + secs) IN Make(x[1], p[1], p[2])

\* A length as a signed pair <<days, 0 <= secs < 86400>>, and back.
Signed(len) == IF len[1] = 0 THEN <<len[2], len[3]>> ELSE Norm(-len[2], -len[3])
Length(days, secs) ==
    LET p == Norm(days, secs) IN
    IF p[1] >= 0 THEN <<0, p[1], p[2]>>
    ELSE LET q == Norm(-p[1], -p[2]) IN <<1, q[1], q[2]>>

\* A date moved by a length moves by the whole days in it.
WholeDays(len) == IF len[1] = 0 THEN len[2] ELSE -len[2]

Plus(x, len) ==
    IF HasTime(x) THEN LET s == Signed(len) IN Move(x, s[1], s[2])
    ELSE Move(x, WholeDays(len), 0)

Neg(len) == IF len[2] = 0 /\ len[3] = 0 THEN len ELSE <<1 - len[1], len[2], len[3]>>

\* From b to a, on the wall clock.
Minus(a, b) == Length(DayOf(a) - DayOf(b), SecOf(a) - SecOf(b))

PairLess(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])

\* Order of lengths.
LengthLess(a, b) == PairLess(Signed(a), Signed(b))

\* Dates compare by day; so does a date with a date-time.
DateLess(a, b) == IF HasTime(a) /\ HasTime(b) THEN PairLess(Point(a), Point(b))
                  ELSE DayOf(a) < DayOf(b)

DateCmp(a, b) == IF DateLess(a, b) THEN -1 ELSE IF DateLess(b, a) THEN 1 ELSE 0
LengthCmp(a, b) == IF LengthLess(a, b) THEN -1 ELSE IF LengthLess(b, a) THEN 1 ELSE 0
=============================================================================
