------------------------------- MODULE Order -------------------------------
(***************************************************************************)
(* Order, conversions and arithmetic of dates, periods and lengths.        *)
(***************************************************************************)
EXTENDS Zone

\* A length with -1 or 1 as sign.
PeriodLength(p, zone) == IF p[1] = "sd" THEN p[3] ELSE Between(p[3], p[2], zone)

Weekdays == <<"MO", "TU", "WE", "TH", "FR", "SA", "SU">>
Freqs == <<"SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY">>
RankOf(s, x) == CHOOSE j \in 1..Len(s) : s[j] = x
IntCmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0

\* -1, 0 or 1.
Cmp(ty, a, b, zone) ==
    CASE ty \in {"Date", "DateTime"} -> IF Less(a, b, zone) THEN -1 ELSE IF Less(b, a, zone) THEN 1 ELSE 0
      [] ty \in {"Period", "StartEnd", "StartDur"} -> LengthCmp(PeriodLength(a, zone), PeriodLength(b, zone))
      [] ty = "Freq" -> IntCmp(RankOf(Freqs, a), RankOf(Freqs, b))

\* Equality isn't the order: a date isn't equal to a date-time of its day.
SameThing(ty, a, b) ==
    IF ty \in {"Period", "StartEnd", "StartDur"} THEN a[1] = b[1] /\ a = b
    ELSE IF ty \in {"Date", "DateTime"} THEN a[1] = b[1] /\ a = b
    ELSE a = b

=============================================================================
