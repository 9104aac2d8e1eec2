------------------------------- MODULE Recur -------------------------------
(***************************************************************************)
(* Recurring components: a machine going from candidate to candidate.      *)
(*                                                                         *)
(* Its state is [cand, end, cnt, over]: the next candidate start, the end  *)
(* or due date moved along, how many candidates remain (<<>> without       *)
(* COUNT) and whether it has ended.  Each candidate is emitted or excluded *)
(* and the machine goes to the next one, one interval later.               *)
(*                                                                         *)
(* A plan is [rule, ex, cand, end, zone]: the rule, the excluded dates,    *)
(* the start and the end, as sequences of at most one where they are       *)
(* optional, and the local time zone.                                      *)
(***************************************************************************)
EXTENDS Zone

StepOf(rule) == IF rule.interval = 0 THEN 1 ELSE rule.interval

SubDaily == {"SECONDLY", "MINUTELY", "HOURLY"}
Exact == SubDaily \cup {"DAILY", "WEEKLY"}

\* The same day of the month, months later, or a multiple of months if there is no such day.
RECURSIVE SameDayLater(_, _, _)
SameDayLater(x, months, k) ==
    LET n == (x[2] * 12) + (x[3] - 1) + (months * k)
        y == n \div 12
        m == (n % 12) + 1
    IN IF x[4] <= DaysIn(y, m) THEN [x EXCEPT ![2] = y, ![3] = m] ELSE SameDayLater(x, months, k + 1)

Midnight(x) == IF HasTime(x) THEN x ELSE <<1, x[2], x[3], x[4], 0, 0, 0>>

NextCandidate(rule, x) ==
    LET n == StepOf(rule) IN
    CASE rule.freq = "SECONDLY" -> Move(Midnight(x), 0, n)
      [] rule.freq = "MINUTELY" -> Move(Midnight(x), 0, n * 60)
      [] rule.freq = "HOURLY" -> Move(Midnight(x), 0, n * 3600)
      [] rule.freq = "DAILY" -> Move(x, n, 0)
      [] rule.freq = "WEEKLY" -> Move(x, n * 7, 0)
      [] rule.freq = "MONTHLY" -> SameDayLater(x, n, 1)
      [] rule.freq = "YEARLY" -> SameDayLater(x, n * 12, 1)

\* The end moves as far as the start does.
MovedEnd(end, from, to) ==
    Plus(IF HasTime(from) = HasTime(to) THEN end ELSE Midnight(end), Minus(to, from))

\* A date can't follow a start which moves by less than a day.
LooseEnd(rule, start, end) == ~HasTime(end) /\ HasTime(start) /\ rule.freq \in SubDaily

-----------------------------------------------------------------------------
StartRecur(plan) == [cand |-> plan.cand, end |-> plan.end, cnt |-> plan.rule.count, over |-> FALSE]

\* No more candidates.
Ended(plan, s) ==
    \/ s.over
    \/ plan.rule.until # <<>> /\ Less(plan.rule.until[1], s.cand, plan.zone)
    \/ s.cnt = <<0>>

Excluded(plan, s) == \E j \in 1..Len(plan.ex) : plan.ex[j] = s.cand

Advance(plan, s) ==
    LET to == NextCandidate(plan.rule, s.cand) IN
    [cand |-> to,
     end |-> [j \in 1..Len(s.end) |-> MovedEnd(s.end[j], s.cand, to)],
     cnt |-> [j \in 1..Len(s.cnt) |-> s.cnt[j] - 1],
     over |-> FALSE]

End(s) == [s EXCEPT !.over = TRUE]

-----------------------------------------------------------------------------
(* Windows: <<"all">>, <<"between", a, b>>, <<"at", d>>, <<"after", a>>. *)

Before(w, x, zone) == w[1] # "all" /\ Less(x, w[2], zone)

Past(w, x, zone) == CASE w[1] \in {"all", "after"} -> FALSE
                      [] w[1] = "between" -> ~Less(x, w[3], zone)
                      [] w[1] = "at" -> ~Less(x, Plus(w[2], <<0, 1, 0>>), zone)
=============================================================================
