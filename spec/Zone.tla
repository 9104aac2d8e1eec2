-------------------------------- MODULE Zone --------------------------------
(***************************************************************************)
(* Local time zones.                                                       *)
(*                                                                         *)
(* A zone is the sequence of its changes: <<instant, offset from then on>>, *)
(* in order, the first one being before anything of interest.  <<>> is UTC. *)
(*                                                                         *)
(* ikal doesn't follow the zone for what it reads; it does so to compare   *)
(* an instant with a floating date-time, and, wrongly, to write instants:  *)
(* that's a known deviation.                                               *)
(***************************************************************************)
EXTENDS Schema

\* The offset in effect at an instant.
OffsetAt(x, zone) ==
    LET k == SelectLastInSeq(zone, LAMBDA z : ~PairLess(Point(x), Point(z[1]))) IN
    IF k = 0 THEN 0 ELSE zone[k][2]

\* The local wall clock at an instant, taken for UTC.
Wall(x, zone) == IF x[1] = 2 /\ zone # <<>> THEN Move(x, 0, OffsetAt(x, zone)) ELSE x

AsNaive(x) == IF HasTime(x) THEN [x EXCEPT ![1] = 1] ELSE <<1, x[2], x[3], x[4], 0, 0, 0>>
AsDateTime(x) == IF HasTime(x) THEN x ELSE AsNaive(x)
AsDate(x) == <<0, x[2], x[3], x[4]>>
AsInstant(x) == [AsNaive(x) EXCEPT ![1] = 2]

\* The wall clock of anything, as a floating date-time.
Clock(x, zone) == AsNaive(Wall(x, zone))

\* The instants when the wall clock shows this: none if it's skipped, two if it's repeated.
Instants(x, zone) ==
    IF zone = <<>> THEN {AsInstant(x)}
    ELSE {t \in {Move(AsInstant(x), 0, -zone[k][2]) : k \in 1..Len(zone)} : AsNaive(Wall(t, zone)) = AsNaive(x)}

\* The first second which is skipped may be taken for the one of the change.
Edges(x, zone) ==
    {zone[k][1] : k \in {j \in 2..Len(zone) : zone[j - 1][2] < zone[j][2] /\ AsNaive(Move(zone[j][1], 0, zone[j - 1][2])) = AsNaive(x)}}

\* The order: two instants are compared as such, and an instant with anything else by the wall clock.
Less(a, b, zone) ==
    IF zone = <<>> \/ (KindOf(a) = 2 /\ KindOf(b) = 2) THEN DateLess(a, b)
    ELSE DateLess(Wall(a, zone), Wall(b, zone))

Between(a, b, zone) ==
    IF zone = <<>> \/ (KindOf(a) = 2 /\ KindOf(b) = 2) THEN Minus(a, b)
    ELSE Minus(Wall(a, zone), Wall(b, zone))

WallPeriod(p, zone) == IF p[1] = "se" THEN <<"se", Wall(p[2], zone), Wall(p[3], zone)>>
                       ELSE <<"sd", Wall(p[2], zone), p[3]>>

WallValue(ty, v, zone) ==
    CASE ty \in {"DT", "DOD"} -> Wall(v, zone)
      [] ty = "PERIOD" -> WallPeriod(v, zone)
      [] ty = "TRIGGER" -> IF v[1] = "dt" THEN <<"dt", Wall(v[2], zone)>> ELSE v
      [] ty = "RDATE" -> IF v[1] = "period" THEN <<"period", [j \in 1..Len(v[2]) |-> WallPeriod(v[2][j], zone)]>>
                         ELSE <<"date", [j \in 1..Len(v[2]) |-> Wall(v[2][j], zone)]>>
      [] ty = "RRULE" -> [v EXCEPT !.until = [j \in 1..Len(v.until) |-> Wall(v.until[j], zone)]]
      [] OTHER -> v

RECURSIVE Walls(_, _)
Walls(c, zone) ==
    [c EXCEPT !.f = [name \in FieldNames(c.k) |->
                       LET ty == FieldOf(c.k, name).ty IN
                       [j \in 1..Len(c.f[name]) |-> WallValue(ty, c.f[name][j], zone)]],
              !.s = [j \in 1..Len(c.s) |->
                       <<c.s[j][1], [k \in 1..Len(c.s[j][2]) |-> Walls(c.s[j][2][k], zone)]>>]]
=============================================================================
