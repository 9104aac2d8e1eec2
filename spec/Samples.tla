------------------------------ MODULE Samples ------------------------------
(***************************************************************************)
(* A few values of each type, and the smallest component of each kind, for *)
(* the models.                                                             *)
(***************************************************************************)
EXTENDS Writer

NoRule == [freq |-> "DAILY", until |-> <<>>, count |-> <<>>, interval |-> 1, by |-> [j \in 1..8 |-> <<>>], byday |-> <<>>, wkst |-> <<>>]
Text(s) == [p |-> <<>>, t |-> s]
With1(p, s) == [p |-> <<p>>, t |-> s]

Dt1 == <<1, 2024, 2, 29, 23, 59, 59>>
Dt2 == <<2, 1996, 12, 31, 0, 0, 0>>
Dt3 == <<2, 1, 1, 1, 0, 0, 1>>
Day1 == <<0, 2024, 2, 29>>
Day2 == <<0, 9999, 12, 31>>

\* Texts are in the escaped form, as they are once read.
Values == [
  TEXT |-> << Text(C("a")), With1(<<C("LANGUAGE"), C("fr")>>, C("b\\, c")), Text(<<>>), Text(C("d\\;\\n") \o <<233, 8364, 128512>>),
              With1(<<C("X"), C("a:b;c,d")>>, C(" e: ")), Text(C("BEGIN:VEVENT")),
              [p |-> <<<<C("A"), <<>>>>, <<C("B"), C("b")>>>>, t |-> C("\\\\")] >>,
  URI |-> << Text(C("mailto:a@b.c")), With1(<<C("CN"), C("D: E")>>, C("http://a/?b=c;d,e")), Text(<<>>), Text(C("\\,") \o <<233>>) >>,
  DT |-> << Dt1, Dt2, Dt3, <<1, 9999, 12, 31, 0, 0, 0>> >>,
  DOD |-> << Day1, Dt1, Dt2, Day2 >>,
  DUR |-> << <<0, 1, 0>>, <<1, 0, 5400>>, <<0, 0, 0>>, <<0, 7, 0>>, <<1, 15, 61>>, <<0, 0, 86399>> >>,
  CLASS |-> << <<"PRIVATE", <<>>>>, <<"CUSTOM", C("X-A")>>, <<"PUBLIC", <<>>>>, <<"CONFIDENTIAL", <<>>>> >>,
  GEO |-> << <<C("37.386"), C("-122.083")>>, <<C("0"), C("1")>>, <<C("-0.5"), C("90")>> >>,
  PRIO |-> << C("1"), C("9"), C("0") >>,
  PERCENT |-> << C("50"), C("100"), C("0") >>,
  U32 |-> << C("2"), C("4294967295"), C("0") >>,
  STATUS |-> << "CANCELLED", "NEEDS-ACTION", "FINAL", "IN-PROCESS", "TENTATIVE", "CONFIRMED", "COMPLETED", "DRAFT" >>,
  TRANSP |-> << "OPAQUE", "TRANSPARENT" >>,
  RRULE |-> << [NoRule EXCEPT !.count = <<10>>],
               [NoRule EXCEPT !.freq = "MONTHLY", !.until = <<Dt2>>, !.byday = <<<<<<-1>>, "SU">>, <<<<>>, "MO">>>>, !.wkst = <<"SU">>],
               [NoRule EXCEPT !.freq = "YEARLY", !.interval = 255, !.by = [j \in 1..8 |-> <<j, -j>>]],
               [NoRule EXCEPT !.freq = "SECONDLY", !.until = <<Day1>>, !.interval = 0],
               [NoRule EXCEPT !.freq = "WEEKLY", !.byday = <<<<<<53>>, "FR">>>>] >>,
  RSTATUS |-> << [code |-> C("2"), desc |-> C("Success"), ext |-> <<>>], [code |-> C("3.1"), desc |-> C("a\\;b"), ext |-> <<C("c\\,d")>>],
                 [code |-> C("4.2"), desc |-> <<>>, ext |-> <<<<>>>>] >>,
  PERIOD |-> << <<"se", Dt2, <<2, 1997, 1, 1, 0, 0, 0>>>>, <<"sd", Dt1, <<0, 1, 3600>>>>, <<"sd", Dt2, <<0, 0, 0>>>> >>,
  OFFSET |-> << 3600, -19800, 0, 50340 >>,
  TRIGGER |-> << <<"dur", <<1, 0, 900>>>>, <<"dt", Dt2>>, <<"dur", <<0, 1, 0>>>>, <<"dt", Dt1>> >>,
  RDATE |-> << <<"date", <<Day1, Day2>>>>, <<"date", <<Dt1>>>>, <<"period", <<<<"sd", Dt2, <<0, 0, 60>>>>, <<"se", Dt1, Dt1>>>>>>, <<"date", <<Dt2, Dt1>>>> >> ]

Sample(ty, n) == Values[ty][((n - 1) % Len(Values[ty])) + 1]
Count(ty) == Len(Values[ty])

\* The required properties have the first sample of their type, save the action.
First(kind, f) == IF f.name = "ACTION" THEN Text(C(kind)) ELSE Sample(f.ty, 1)
Minimal(kind) ==
    [k |-> kind,
     f |-> [name \in FieldNames(kind) |-> LET f == FieldOf(kind, name) IN IF f.mult = "req" THEN <<First(kind, f)>> ELSE <<>>],
     x |-> <<>>, i |-> <<>>,
     s |-> [j \in 1..Len(Subs[kind]) |-> <<Subs[kind][j], <<>>>>]]
=============================================================================
