------------------------------ MODULE MC_Texts ------------------------------
(***************************************************************************)
(* Every text of a grammar of tokens, up to a number of tokens: the lines  *)
(* of a component, or the texts of a type of values.                       *)
(*                                                                         *)
(* The states are the texts.  The invariant says what the specification    *)
(* must satisfy by itself: what is denoted by a text is denoted by its     *)
(* written form too, and only that.                                        *)
(***************************************************************************)
EXTENDS Writer, Json

CONSTANTS Whats, Depth

\* Tokens which aren't ASCII.
Tok(t) == CASE t = "<CR>" -> <<CR>> [] t = "<LF>" -> <<LF>> [] t = "<E'>" -> <<233>>
            [] t = "<FOLD>" -> <<CR, LF, SP>> [] t = "<WIDE>" -> <<128512>> [] t = "<ARABIC3>" -> <<1635>> [] OTHER -> C(t)

Digits2 == {"0", "1", "9", "10", "24", "60", "99"}

Grammar ==
  [ LINE    |-> [from |-> {""}, tokens |-> {"A", ";", ":", "=", "\"", "\\", ",", "<E'>", " "}],
    PARAM   |-> [from |-> {"A;B=", "A;B=\"", "A;B=c;"}, tokens |-> {"A", ";", ":", "=", "\"", "\\", ","}],
    FOLDED  |-> [from |-> {"", "A", "A;B=", "A:"}, tokens |-> {"A", ";", "=", ":", "\"", "<FOLD>", " "}],
    DT      |-> [from |-> {""}, tokens |-> {"2024", "0229", "0230", "1301", "0000", "T", "t", "Z", "z", "235959", "240000", "1", "-", " "}],
    DOD     |-> [from |-> {""}, tokens |-> {"2024", "2023", "0229", "1231", "0100", "0001", "T", "000000", "Z", "1", "+"}],
    DUR     |-> [from |-> {"", "P", "-P", "PT"}, tokens |-> {"P", "T", "-", "+", "0", "7", "36", "W", "D", "H", "M", "S", "1Y"}],
    TRIGGER |-> [from |-> {"", "-P", "20240229T"}, tokens |-> {"P", "T", "-", "15", "000000", "M", "W", "D", "Z", "S"}],
    PERIOD  |-> [from |-> {"", "20240101T000000", "20240101T000000Z/"},
                 tokens |-> {"20240102T000000", "20240101", "Z", "/", "P1D", "PT1H", "-", "+", "P", ",", "T"}],
    OFFSET  |-> [from |-> {"", "+", "-"}, tokens |-> {"+", "-", "0", "1", "00", "23", "59", "60", ":", "Z"}],
    GEO     |-> [from |-> {"", "1;"}, tokens |-> {"-", "+", "1", ".", "0", ";", "e", " "}],
    PRIO    |-> [from |-> {""}, tokens |-> {"0", "9", "1", "+", "-", " ", "256", "<ARABIC3>"}],
    PERCENT |-> [from |-> {""}, tokens |-> {"0", "9", "10", "+", "-", "255", "256", "."}],
    U32     |-> [from |-> {""}, tokens |-> {"0", "9", "42", "+", "-", "4294967295", "4294967296", "x"}],
    STATUS  |-> [from |-> {""}, tokens |-> {"TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS",
                                            "DRAFT", "FINAL", "NEEDS", "-", "ACTION", " ", "final", "X", ","}],
    TRANSP  |-> [from |-> {""}, tokens |-> {"OPAQUE", "TRANSPARENT", "TRANSP", "ARENT", " ", "opaque", ",", ";"}],
    CLASS   |-> [from |-> {""}, tokens |-> {"PUBLIC", "PRIVATE", "CONFIDENTIAL", "X-", "a", " ", "public", ";", "\\", "CUSTOM"}],
    RSTATUS |-> [from |-> {"", "2.0", "2.0;"}, tokens |-> {"2", ".", "0", ";", "\\", ",", "a", ":", "-", " "}],
    FREQ    |-> [from |-> {""}, tokens |-> {"SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY", " ", "daily", "LY"}],
    WEEKDAY |-> [from |-> {""}, tokens |-> {"MO", "TU", "WE", "TH", "FR", "SA", "SU", "mo", "M", "1"}],
    DAYNUM  |-> [from |-> {""}, tokens |-> {"MO", "SU", "+", "-", "0", "1", "53", "54", "127", "128", " ", "su"}],
    RRULE   |-> [from |-> {"FREQ=DAILY", "INTERVAL=2"},
                 tokens |-> {";COUNT=2", ";COUNT=0", ";COUNT=256", ";COUNT=", ";UNTIL=20240229", ";UNTIL=20240229T000000Z", ";UNTIL=20230229",
                             ";INTERVAL=3", ";INTERVAL=0", ";INTERVAL=-1", ";BYDAY=MO", ";BYDAY=-1SU", ",2TU", ",1", ",-1", ";", ";FREQ=WEEKLY",
                             ";FREQ=X", ";WKST=SU", ";WKST=1SU", ";X=1", ";BYMONTH=1", ";BYHOUR=23", ";BYSETPOS=-1", ";BYMONTHDAY=31",
                             ";BYYEARDAY=100", ";BYWEEKNO=53", ";BYSECOND=60", ";BYMINUTE=0", ";count=1", " ", "="}],
    RDATE   |-> [from |-> {""}, tokens |-> {"20240229", "20240230", "20240101T000000", "Z", "/", "P1D", ",", "20240102T000000"}],
    TEXT    |-> [from |-> {""}, tokens |-> {"\\", ",", ";", "n", "N", "\"", "<E'>", ":", "<WIDE>"}],
    URI     |-> [from |-> {""}, tokens |-> {"\\", ",", ";", "n", ":", "\"", "<WIDE>", "/"}] ]

VARIABLES vWhat, vText, vDepth

Starts(w) == {Tok(t) : t \in Grammar[w].from}
Tokens == [w \in Whats |-> {Tok(t) : t \in Grammar[w].tokens}]

Emit(w, s) == PrintT("@@" \o ToJson([what |-> w, text |-> s]))

Init == /\ vWhat \in Whats /\ vDepth = 0
        /\ vText \in Starts(vWhat)
        /\ (vText = <<>> \/ Emit(vWhat, vText))

Next == /\ vDepth < Depth
        /\ vDepth' = vDepth + 1
        /\ UNCHANGED vWhat
        /\ \E t \in Tokens[vWhat] : vText' = vText \o t /\ Emit(vWhat, vText \o t)

-----------------------------------------------------------------------------

\* What a text of the type denotes.
Read1(s) ==
    CASE vWhat = "RDATE" -> ParseField("RDATE", "many", [key |-> <<65>>, p |-> <<>>, v |-> s], {})
      [] vWhat = "DT" -> ParseDateTime(s)
      [] vWhat = "DOD" -> ParseDateOrDateTime(s)
      [] vWhat = "DUR" -> ParseDuration(s)
      [] vWhat = "TRIGGER" -> ParseTrigger(s)
      [] vWhat = "PERIOD" -> ParsePeriod(s)
      [] vWhat = "OFFSET" -> ParseOffset(s, {})
      [] vWhat = "GEO" -> ParseGeo(s)
      [] vWhat = "PRIO" -> ParsePriority(s)
      [] vWhat = "PERCENT" -> ParsePercent(s)
      [] vWhat = "U32" -> ParseU32(s)
      [] vWhat = "STATUS" -> ParseStatus(s)
      [] vWhat = "TRANSP" -> ParseTransp(s)
      [] vWhat = "CLASS" -> ParseClass(s)
      [] vWhat = "RSTATUS" -> ParseRequestStatus(s)
      [] vWhat = "FREQ" -> ParseFreq(s)
      [] vWhat = "WEEKDAY" -> ParseWeekday(s)
      [] vWhat = "DAYNUM" -> ParseWeekdayNum(s)
      [] vWhat = "RRULE" -> ParseRule(s)
      [] vWhat = "TEXT" -> OK([p |-> <<>>, t |-> s])
      [] vWhat = "URI" -> OK([p |-> <<>>, t |-> s])

\* The written form of what is denoted denotes the same, and no other form of it is better.
ValueSafe ==
    LET r == Read1(vText) IN
    r.st \in {"ok", "ext"} =>
      LET v == IF vWhat = "RDATE" THEN r.v[1] ELSE r.v
          w == WriteValue(vWhat, v)
          q == Read1(w)
      IN \/ vWhat = "CLASS" /\ v[1] = "CUSTOM"
         \/ vWhat = "RDATE" /\ q.st # "bad"     \* Its parameters say which type it is.
         \/ /\ q.st \in (IF r.st = "ok" THEN {"ok"} ELSE {"ok", "ext"})
            /\ IF vWhat = "TEXT" THEN SameText(q.v.t, v.t) /\ ~Separated(q.v.t) /\ ~Broken(q.v.t)
               ELSE IF vWhat = "RSTATUS" THEN q.v.code = v.code /\ SameText(q.v.desc, v.desc)
                                             /\ Len(q.v.ext) = Len(v.ext) /\ \A j \in 1..Len(v.ext) : SameText(q.v.ext[j], v.ext[j])
               ELSE q.v = v

\* A line is the same however it is folded, and comes back from its parts.
LineSafe ==
    LET s == Unfold(vText)
        l == Lex(s)
    IN /\ Unfold(s) = s \/ Has(s, CR)
       /\ l.st = "ok" =>
            /\ LET w == Unfold(WriteLine(l.key, l.p, l.v))
                   again == Lex(Upto(w, Len(w) - 2))
               IN (\A j \in 1..Len(l.p) : ~Has(l.p[j][2], DQ)) => again = l
            /\ \A i \in 1..Len(s) : Unfold(Upto(s, i) \o <<CR, LF, SP>> \o From(s, i + 1)) = s

Safe == IF vWhat \in {"LINE", "PARAM", "FOLDED"} THEN LineSafe ELSE ValueSafe
=============================================================================
