------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* What the text of a typed value denotes.                                 *)
(*                                                                         *)
(* Reading a text as a type has an outcome [st, v]:                        *)
(*   "ok"    the text denotes v: it is read as v;                          *)
(*   "ext"   the text isn't quite in the format, but can only mean v: it   *)
(*           is read as v or rejected;                                     *)
(*   "bad"   the text isn't a value of the type: it is rejected;           *)
(*   "free"  nothing is specified, but it is read or rejected.             *)
(* dev is the set of known deviations which are tolerated (see Trace).     *)
(***************************************************************************)
EXTENDS Chars, Calendar

OK(v) == [st |-> "ok", v |-> v]
EXT(v) == [st |-> "ext", v |-> v]
BAD == [st |-> "bad", v |-> <<>>]
FREE == [st |-> "free", v |-> <<>>]

\* A value made from others, all needed.
Worst(sts) == IF "bad" \in sts THEN "bad" ELSE IF "free" \in sts THEN "free"
              ELSE IF "ext" \in sts THEN "ext" ELSE "ok"
With(st, v) == IF st \in {"bad", "free"} THEN [st |-> st, v |-> <<>>] ELSE [st |-> st, v |-> v]

\* All the items of a list are values of the type.
All(items, P(_)) ==
    LET rs == Now([k \in 1..Len(items) |-> P(items[k])])
        st == Worst({rs[k].st : k \in 1..Len(rs)})
    IN With(st, IF st \in {"ok", "ext"} THEN Now([k \in 1..Len(rs) |-> rs[k].v]) ELSE <<>>)

-----------------------------------------------------------------------------
(* Dates and times *)

cT == 84
cZ == 90
cP == 80

N2(s, p) == Num(SubSeq(s, p, p + 1))

ParseDate(s) ==
    IF Len(s) # 8 \/ ~AllDigits(s) THEN BAD
    ELSE LET y == Num(SubSeq(s, 1, 4))
             m == N2(s, 5)
             d == N2(s, 7)
         IN IF ~ValidYMD(y, m, d) THEN BAD
            ELSE IF y = 0 THEN EXT(<<0, y, m, d>>) ELSE OK(<<0, y, m, d>>)

ParseDateTime(s) ==
    IF Len(s) \notin {15, 16} THEN BAD
    ELSE IF (s[9] \notin {84, 116}) \/ ~AllDigits(SubSeq(s, 10, 15)) THEN BAD
    ELSE IF Len(s) = 16 /\ s[16] \notin {90, 122} THEN BAD
    ELSE LET d == ParseDate(SubSeq(s, 1, 8))
             h == N2(s, 10)
             mi == N2(s, 12)
             sec == N2(s, 14)
             v == <<IF Len(s) = 16 THEN 2 ELSE 1, d.v[2], d.v[3], d.v[4], h, mi, sec>>
         IN IF d.st = "bad" \/ h > 23 \/ mi > 59 \/ sec > 60 THEN BAD
            ELSE IF sec = 60 THEN FREE
            ELSE IF s[9] = 116 \/ (Len(s) = 16 /\ s[16] = 122) THEN EXT(v)
            ELSE With(d.st, v)

ParseDateOrDateTime(s) == IF Len(s) = 8 THEN ParseDate(s) ELSE ParseDateTime(s)

-----------------------------------------------------------------------------
(* Durations *)

\* Quotient and remainder of a number given by its digits: TLC's integers are small.
DivMod(d, m) == FoldLeft(LAMBDA acc, c : LET r == acc[2] * 10 + (c - 48)
                                         IN <<acc[1] * 10 + r \div m, r % m>>, <<0, 0>>, d)

\* Short enough numbers are exact; longer ones may not be represented.
BigSt(u, d, time) ==
    LET n == Len(Strip0(d))
        most == CASE u = 89 -> 6 [] u = 87 -> 7 [] u = 77 /\ ~time -> 7 [] u = 68 -> 8 [] u = 72 -> 9 [] u = 77 -> 11 [] OTHER -> 13
    IN IF n <= most THEN "ok" ELSE IF n <= 19 THEN "free" ELSE "bad"

\* The parts of a duration: sequence of <<unit, digits>> and whether T came before, or failure.
RECURSIVE DurParts(_, _, _, _)
DurParts(s, p, time, acc) ==
    IF p > Len(s) THEN [good |-> TRUE, parts |-> acc]
    ELSE IF s[p] = cT THEN DurParts(s, p + 1, TRUE, Append(acc, <<cT, <<>>, time>>))
    ELSE LET e == FirstFrom(s, p, LAMBDA c : ~IsDigit(c)) IN
         IF e = p \/ e > Len(s) THEN [good |-> FALSE, parts |-> <<>>]
         ELSE IF s[e] \notin {87, 68, 72, 77, 83, 89} THEN [good |-> FALSE, parts |-> <<>>]
         ELSE DurParts(s, e + 1, time, Append(acc, <<s[e], SubSeq(s, p, e - 1), time>>))

PartLength(u, d, time) ==
    LET by(m, unit) == LET q == DivMod(d, m) IN <<0, q[1], q[2] * unit>> IN
    CASE u = 89 -> <<0, Num(d) * 365, 0>>
      [] u = 87 -> <<0, Num(d) * 7, 0>>
      [] u = 77 /\ ~time -> <<0, Num(d) * 30, 0>>
      [] u = 68 -> <<0, Num(d), 0>>
      [] u = 72 -> by(24, 3600)
      [] u = 77 -> by(1440, 60)
      [] u = 83 -> by(86400, 1)
      [] OTHER -> <<0, 0, 0>>

AddLengths(ls) ==
    FoldLeft(LAMBDA acc, l : LET q == Norm(acc[2] + l[2], acc[3] + l[3]) IN <<0, q[1], q[2]>>,
             <<0, 0, 0>>, ls)

\* Units as a string of letters, T included, to recognise the forms of the RFC.
Letters(parts) == Now([k \in 1..Len(parts) |-> parts[k][1]])

cW == 87
cD == 68
cH == 72
cM == 77
cS == 83
cY == 89

TimeForms == {<<>>, <<cT, cH>>, <<cT, cH, cM>>, <<cT, cH, cM, cS>>, <<cT, cM>>, <<cT, cM, cS>>, <<cT, cS>>}
RfcForms == {<<cW>>} \cup {<<cD>> \o t : t \in TimeForms} \cup (TimeForms \ {<<>>})
\* Empty times and gaps can only mean one thing.
SloppyTimes == {<<>>} \cup {<<cT>> \o h \o m \o s : h \in {<<>>, <<cH>>}, m \in {<<>>, <<cM>>}, s \in {<<>>, <<cS>>}}
SloppyForms == {w \o d \o t : w \in {<<>>, <<cW>>}, d \in {<<>>, <<cD>>}, t \in SloppyTimes}

\* The value of a duration; other well-formed sequences of parts are at best their sum, if loose.
ParseDurationAs(s, loose) ==
    LET signed == s # <<>> /\ s[1] \in {PLUS, MINUS}
        p == IF signed THEN 2 ELSE 1
    IN IF p > Len(s) THEN BAD
       ELSE IF s[p] # cP THEN BAD
       ELSE LET r == DurParts(s, p + 1, FALSE, <<>>)
                units == SelectSeq(r.parts, LAMBDA x : x[1] # cT)
                form == Letters(r.parts)
                big == {BigSt(units[k][1], units[k][2], units[k][3]) : k \in 1..Len(units)}
            IN IF ~r.good THEN BAD
               \* Months and years only make sense before the time, other letters after or before it.
               ELSE IF \E k \in 1..Len(units) :
                         (units[k][3] /\ units[k][1] \in {cW, cD, cY})
                         \/ (~units[k][3] /\ units[k][1] \in {cH, cS}) THEN BAD
               ELSE IF form \notin RfcForms \cup SloppyForms /\ ~loose THEN BAD
               ELSE IF "bad" \in big THEN BAD
               ELSE IF "free" \in big THEN FREE
               ELSE LET sum == AddLengths([k \in 1..Len(units) |-> PartLength(units[k][1], Strip0(units[k][2]), units[k][3])])
                        v == IF signed /\ s[1] = MINUS THEN Neg(sum) ELSE sum
                    IN IF form \in RfcForms THEN OK(v) ELSE EXT(v)

\* As the value of a property, and alone.
ParseDuration(s) == ParseDurationAs(s, FALSE)
ParseLooseDuration(s) == ParseDurationAs(s, TRUE)

ParsePeriod(s) ==
    LET k == FirstFrom(s, 1, LAMBDA c : c = SLASH) IN
    IF k > Len(s) THEN BAD
    ELSE LET a == ParseDateTime(Upto(s, k - 1))
             e == From(s, k + 1)
             isdur == e # <<>> /\ (e[1] = cP \/ (Len(e) > 1 /\ e[1] \in {PLUS, MINUS} /\ e[2] = cP))
             b == IF isdur THEN ParseDuration(e) ELSE ParseDateTime(e)
             st == Worst({a.st, b.st, IF isdur /\ e[1] # cP THEN "ext" ELSE "ok"})
         IN IF st \in {"bad", "free"} THEN With(st, <<>>)
            ELSE IF isdur THEN With(st, <<"sd", a.v, b.v>>)
            \* A period ends after its start: what isn't so may be rejected.
            ELSE With(IF a.v[1] # b.v[1] \/ ~DateLess(a.v, b.v) THEN "ext" ELSE st, <<"se", a.v, b.v>>)

ParseOffset(s, dev) ==
    IF Len(s) \notin {5, 7} THEN BAD
    ELSE IF s[1] \notin {PLUS, MINUS} \/ ~AllDigits(From(s, 2)) THEN BAD
    ELSE LET h == N2(s, 2)
             m == N2(s, 4)
             sec == IF Len(s) = 7 /\ "TZSEC" \notin dev THEN N2(s, 6) ELSE 0
             abs == h * 3600 + m * 60 + sec
             v == IF s[1] = MINUS THEN -abs ELSE abs
         IN IF h > 23 \/ m > 59 \/ sec > 59 THEN BAD
            ELSE IF abs = 0 /\ s[1] = MINUS THEN EXT(v) ELSE OK(v)

-----------------------------------------------------------------------------
(* Numbers *)

\* Non-negative integers, as digits without leading zeros.
ParseUnsigned(s, max, rfcmax) ==
    LET signed == s # <<>> /\ s[1] = PLUS
        d == IF signed THEN From(s, 2) ELSE s
    IN IF s = <<MINUS>> \o <<48>> THEN EXT(<<48>>)
       ELSE IF ~AllDigits(d) THEN BAD
       ELSE LET v == Strip0(d) IN
            IF ~DigitsLeq(v, max) THEN BAD
            ELSE IF signed \/ ~DigitsLeq(v, rfcmax) THEN EXT(v) ELSE OK(v)

cMaxU8 == <<50, 53, 53>>
cMaxU32 == <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>
cMaxI32 == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>

ParsePercent(s) == ParseUnsigned(s, cMaxU8, <<49, 48, 48>>)
ParsePriority(s) == ParseUnsigned(s, <<57>>, <<57>>)
ParseU32(s) == ParseUnsigned(s, cMaxU32, cMaxU32)

\* COUNT and INTERVAL are numbers up to 255 here.
ParseCount(s) ==
    LET r == ParseUnsigned(s, cMaxU8, cMaxU8) IN
    IF r.st \in {"bad", "free"} THEN r
    ELSE With(IF Num(r.v) = 0 THEN "ext" ELSE r.st, Num(r.v))

\* An item of a BY list, lo and hi being its range: up to 127 in absolute value here.
ParseBy(s, lo, hi, signs) ==
    LET signed == s # <<>> /\ s[1] \in {PLUS, MINUS}
        d == IF signed THEN From(s, 2) ELSE s
    IN IF ~AllDigits(d) THEN BAD
       ELSE LET m == Strip0(d) IN
            IF Len(m) > 3 THEN BAD
            ELSE LET n == Num(m)
                     v == IF signed /\ s[1] = MINUS THEN -n ELSE n
                     \* What only fits a larger type may be rejected.
                 IN IF v > 127 \/ v < -128
                    THEN IF v >= lo /\ v <= hi THEN EXT(v) ELSE BAD
                    ELSE IF v < lo \/ v > hi \/ (signed /\ ~signs) \/ (signs /\ v = 0)
                         THEN EXT(v) ELSE OK(v)

\* A decimal number: sign, digits, fraction.
Decimal(s) ==
    LET signed == s # <<>> /\ s[1] \in {PLUS, MINUS}
        b == IF signed THEN From(s, 2) ELSE s
        dot == FirstFrom(b, 1, LAMBDA c : c = DOT)
        int == Upto(b, dot - 1)
        frac == From(b, dot + 1)
        digits(x) == \A k \in 1..Len(x) : IsDigit(x[k])
        lastsig == FoldLeft(LAMBDA acc, k : IF frac[k] # 48 THEN k ELSE acc, 0, [k \in 1..Len(frac) |-> k])
        f == Upto(frac, lastsig)
        i == IF int = <<>> THEN <<48>> ELSE Strip0(int)
        zero == i = <<48>> /\ f = <<>>
        sig == Strip0(i \o f)
        norm == (IF signed /\ s[1] = MINUS THEN <<MINUS>> ELSE <<>>)
                  \o i \o (IF f = <<>> THEN <<>> ELSE <<DOT>> \o f)
    IN IF ~digits(int) \/ ~digits(frac) \/ (int = <<>> /\ frac = <<>>)
       THEN [st |-> "not", v |-> <<>>, sig |-> 0, zero |-> FALSE, neg |-> FALSE]
       ELSE [st |-> IF int # <<>> /\ (dot > Len(b) \/ frac # <<>>) THEN "ok" ELSE "ext",
             v |-> norm, sig |-> IF f = <<>> THEN Len(i) ELSE Len(sig), zero |-> zero,
             neg |-> signed /\ s[1] = MINUS]

\* Up to 6 digits, the nearest binary number is printed back as these same digits.
ParseFloat(s) ==
    LET d == Decimal(s) IN
    IF d.st = "not"
    THEN IF s # <<>> /\ (\E k \in 1..Len(s) : s[k] \in {69, 101}) /\
            (\A k \in 1..Len(s) : IsDigit(s[k]) \/ s[k] \in {69, 101, PLUS, MINUS, DOT})
         THEN FREE ELSE BAD
    ELSE IF d.sig > 6 \/ (d.zero /\ d.neg) THEN FREE
    ELSE With(d.st, d.v)

ParseGeo(s) ==
    LET parts == SplitOn(s, SEMI) IN
    IF Len(parts) # 2 THEN BAD ELSE All(parts, ParseFloat)

-----------------------------------------------------------------------------
(* Names *)

\* names: function from code points to names.
ParseName(s, names) ==
    IF s \in DOMAIN names THEN OK(names[s])
    ELSE IF Upper(s) \in DOMAIN names THEN FREE ELSE BAD

NameMap(strs) == LET codes == {C(str) : str \in strs} IN [c \in codes |-> CHOOSE str \in strs : C(str) = c]

StatusNames == NameMap({"TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED",
                        "IN-PROCESS", "DRAFT", "FINAL"})
TranspNames == NameMap({"OPAQUE", "TRANSPARENT"})
FreqNames == NameMap({"SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"})
WeekdayNames == NameMap({"SU", "MO", "TU", "WE", "TH", "FR", "SA"})
ClassNames == NameMap({"PUBLIC", "PRIVATE", "CONFIDENTIAL"})

ParseStatus(s) == ParseName(s, StatusNames)
ParseTransp(s) == ParseName(s, TranspNames)
ParseFreq(s) == ParseName(s, FreqNames)
ParseWeekday(s) == ParseName(s, WeekdayNames)

IsToken(s) == s # <<>> /\ \A k \in 1..Len(s) : IsAlpha(s[k]) \/ IsDigit(s[k]) \/ s[k] = MINUS

ParseClass(s) ==
    IF s \in DOMAIN ClassNames THEN OK(<<ClassNames[s], <<>>>>)
    ELSE IF Upper(s) \in DOMAIN ClassNames THEN FREE
    ELSE IF IsToken(s) THEN OK(<<"CUSTOM", s>>) ELSE EXT(<<"CUSTOM", s>>)

ParseWeekdayNum(s) ==
    IF Len(s) < 2 THEN BAD
    ELSE LET day == ParseWeekday(SubSeq(s, Len(s) - 1, Len(s)))
             o == Upto(s, Len(s) - 2)
             ord == IF o = <<>> THEN OK(0) ELSE ParseBy(o, -53, 53, TRUE)
             st == Worst({day.st, ord.st})
         IN IF st \in {"bad", "free"} THEN With(st, <<>>)
            ELSE With(st, <<IF o = <<>> THEN <<>> ELSE <<ord.v>>, day.v>>)

-----------------------------------------------------------------------------
(* Recurrence rules *)

RuleParts == NameMap({"FREQ", "UNTIL", "COUNT", "INTERVAL", "BYSECOND", "BYMINUTE", "BYHOUR", "BYDAY",
                      "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO", "BYMONTH", "BYSETPOS", "WKST"})

ByRange == [BYSECOND |-> <<0, 60, FALSE>>, BYMINUTE |-> <<0, 59, FALSE>>, BYHOUR |-> <<0, 23, FALSE>>,
            BYMONTHDAY |-> <<-31, 31, TRUE>>, BYYEARDAY |-> <<-366, 366, TRUE>>,
            BYWEEKNO |-> <<-53, 53, TRUE>>, BYMONTH |-> <<1, 12, FALSE>>,
            BYSETPOS |-> <<-366, 366, TRUE>>]

\* In the order of the abstract value.
ByParts == <<"BYSECOND", "BYMINUTE", "BYHOUR", "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO", "BYMONTH", "BYSETPOS">>

ParseByList(s, part) ==
    LET r == ByRange[part] IN All(SplitOn(s, COMMA), LAMBDA x : ParseBy(x, r[1], r[2], r[3]))

\* An item of a rule: [st, name, v].
RuleItem(s) ==
    LET k == FirstFrom(s, 1, LAMBDA c : c = EQ)
        key == Upto(s, k - 1)
    IN IF k > Len(s) THEN [st |-> IF s = <<>> THEN "ext" ELSE "bad", name |-> "", v |-> <<>>]
       ELSE IF \E j \in 1..Len(key) : ~IsNameChar(key[j]) THEN [st |-> "bad", name |-> "", v |-> <<>>]
       ELSE IF key \in DOMAIN RuleParts THEN [st |-> "ok", name |-> RuleParts[key], v |-> From(s, k + 1)]
       ELSE IF Upper(key) \in DOMAIN RuleParts THEN [st |-> "free", name |-> "", v |-> <<>>]
       ELSE [st |-> "ext", name |-> "", v |-> <<>>]

ParseRule(s) ==
    LET cut == SplitOn(s, SEMI)
        items == Now([k \in 1..Len(cut) |-> RuleItem(cut[k])])
        of(name) == SelectSeq(items, LAMBDA x : x.name = name)
        has(name) == of(name) # <<>>
        val(name) == of(name)[Len(of(name))].v
        dup == \E name \in {RuleParts[c] : c \in DOMAIN RuleParts} : Len(of(name)) > 1
        freq == IF has("FREQ") THEN ParseFreq(val("FREQ")) ELSE BAD
        opt(name, P(_)) == IF has(name) THEN LET r == P(val(name)) IN With(r.st, <<r.v>>) ELSE OK(<<>>)
        until == opt("UNTIL", ParseDateOrDateTime)
        count == opt("COUNT", ParseCount)
        interval == opt("INTERVAL", ParseCount)
        wkst == opt("WKST", ParseWeekday)
        byday == IF has("BYDAY") THEN All(SplitOn(val("BYDAY"), COMMA), ParseWeekdayNum) ELSE OK(<<>>)
        by == Now([k \in 1..8 |-> IF has(ByParts[k]) THEN ParseByList(val(ByParts[k]), ByParts[k]) ELSE OK(<<>>)])
        sts == {items[k].st : k \in 1..Len(items)} \cup {by[k].st : k \in 1..8}
                 \cup {freq.st, until.st, count.st, interval.st, wkst.st, byday.st}
                 \cup (IF dup THEN {"free"} ELSE {})
                 \cup (IF has("UNTIL") /\ has("COUNT") THEN {"ext"} ELSE {})
        st == IF s = <<>> THEN "bad" ELSE Worst(sts)
    IN IF st \in {"bad", "free"} THEN With(IF dup THEN "free" ELSE st, <<>>)
       ELSE With(st, [freq |-> freq.v, until |-> until.v, count |-> count.v,
                      interval |-> IF has("INTERVAL") THEN interval.v[1] ELSE 1,
                      by |-> Now([k \in 1..8 |-> by[k].v]), byday |-> byday.v, wkst |-> wkst.v])

-----------------------------------------------------------------------------
(* Others *)

ParseRequestStatus(s) ==
    LET cut == FirstFrom(s, 1, LAMBDA c : c = SEMI)
        code == Upto(s, cut - 1)
        levels == SplitOn(code, DOT)
        nlev == Len(levels)
        num == ParseFloat(code)
        rest == From(s, cut + 1)
        ds == SplitUnescaped(rest, SEMI)
        desc == ds[1]
        hasext == Len(ds) > 1
    IN IF cut > Len(s) THEN BAD
       \* Three levels can't be kept: only rejected, or not specified.
       ELSE IF nlev > 2 /\ \A k \in 1..nlev : AllDigits(levels[k]) THEN FREE
       ELSE IF num.st \in {"bad", "free"} THEN num
       ELSE LET st == IF nlev = 2 /\ num.st = "ok" /\ AllDigits(levels[1]) /\ AllDigits(levels[2]) THEN "ok" ELSE "ext"
            IN With(st, [code |-> num.v, desc |-> desc,
                         ext |-> IF hasext THEN <<From(rest, Len(desc) + 2)>> ELSE <<>>])

ParseTriggerAs(s, PD(_)) ==
    LET dt == ParseDateTime(s) IN
    IF dt.st # "bad" THEN With(dt.st, <<"dt", dt.v>>)
    ELSE LET d == PD(s) IN With(d.st, <<"dur", d.v>>)

ParseTrigger(s) == ParseTriggerAs(s, ParseDuration)
ParseLooseTrigger(s) == ParseTriggerAs(s, ParseLooseDuration)

\* The stand-alone types, by their name in the library.
ParseAlone(ty, s) ==
    CASE ty = "Date" -> ParseDateOrDateTime(s)
      [] ty = "DateTime" -> ParseDateTime(s)
      [] ty = "Period" -> ParsePeriod(s)
      [] ty = "Recur" -> ParseRule(s)
      [] ty = "Freq" -> ParseFreq(s)
      [] ty = "Weekday" -> ParseWeekday(s)
      [] ty = "WeekdayNum" -> ParseWeekdayNum(s)
      [] ty = "Trigger" -> ParseLooseTrigger(s)
      [] ty = "Geo" -> ParseGeo(s)
      [] ty = "RequestStatus" -> ParseRequestStatus(s)
      [] ty = "Class" -> ParseClass(s)
      [] ty = "Status" -> ParseStatus(s)
      [] ty = "TimeTransparency" -> ParseTransp(s)
      [] ty = "Duration" -> ParseLooseDuration(s)
=============================================================================
