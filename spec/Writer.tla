------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* What a written text must be.                                            *)
(*                                                                         *)
(* The specification doesn't say which text is written (where lines are    *)
(* folded, whether a list takes one line or several...), but what it must  *)
(* hold: it is a relation between components and texts.  WriteText is one  *)
(* text in this relation, for the models.                                  *)
(***************************************************************************)
EXTENDS Reader

-----------------------------------------------------------------------------
(* Escaping *)

cLn == 110
cUn == 78

\* The text meant by an escaped one; all line breaks are LF.
Unescape(s) ==
    LET step(acc, i) ==
          IF i < acc.next THEN acc
          ELSE LET c == s[i]
                   n == IF i < Len(s) THEN s[i + 1] ELSE 0
               IN CASE c = BSL /\ n \in {BSL, SEMI, COMMA} -> [out |-> Append(acc.out, n), next |-> i + 2]
                    [] c = BSL /\ n \in {cLn, cUn} -> [out |-> Append(acc.out, LF), next |-> i + 2]
                    [] c = CR /\ n = LF -> [out |-> Append(acc.out, LF), next |-> i + 2]
                    [] c = CR -> [out |-> Append(acc.out, LF), next |-> i + 1]
                    [] OTHER -> [out |-> Append(acc.out, c), next |-> i + 1]
    IN FoldLeft(step, [out |-> <<>>, next |-> 1], [i \in 1..Len(s) |-> i]).out

\* A text in the escaped form which isn't changed by escaping.
Separated(s) == \E i \in 1..Len(s) : s[i] \in {COMMA, SEMI} /\ ~Escaped(s, i)
Broken(s) == \E i \in 1..Len(s) : s[i] \in {CR, LF}

SameText(a, b) == a = b \/ Unescape(a) = Unescape(b)

\* Line breaks can't be written as they are.
NoBreaks(s) ==
    LET step(acc, i) ==
          IF s[i] = LF /\ i > 1 /\ s[i - 1] = CR THEN acc
          ELSE IF s[i] \in {CR, LF} THEN acc \o <<BSL, cLn>> ELSE Append(acc, s[i])
    IN IF Broken(s) THEN FoldLeft(step, <<>>, [i \in 1..Len(s) |-> i]) ELSE s

SQ == 39
NoQuotes(s) == Now([i \in 1..Len(s) |-> IF s[i] = DQ THEN SQ ELSE s[i]])

\* A parameter can't hold double quotes either, nor line breaks.
ParamText(s) == NoQuotes(NoBreaks(s))
SameParams(read, held) ==
    /\ Len(read) = Len(held)
    /\ \A j \in 1..Len(held) : read[j][1] = held[j][1] /\ ParamText(read[j][2]) = ParamText(held[j][2])

\* A parameter without anything the format can't hold must be the same.
ExactParams(read, held) ==
    /\ SameParams(read, held)
    /\ \A j \in 1..Len(held) :
         (Has(held[j][2], DQ) \/ Broken(held[j][2])) \/ read[j][2] = held[j][2]

-----------------------------------------------------------------------------
(* Values which can be written *)

GoodName(n) == n # <<>> /\ (\A j \in 1..Len(n) : IsNameChar(n[j])) /\ Upper(n) \notin {cBeginName, cEndName}
GoodParams(p) == \A j \in 1..Len(p) : GoodName(p[j][1])
GoodDate(d) == d[2] >= 0 /\ d[2] <= 9999
GoodDuration(len) == len[2] <= 99999999 /\ Len(len) = 3
GoodPeriod(p) == GoodDate(p[2]) /\ IF p[1] = "se" THEN GoodDate(p[3]) ELSE p[3][1] = 0 /\ GoodDuration(p[3])
GoodFloat(s) == LET d == Decimal(s) IN d.st = "ok" /\ Len(s) <= 20

GoodValue(kind, name, ty, v) ==
    CASE name = "ACTION" -> v.t = C(kind) /\ GoodParams(v.p)
      [] ty \in {"TEXT", "URI"} -> GoodParams(v.p)
      [] ty \in {"DT", "DOD"} -> GoodDate(v) /\ Len(v) < 8
      [] ty = "DUR" -> GoodDuration(v)
      [] ty = "CLASS" -> v[1] # "CUSTOM" \/ (IsToken(v[2]) /\ Upper(v[2]) \notin DOMAIN ClassNames)
      [] ty = "GEO" -> GoodFloat(v[1]) /\ GoodFloat(v[2])
      [] ty = "RSTATUS" -> GoodFloat(v.code)
      [] ty = "PERIOD" -> GoodPeriod(v)
      [] ty = "TRIGGER" -> IF v[1] = "dt" THEN GoodDate(v[2]) ELSE GoodDuration(v[2])
      [] ty = "RDATE" -> v[2] # <<>> /\ \A j \in 1..Len(v[2]) :
                            IF v[1] = "period" THEN GoodPeriod(v[2][j]) ELSE GoodDate(v[2][j])
      [] ty = "RRULE" -> \A j \in 1..Len(v.until) : GoodDate(v.until[j])
      [] ty = "PRIO" -> DigitsLeq(v, <<57>>)
      [] OTHER -> TRUE

GoodEntries(es, keys, ext) ==
    \A j \in 1..Len(es) : /\ GoodName(es[j].n)
                          /\ es[j].n \notin keys
                          /\ StartsWith(es[j].n, cXPrefix) = ext
                          /\ GoodParams(es[j].p)

\* The component can be written so that it can be read.
RECURSIVE Writable(_, _)
Writable(c, dev) ==
    LET fields == Fields[c.k]
        keys == {WireKey(fields[j].name, dev) : j \in 1..Len(fields)}
    IN /\ \A j \in 1..Len(fields) :
            LET vs == c.f[fields[j].name] IN
            \A m \in 1..Len(vs) : GoodValue(c.k, fields[j].name, fields[j].ty, vs[m])
       /\ GoodEntries(c.x, keys, TRUE)
       /\ GoodEntries(c.i, keys, FALSE)
       /\ \A j \in 1..Len(c.s) : \A m \in 1..Len(c.s[j][2]) : Writable(c.s[j][2][m], dev)

-----------------------------------------------------------------------------
(* The lines of a component *)

\* The raw structure of a text: [ok, k, lines, subs], subs in the order of the text.
RawFrame(kind) == [k |-> kind, lines |-> <<>>, subs |-> <<>>]

RawStep(r, l) ==
    LET n == Len(r.stack) IN
    IF ~r.ok THEN r
    ELSE IF r.done THEN [r EXCEPT !.ok = FALSE]
    ELSE IF StartsWith(l.s, cBEGIN)
    THEN LET name == From(l.s, 7) IN
         IF name \notin DOMAIN KindNames \/ (n > 0 /\ KindNames[name] \notin Allowed(r.stack[n].k))
         THEN [r EXCEPT !.ok = FALSE]
         ELSE [r EXCEPT !.stack = Append(@, RawFrame(KindNames[name]))]
    ELSE IF n = 0 THEN [r EXCEPT !.ok = FALSE]
    ELSE IF StartsWith(l.s, cEND)
    THEN IF From(l.s, 5) # C(r.stack[n].k) THEN [r EXCEPT !.ok = FALSE]
         ELSE IF n = 1 THEN [r EXCEPT !.done = TRUE]
         ELSE [r EXCEPT !.stack = [SubSeq(@, 1, n - 1) EXCEPT ![n - 1].subs = Append(@, r.stack[n])]]
    ELSE LET x == Lex(l.s) IN
         IF x.st # "ok" \/ r.stack[n].subs # <<>> THEN [r EXCEPT !.ok = FALSE]
         ELSE [r EXCEPT !.stack[n].lines = Append(@, x)]

Raw(text) ==
    LET r == FoldLeft(RawStep, [ok |-> TRUE, done |-> FALSE, stack |-> <<>>], LogicalLines(Unfold(text)))
    IN [ok |-> r.ok /\ r.done, tree |-> IF r.ok /\ r.done THEN r.stack[1] ELSE <<>>]

\* The parameters which come with a value.
TypeParams(ty, v) ==
    LET value(x) == <<<<cVALUE, x>>>> IN
    CASE ty \in {"TEXT", "URI"} -> v.p
      [] ty = "DOD" -> IF HasTime(v) THEN <<>> ELSE value(cDATE)
      [] ty = "TRIGGER" -> IF v[1] = "dt" THEN value(cDATETIME) ELSE <<>>
      [] ty = "PERIOD" -> <<>>
      [] ty = "RDATE" -> IF v[1] = "period" THEN value(cPERIOD) ELSE IF HasTime(v[2][1]) THEN <<>> ELSE value(cDATE)
      [] OTHER -> <<>>

-----------------------------------------------------------------------------

(* The texts of values, as the format has them *)

Fixed(x, n) == [j \in 1..n |-> 48 + ((x \div (CASE n - j = 0 -> 1 [] n - j = 1 -> 10 [] n - j = 2 -> 100 [] OTHER -> 1000)) % 10)]
RECURSIVE Natural(_)
Natural(x) == IF x < 10 THEN <<48 + x>> ELSE Append(Natural(x \div 10), 48 + (x % 10))
Signed1(x) == IF x < 0 THEN <<MINUS>> \o Natural(-x) ELSE Natural(x)
Joined(ss, c) == FoldLeft(LAMBDA acc, j : acc \o (IF j = 1 THEN <<>> ELSE <<c>>) \o ss[j], <<>>, [j \in 1..Len(ss) |-> j])

WriteDate(x) ==
    Fixed(x[2], 4) \o Fixed(x[3], 2) \o Fixed(x[4], 2)
      \o (IF HasTime(x) THEN <<cT>> \o Fixed(x[5], 2) \o Fixed(x[6], 2) \o Fixed(x[7], 2) ELSE <<>>)
      \o (IF KindOf(x) = 2 THEN <<cZ>> ELSE <<>>)

WriteDuration(d) ==
    (IF d[1] = 1 THEN <<MINUS>> ELSE <<>>) \o <<cP>> \o Natural(d[2]) \o <<cD>>
      \o (IF d[3] = 0 THEN <<>> ELSE <<cT>> \o Natural(d[3]) \o <<cS>>)

WritePeriod(x) == WriteDate(x[2]) \o <<SLASH>> \o (IF x[1] = "se" THEN WriteDate(x[3]) ELSE WriteDuration(x[3]))

WriteWeekdayNum(x) == Flatten([j \in 1..Len(x[1]) |-> Signed1(x[1][j])]) \o C(x[2])

WriteRule(r) ==
    C("FREQ=" \o r.freq)
      \o Flatten([j \in 1..Len(r.until) |-> C(";UNTIL=") \o WriteDate(r.until[j])])
      \o Flatten([j \in 1..Len(r.count) |-> C(";COUNT=") \o Natural(r.count[j])])
      \o C(";INTERVAL=") \o Natural(r.interval)
      \o Flatten([k \in 1..8 |-> IF r.by[k] = <<>> THEN <<>>
                                 ELSE C(";" \o ByParts[k] \o "=") \o Joined([j \in 1..Len(r.by[k]) |-> Signed1(r.by[k][j])], COMMA)])
      \o (IF r.byday = <<>> THEN <<>>
          ELSE C(";BYDAY=") \o Joined([j \in 1..Len(r.byday) |-> WriteWeekdayNum(r.byday[j])], COMMA))
      \o Flatten([j \in 1..Len(r.wkst) |-> C(";WKST=" \o r.wkst[j])])

WriteOffset(x) ==
    LET a == IF x < 0 THEN -x ELSE x IN
    <<IF x < 0 THEN MINUS ELSE PLUS>> \o Fixed(a \div 3600, 2) \o Fixed((a \div 60) % 60, 2)
      \o (IF a % 60 = 0 THEN <<>> ELSE Fixed(a % 60, 2))

Escape(s) ==
    LET step(acc, i) ==
          IF i < acc.next THEN acc
          ELSE LET c == s[i]
                   n == IF i < Len(s) THEN s[i + 1] ELSE LF
               IN CASE c = BSL /\ n \in {BSL, SEMI, COMMA} -> [out |-> acc.out \o <<c, n>>, next |-> i + 2]
                    [] c = BSL /\ n \in {CR, LF} -> [out |-> acc.out \o <<c, c>>, next |-> i + 1]
                    [] c \in {SEMI, COMMA} -> [out |-> acc.out \o <<BSL, c>>, next |-> i + 1]
                    [] c = CR /\ n = LF /\ i < Len(s) -> [out |-> acc.out \o <<BSL, cLn>>, next |-> i + 2]
                    [] c \in {CR, LF} -> [out |-> acc.out \o <<BSL, cLn>>, next |-> i + 1]
                    [] OTHER -> [out |-> Append(acc.out, c), next |-> i + 1]
    IN FoldLeft(step, [out |-> <<>>, next |-> 1], [i \in 1..Len(s) |-> i]).out

WriteCode(code) == IF Has(code, DOT) THEN code ELSE code \o <<DOT, 48>>

\* One text of a value.
WriteValue(ty, v) ==
    CASE ty = "TEXT" -> Escape(v.t)
      [] ty = "URI" -> NoBreaks(v.t)
      [] ty \in {"DT", "DOD"} -> WriteDate(v)
      [] ty = "DUR" -> WriteDuration(v)
      [] ty = "CLASS" -> Upper(IF v[1] = "CUSTOM" THEN v[2] ELSE C(v[1]))
      [] ty = "GEO" -> v[1] \o <<SEMI>> \o v[2]
      [] ty \in {"PRIO", "PERCENT", "U32"} -> v
      [] ty \in {"STATUS", "TRANSP", "FREQ", "WEEKDAY"} -> C(v)
      [] ty = "DAYNUM" -> WriteWeekdayNum(v)
      [] ty = "RRULE" -> WriteRule(v)
      [] ty = "RSTATUS" -> WriteCode(v.code) \o <<SEMI>> \o Escape(v.desc)
                             \o Flatten([j \in 1..Len(v.ext) |-> <<SEMI>> \o Escape(v.ext[j])])
      [] ty = "PERIOD" -> WritePeriod(v)
      [] ty = "OFFSET" -> WriteOffset(v)
      [] ty = "TRIGGER" -> IF v[1] = "dt" THEN WriteDate(v[2]) ELSE WriteDuration(v[2])
      [] ty = "RDATE" -> Joined([j \in 1..Len(v[2]) |-> IF v[1] = "period" THEN WritePeriod(v[2][j]) ELSE WriteDate(v[2][j])], COMMA)

-----------------------------------------------------------------------------

\* Only a VALUE parameter, of one of these types.
OnlyValue(p, allowed, needed) ==
    \/ p = <<>> /\ ~needed
    \/ Len(p) = 1 /\ p[1][1] = cVALUE /\ p[1][2] \in allowed

\* A text denotes this value, as the format has it when it has a text for it.
Denotes(r, v, own) == r.st \in {"ok", "ext"} /\ r.v = v /\ (r.st = "ok" \/ own.st # "ok")
DenotesDate(s, v) == Denotes(ParseDateOrDateTime(s), v, ParseDateOrDateTime(WriteDate(v)))
DenotesDateTime(s, v) == Denotes(ParseDateTime(s), v, ParseDateTime(WriteDate(v)))
DenotesDuration(s, v) == Denotes(ParseDuration(s), v, ParseDuration(WriteDuration(v)))
DenotesPeriod(s, v) == Denotes(ParsePeriod(s), v, ParsePeriod(WritePeriod(v)))

ValueParam(v) == IF HasTime(v) THEN {cDATETIME} ELSE {cDATE}

SameFloat(s, v) == LET d == Decimal(s) IN d.st = "ok" /\ d.v = Decimal(v).v

RuleDenotes(s, v) == Denotes(ParseRule(s), v, ParseRule(WriteRule(v)))

\* A line holds this value.
LineHolds(ty, l, v, dev) ==
    CASE ty = "TEXT" -> ExactParams(l.p, v.p) /\ SameText(l.v, v.t) /\ ~Separated(l.v)
      [] ty = "URI" -> ExactParams(l.p, v.p) /\ l.v = NoBreaks(v.t)
      [] ty = "DT" -> OnlyValue(l.p, {cDATETIME}, FALSE) /\ DenotesDateTime(l.v, v)
      [] ty = "DOD" -> OnlyValue(l.p, ValueParam(v), ~HasTime(v)) /\ DenotesDate(l.v, v)
      [] ty = "DUR" -> OnlyValue(l.p, {cDURATION}, FALSE) /\ DenotesDuration(l.v, v)
      [] ty = "CLASS" -> l.p = <<>> /\ l.v = Upper(IF v[1] = "CUSTOM" THEN v[2] ELSE C(v[1]))
      [] ty = "GEO" -> l.p = <<>> /\ LET fs == SplitOn(l.v, SEMI) IN
                         Len(fs) = 2 /\ SameFloat(fs[1], v[1]) /\ SameFloat(fs[2], v[2])
      [] ty = "PRIO" -> l.p = <<>> /\ Denotes(ParsePriority(l.v), v, ParsePriority(v))
      [] ty = "PERCENT" -> l.p = <<>> /\ Denotes(ParsePercent(l.v), v, ParsePercent(v))
      [] ty = "U32" -> l.p = <<>> /\ Denotes(ParseU32(l.v), v, ParseU32(v))
      [] ty = "STATUS" -> l.p = <<>> /\ Denotes(ParseStatus(l.v), v, OK(v))
      [] ty = "TRANSP" -> l.p = <<>> /\ Denotes(ParseTransp(l.v), v, OK(v))
      [] ty = "RRULE" -> l.p = <<>> /\ RuleDenotes(l.v, v)
      [] ty = "OFFSET" -> l.p = <<>> /\ Denotes(ParseOffset(l.v, {}), v, ParseOffset(WriteOffset(v), {}))
      [] ty = "RSTATUS" ->
           l.p = <<>> /\
           LET parts == SplitUnescaped(l.v, SEMI) IN
           /\ Len(parts) = 2 + Len(v.ext)
           /\ LET d == Decimal(parts[1]) IN
                /\ d.st \in {"ok", "ext"} /\ d.v = Decimal(v.code).v
                /\ d.neg \/ Has(parts[1], DOT)
           /\ SameText(parts[2], v.desc) /\ ~Separated(parts[2])
           /\ v.ext # <<>> => (SameText(parts[3], v.ext[1]) /\ ~Separated(parts[3]))
      [] ty = "TRIGGER" ->
           IF v[1] = "dt" THEN OnlyValue(l.p, {cDATETIME}, TRUE) /\ DenotesDateTime(l.v, v[2])
           ELSE OnlyValue(l.p, {cDURATION}, FALSE) /\ DenotesDuration(l.v, v[2])
      [] ty = "RDATE" ->
           LET vs == v[2]
               items == SplitOn(l.v, COMMA)
               notime == \A j \in 1..Len(vs) : ~HasTime(vs[j])
           IN /\ Len(items) = Len(vs)
              /\ IF v[1] = "period"
                 THEN /\ OnlyValue(l.p, {cPERIOD}, TRUE)
                      /\ \A j \in 1..Len(vs) : DenotesPeriod(items[j], vs[j])
                 ELSE /\ OnlyValue(l.p, IF notime THEN {cDATE} ELSE {cDATETIME}, notime)
                      /\ \A j \in 1..Len(vs) : DenotesDate(items[j], vs[j])

\* The items of a line of a list.
Items(ty, l) ==
    LET cut == IF ty = "TEXT" THEN SplitUnescaped(l.v, COMMA) ELSE SplitOn(l.v, COMMA)
    IN Now([j \in 1..Len(cut) |-> [l EXCEPT !.v = cut[j]]])

ItemHolds(ty, l, v, dev) ==
    IF ty = "PERIOD" THEN OnlyValue(l.p, {cPERIOD}, FALSE) /\ DenotesPeriod(l.v, v)
    ELSE LineHolds(ty, l, v, dev)

FieldHolds(f, lines, vs, dev) ==
    IF f.mult = "append"
    THEN LET items == Flatten([j \in 1..Len(lines) |-> Items(f.ty, lines[j])]) IN
         /\ Len(items) = Len(vs) /\ \A j \in 1..Len(vs) : ItemHolds(f.ty, items[j], vs[j], dev)
         \* One line, unless the parameters of the items need more.
         /\ Len(lines) > 1 => \E j \in 1..Len(vs) : TypeParams(f.ty, vs[j]) # <<>>
    ELSE Len(lines) = Len(vs) /\ \A j \in 1..Len(vs) : LineHolds(f.ty, lines[j], vs[j], dev)

EntriesHold(es, lines) ==
    \A j \in 1..Len(es) :
        LET mine == SelectSeq(lines, LAMBDA l : l.key = es[j].n) IN
        Len(mine) = 1 /\ ExactParams(mine[1].p, es[j].p) /\ mine[1].v = NoBreaks(es[j].v)

\* The first thing wrong with the raw structure, "" if it holds the component.
RECURSIVE Wrong(_, _, _)
Wrong(raw, c, dev) ==
    LET fields == Fields[c.k]
        keyOf(j) == WireKey(fields[j].name, dev)
        keys == {keyOf(j) : j \in 1..Len(fields)}
        others == SelectSeq(raw.lines, LAMBDA l : l.key \notin keys)
        badfield == SelectInSeq(fields, LAMBDA f :
                       ~FieldHolds(f, SelectSeq(raw.lines, LAMBDA l : l.key = WireKey(f.name, dev)), c.f[f.name], dev))
        subs(kind) == SelectSeq(raw.subs, LAMBDA s : s.k = kind)
        badkind == SelectInSeq(c.s, LAMBDA s : Len(subs(s[1])) # Len(s[2]))
        wrongsub == SelectInSeq(c.s, LAMBDA s : \E j \in 1..Len(s[2]) : Wrong(subs(s[1])[j], s[2][j], dev) # "")
    IN IF raw.k # WireName(c.k) THEN "kind"
       ELSE IF badfield # 0 THEN fields[badfield].name
       ELSE IF Len(others) # Len(c.x) + Len(c.i) THEN "number of other lines"
       ELSE IF ~EntriesHold(c.x, others) THEN "extension"
       ELSE IF ~EntriesHold(c.i, others) THEN "other property"
       ELSE IF badkind # 0 THEN "number of components"
       ELSE IF wrongsub # 0 THEN "component " \o c.s[wrongsub][1]
       ELSE ""

\* The text is one of those the component may be written as.
Written(c, text, dev) ==
    IF ~WellFormedPhysical(text) THEN "lines"
    ELSE IF ~Writable(c, dev) THEN ""
    ELSE LET r == Raw(text) IN IF ~r.ok THEN "structure" ELSE Wrong(r.tree, c, dev)

-----------------------------------------------------------------------------
(* What comes back *)

SameValue(ty, a, b) ==
    CASE ty = "TEXT" -> ExactParams(b.p, a.p) /\ SameText(a.t, b.t)
      [] ty = "URI" -> ExactParams(b.p, a.p) /\ b.t = NoBreaks(a.t)
      [] ty = "RSTATUS" -> /\ a.code = b.code /\ SameText(a.desc, b.desc)
                           /\ Len(a.ext) = Len(b.ext)
                           /\ \A j \in 1..Len(a.ext) : SameText(a.ext[j], b.ext[j])
      [] ty = "CLASS" -> IF a[1] = "CUSTOM" THEN b[1] = "CUSTOM" /\ b[2] = Upper(a[2]) ELSE a = b
      [] OTHER -> a = b

SameEntries(as, bs) ==
    /\ Len(as) = Len(bs)
    /\ \A j \in 1..Len(as) : /\ bs[j].n = as[j].n /\ bs[j].k = as[j].n
                             /\ ExactParams(bs[j].p, as[j].p)
                             /\ bs[j].v = NoBreaks(as[j].v)

\* b is a, with the only differences the format imposes.
RECURSIVE Differs(_, _)
Differs(a, b) ==
    IF a.k # b.k THEN "kind"
    ELSE LET fields == Fields[a.k]
             bad == SelectInSeq(fields, LAMBDA f :
                      LET as == a.f[f.name]  bs == b.f[f.name] IN
                      Len(as) # Len(bs) \/ \E j \in 1..Len(as) : ~SameValue(f.ty, as[j], bs[j]))
             badsub == SelectInSeq([j \in 1..Len(a.s) |-> j], LAMBDA j :
                      LET as == a.s[j][2]  bs == b.s[j][2] IN
                      Len(as) # Len(bs) \/ \E m \in 1..Len(as) : Differs(as[m], bs[m]) # "")
         IN IF bad # 0 THEN fields[bad].name
            ELSE IF ~SameEntries(a.x, b.x) THEN "extension"
            ELSE IF ~SameEntries(a.i, b.i) THEN "other property"
            ELSE IF badsub # 0 THEN "component " \o a.s[badsub][1]
            ELSE ""

-----------------------------------------------------------------------------
(* One writer, for the models: it folds greedily, and writes a list on one line  *)
(* unless its items have parameters.                                      *)

WriteParam(kv) ==
    LET v == ParamText(kv[2]) IN
    <<SEMI>> \o kv[1] \o <<EQ>>
      \o (IF \E j \in 1..Len(v) : v[j] \in {COLON, SEMI, COMMA} THEN <<DQ>> \o v \o <<DQ>> ELSE v)

WriteLine(key, p, v) ==
    FoldLine(key \o Flatten([j \in 1..Len(p) |-> WriteParam(p[j])]) \o <<COLON>> \o NoBreaks(v)) \o <<CR, LF>>

WriteEntry(e) == WriteLine(e.n, e.p, e.v)

RECURSIVE WriteComponent(_, _)
WriteComponent(c, dev) ==
    LET fields == Fields[c.k]
        value(j) ==
            LET f == fields[j]
                vs == c.f[f.name]
                key == WireKey(f.name, dev)
                list == f.mult = "append" /\ vs # <<>> /\ \A m \in 1..Len(vs) : TypeParams(f.ty, vs[m]) = <<>>
            IN IF list THEN WriteLine(key, <<>>, Joined([m \in 1..Len(vs) |-> WriteValue(f.ty, vs[m])], COMMA))
               ELSE Flatten([m \in 1..Len(vs) |-> WriteLine(key, TypeParams(f.ty, vs[m]), WriteValue(f.ty, vs[m]))])
    IN C("BEGIN:" \o WireName(c.k)) \o <<CR, LF>>
         \o Flatten([j \in 1..Len(fields) |-> value(j)])
         \o Flatten([j \in 1..Len(c.x) |-> WriteEntry(c.x[j])])
         \o Flatten([j \in 1..Len(c.i) |-> WriteEntry(c.i[j])])
         \o Flatten([j \in 1..Len(c.s) |-> Flatten([m \in 1..Len(c.s[j][2]) |-> WriteComponent(c.s[j][2][m], dev)])])
         \o C("END:" \o WireName(c.k)) \o <<CR, LF>>
=============================================================================
