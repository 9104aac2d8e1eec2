------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validates the traces recorded from ikal against the specification.      *)
(*                                                                         *)
(* Each trace is one behaviour: an initial state, and one step for each of *)
(* its events, which must be what the specification allows in the current  *)
(* state (the component last read or built, the text last written, the     *)
(* iterator).  Iterators also take internal steps, one for each candidate  *)
(* which is excluded or before the window.                                 *)
(*                                                                         *)
(* An event which isn't allowed is reported and ends its trace.  Known is  *)
(* the set of known deviations: an event allowed with these only is also   *)
(* reported, as such, and the trace goes on.                               *)
(***************************************************************************)
EXTENDS Life, Order, Macro, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACES)
Known == LET l == ndJsonDeserialize(IOEnv.KNOWN) IN {l[j] : j \in 1..Len(l)}

VARIABLES trNo, evNo, mach

vars == <<trNo, evNo, mach>>

NoIter == [ph |-> "no", s |-> <<>>, skip |-> 0, open |-> 0, closed |-> FALSE]
\* cur: the event which gave the component, edits: those which changed it since, txt: the one which
\* wrote it, was: the text of the last one, seen: the last component read, vw: the last value written.
\* mark: the event which copied the component.
Start == [cur |-> 0, edits |-> <<>>, txt |-> 0, was |-> 0, seen |-> 0, vw |-> 0, mark |-> 0, it |-> NoIter, bad |-> FALSE]

Ev(j) == Traces[trNo].ev[j]
Has1(r, key) == key \in DOMAIN r

\* The current component: what was built, read or taken, with what was changed since.
Cur ==
    LET e == Ev(mach.cur)
        c == IF e.e = "build" THEN e.c ELSE e.out.c
    IN FoldLeft(LAMBDA acc, j : Edited(acc, Ev(j)), c, mach.edits)
\* The local time zone of the process.
Here == IF Has1(Traces[trNo], "zone") THEN Traces[trNo].zone ELSE <<>>

Broken1(out) == out.st \in {"panic", "hang"}

-----------------------------------------------------------------------------
(* Reading *)

\* What an outcome says against a specified reading, Same(v) comparing the values.
JudgeRead(r, out, Same(_)) ==
    IF Broken1(out) THEN out.st
    ELSE CASE r.st = "free" -> ""
           [] r.st = "bad" -> IF out.st = "err" THEN "" ELSE "accepted"
           [] r.st = "ok" -> IF out.st = "err" THEN "rejected" ELSE Same(r.v)
           [] r.st = "ext" -> IF out.st = "err" THEN "" ELSE Same(r.v)

\* Two components are the same, save these fields.
UnlikeBeside(a, b, beside) ==
    LET kept(name) == \A j \in 1..Len(beside) : beside[j] # name
        mask(c) == [c EXCEPT !.f = [name \in DOMAIN c.f |-> IF kept(name) THEN c.f[name] ELSE <<>>],
                             !.x = SelectSeq(c.x, LAMBDA l : \A j \in 1..Len(beside) : C(beside[j]) # l.n),
                             !.i = SelectSeq(c.i, LAMBDA l : \A j \in 1..Len(beside) : C(beside[j]) # l.n),
                             !.s = [j \in 1..Len(c.s) |-> IF kept(c.s[j][1]) THEN c.s[j] ELSE <<c.s[j][1], <<>>>>]]
    IN Unlike(mask(a), mask(b))

JudgeReadBeside(e) ==
    IF ~Has1(e, "beside") \/ mach.seen = 0 \/ e.out.st # "ok" THEN ""
    ELSE LET w == UnlikeBeside(Ev(mach.seen).out.c, e.out.c, e.beside) IN IF w = "" THEN "" ELSE "also " \o w

JudgeParse(e, dev) ==
    IF Has1(e, "j") /\ ~e.j THEN IF Broken1(e.out) THEN e.out.st ELSE JudgeReadBeside(e)
    ELSE IF JudgeReadBeside(e) # "" THEN JudgeReadBeside(e)
    ELSE JudgeRead(Read(e.ty, e.text, dev), e.out, LAMBDA v : Unlike(v, e.out.c))

\* Deviation: a UTC date-time alone is read as a local one, which may not exist.
ReadLocal(v, got) == KindOf(v) = 2 /\ got \in Instants(v, Here) \cup Edges(v, Here)
LocalGap(v, out, dev) == "UTCLOCAL" \in dev /\ out.st = "err" /\ KindOf(v) = 2 /\ Instants(v, Here) = {}

\* The date-time which is read alone in a value of these types.
AloneDate(ty, v) == IF ty \in {"Date", "DateTime"} THEN v ELSE IF ty = "Trigger" /\ v[1] = "dt" THEN v[2] ELSE <<0>>

JudgeVal(e, dev) ==
    IF Has1(e, "j") /\ ~e.j THEN IF Broken1(e.out) THEN e.out.st ELSE ""
    ELSE
    LET r == ParseAlone(e.ty, e.text)
        same(v) ==
          IF e.out.v = v THEN ""
          ELSE IF "UTCLOCAL" \in dev /\ ReadLocal(AloneDate(e.ty, v), AloneDate(e.ty, e.out.v)) THEN ""
          ELSE "value"
    IN IF r.st = "ok" /\ LocalGap(AloneDate(e.ty, r.v), e.out, dev) THEN "" ELSE JudgeRead(r, e.out, same)

JudgeMacro(e) == JudgeRead(Made(e.kind, e.entries), e.out, LAMBDA v : Unlike(v, e.out.c))

-----------------------------------------------------------------------------
(* Writing *)

\* What changed in the text is what changed in the component.
JudgeBeside(e) ==
    IF ~Has1(e, "beside") \/ mach.was = 0 THEN ""
    ELSE LET a == Raw(Ev(mach.was).out.text)
             b == Raw(e.out.text)
         IN IF a.ok /\ b.ok /\ ~SameBeside(a.tree, b.tree, e.beside) THEN "the rest of the text" ELSE ""

JudgeWrite(e, dev) ==
    IF e.out.st # "ok" THEN e.out.st
    ELSE IF JudgeBeside(e) # "" THEN JudgeBeside(e)
    ELSE LET c == IF "UTCWALL" \in dev THEN Walls(Cur, Here) ELSE Cur
             same == mach.txt # 0 /\ Has1(e, "again") /\ Ev(mach.txt).out.text # e.out.text
         IN IF same THEN "another text"
            ELSE IF Has1(e, "j") /\ ~e.j THEN ""
            ELSE Written(c, e.out.text, dev)

\* Deviation: the seconds of an offset aren't read.
WholeMinutes(x) == IF x < 0 THEN -((-x) - ((-x) % 60)) ELSE x - (x % 60)
RECURSIVE NoSeconds(_)
NoSeconds(c) ==
    [c EXCEPT !.f = [name \in FieldNames(c.k) |->
                       IF FieldOf(c.k, name).ty = "OFFSET"
                       THEN [j \in 1..Len(c.f[name]) |-> WholeMinutes(c.f[name][j])] ELSE c.f[name]],
              !.s = [j \in 1..Len(c.s) |->
                       <<c.s[j][1], [k \in 1..Len(c.s[j][2]) |-> NoSeconds(c.s[j][2][k])]>>]]

\* Only what can be written has to come back.
JudgeReread(e, dev) ==
    IF Broken1(e.out) THEN e.out.st
    ELSE IF ~Writable(Cur, dev) THEN ""
    ELSE IF e.out.st # "ok" THEN "rejected"
    ELSE LET w == IF "UTCWALL" \in dev THEN Walls(Cur, Here) ELSE Cur
             c == IF "TZSEC" \in dev THEN NoSeconds(w) ELSE w
             d == Differs(c, e.out.c)
         IN IF d # "" THEN d
            ELSE IF JudgeReadBeside(e) # "" THEN JudgeReadBeside(e)
            ELSE IF e.out.eq # (Unlike(Cur, e.out.c) = "") THEN "equality"
            ELSE ""

AloneType == [Date |-> "DOD", DateTime |-> "DT", Period |-> "PERIOD", Recur |-> "RRULE",
              Trigger |-> "TRIGGER", Geo |-> "GEO", RequestStatus |-> "RSTATUS", Class |-> "CLASS",
              Status |-> "STATUS", TimeTransparency |-> "TRANSP", Duration |-> "DUR",
              Offset |-> "OFFSET", Text |-> "TEXT", Uri |-> "URI", RDate |-> "RDATE",
              StartEnd |-> "PERIOD", StartDur |-> "PERIOD"]

\* Line breaks are only replaced once in a line.
AttrParams(attr) == IF attr = <<>> THEN [st |-> "ok", p |-> <<>>]
                    ELSE Lex(<<65, SEMI>> \o NoBreaks(attr[1]) \o <<COLON>>)

\* Only some of the values are also displayed as they are written.
JudgeAloneWritten(e, dev) ==
    IF e.out.st # "ok" THEN e.out.st
    ELSE LET o == e.out
             v == IF "UTCWALL" \in dev /\ e.ty \in DOMAIN AloneType THEN WallValue(AloneType[e.ty], e.v, Here) ELSE e.v
             p == AttrParams(o.attr)
         IN IF o.full # (IF o.attr = <<>> THEN o.text ELSE o.attr[1] \o <<COLON>> \o o.text) THEN "whole"
            ELSE IF o.disp # <<>> /\ e.ty \notin {"Text", "RDate"} /\ o.disp[1] # o.text THEN "display"
            ELSE IF p.st # "ok" THEN "parameters"
            ELSE IF e.ty = "String"
                 THEN IF SameText(o.text, v) /\ ~Separated(o.text) /\ ~Broken(o.text) THEN "" ELSE "text"
            ELSE IF e.ty = "Uri"
                 THEN IF ExactParams(p.p, v.p) /\ NoBreaks(o.text) = NoBreaks(v.t) THEN "" ELSE "text"
            ELSE IF e.ty \notin DOMAIN AloneType
                 THEN LET r == ParseAlone(e.ty, o.text) IN IF r.st \in {"ok", "ext"} /\ r.v = v THEN "" ELSE "text"
            ELSE IF ItemHolds(AloneType[e.ty], [key |-> <<65>>, p |-> p.p, v |-> o.text], v, dev)
                 THEN "" ELSE "text"

JudgeAloneReread(e, dev) ==
    LET v == Ev(mach.vw).v
        ty == Ev(mach.vw).ty
        out == e.out
        w == IF "UTCWALL" \in dev /\ ty \in DOMAIN AloneType THEN WallValue(AloneType[ty], v, Here) ELSE v
        back(x) == IF ty \in DOMAIN AloneType THEN SameValue(AloneType[ty], w, x) ELSE x = w
        \* The two deviations compensate each other, save around the changes of the offset.
        local(x) == "UTCLOCAL" \in dev /\ ReadLocal(AloneDate(ty, w), AloneDate(ty, x))
    IN IF LocalGap(AloneDate(ty, w), out, dev) THEN ""
       ELSE IF out.st # "ok" THEN out.st
       ELSE IF local(out.v) THEN ""
       ELSE IF ~back(out.v) THEN "value"
       ELSE IF out.eq # (out.v = v) THEN "equality"
       ELSE ""

-----------------------------------------------------------------------------
(* Equality, copies and conversions *)

\* A copy holds the same.
JudgeMark(e) == IF e.out.st # "ok" THEN e.out.st ELSE Unlike(Cur, e.out.c)

\* What was copied is as it was, whatever happened since, and equal if nothing did.
JudgeSame(e) ==
    IF e.out.st # "ok" THEN e.out.st
    ELSE LET m == Ev(mach.mark).out.c
             c == Cur
             o == e.out
             eq == Unlike(m, c) = ""
         IN IF Unlike(m, o.c) # "" THEN "the copy changed: " \o Unlike(m, o.c)
            ELSE IF Unlike(c, o.d) # "" THEN "another copy: " \o Unlike(c, o.d)
            ELSE IF o.eq # eq THEN "equality"
            ELSE IF o.qe # eq THEN "equality the other way"
            ELSE IF o.ne # ~eq THEN "inequality"
            ELSE IF ~o.copy THEN "not equal to its copy"
            ELSE ""

JudgeAlike(e) ==
    IF e.out.st # "ok" THEN e.out.st
    ELSE LET o == e.out
             eq == SameThing(e.ty, e.a, e.b)
         IN IF o.eq # eq THEN "equality"
            ELSE IF o.qe # eq THEN "equality the other way"
            ELSE IF o.ne # ~eq THEN "inequality"
            ELSE IF ~o.self \/ o.copy # e.a \/ o.other # e.a THEN "copy"
            ELSE ""

\* An alarm is the component which it's made from, with the action of its kind.
JudgeAlarm(e) ==
    IF e.out.st # "ok" THEN e.out.st
    ELSE Unlike([Cur EXCEPT !.f["ACTION"] = <<[p |-> <<>>, t |-> C(Cur.k)]>>], e.out.c)

\* Nothing but what is required.
Blank(kind, c) ==
    /\ c.k = kind
    /\ \A name \in FieldNames(kind) : FieldOf(kind, name).mult = "req" \/ c.f[name] = <<>>
    /\ c.x = <<>> /\ c.i = <<>>
    /\ \A j \in 1..Len(c.s) : c.s[j][2] = <<>>

JudgeNew(e) ==
    IF e.out.st # "ok" THEN e.out.st
    ELSE IF ~Blank(e.ty, e.out.c) THEN "default"
    ELSE IF e.out.new # <<>> /\ ~Blank(e.ty, e.out.new[1]) THEN "new"
    ELSE ""

\* Several values are separated by commas, an optional one is itself or nothing.
JudgeWrap(e) ==
    IF e.out.st # "ok" THEN e.out.st
    ELSE LET o == e.out
             n == Len(e.vs)
         IN IF \E j \in 1..n : o.each[j] = <<>> THEN "not written"
            ELSE IF o.list # <<Flatten(Now([j \in 1..n |-> IF j = 1 THEN o.each[1][1] ELSE <<COMMA>> \o o.each[j][1]]))>> THEN "several"
            ELSE IF o.some # IF n = 0 THEN <<<<>>>> ELSE o.each[1] THEN "one"
            ELSE IF o.attr # o.own THEN "its parameters"
            ELSE IF o.none # <<<<>>>> \/ o.noattr # <<>> THEN "none"
            ELSE ""

\* What is made from a string is this string, or what a line holds; so it's seen.
JudgeFrom(e) ==
    IF e.out.st # "ok" THEN e.out.st
    ELSE LET want == IF e.how = "line" THEN [p |-> e.c.x[1].p, t |-> e.c.x[1].v] ELSE [p |-> <<>>, t |-> e.t]
         IN IF e.out.v # want THEN "value"
            ELSE IF \E j \in 1..Len(e.out.looks) : e.out.looks[j] # want.t THEN "seen otherwise"
            ELSE ""

-----------------------------------------------------------------------------
(* Nested components *)

Wire(kind) == C("BEGIN:" \o WireName(kind)) \o <<CR, LF>>

\* The parts not consumed yet, where next is how many of each list were, follow each other from there
\* on: <<>> if they don't, else where they end.
RECURSIVE Consumed(_, _, _, _)
Consumed(text, at, parts, next) ==
    LET here(j) == next[j] < Len(parts[j][2])
                     /\ LET t == parts[j][2][next[j] + 1].text IN
                        Len(text) >= at + Len(t) - 1 /\ SubSeq(text, at, at + Len(t) - 1) = t
        j == SelectInSeq([j \in 1..Len(parts) |-> j], here)
    IN IF \A k \in 1..Len(parts) : next[k] = Len(parts[k][2]) THEN <<at>>
       ELSE IF j = 0 THEN <<>>
       ELSE Consumed(text, at + Len(parts[j][2][next[j] + 1].text), parts, [next EXCEPT ![j] = @ + 1])

\* A component is written as its own properties, then its components as they are alone, and its end.
JudgeParts(e) ==
    IF e.out.st # "ok" THEN e.out.st
    ELSE LET o == e.out
             end == C("END:" \o WireName(Cur.k)) \o <<CR, LF>>
             own == SubSeq(o.bare.text, 1, Len(o.bare.text) - Len(end))
             to == Consumed(o.whole.text, Len(own) + 1, o.parts, [j \in 1..Len(o.parts) |-> 0])
             st(j) == {o.parts[j][2][m].st : m \in 1..Len(o.parts[j][2])}
             sts == UNION {st(j) : j \in 1..Len(o.parts)}
             within == [o.alone.c EXCEPT !.s = [j \in 1..Len(o.parts) |->
                            <<o.parts[j][1], [m \in 1..Len(o.parts[j][2]) |-> o.parts[j][2][m].c]>>]]
         IN IF o.whole.st # "ok" \/ o.bare.st # "ok" \/ "err" \in sts THEN "not written"
            ELSE IF SubSeq(o.bare.text, Len(own) + 1, Len(o.bare.text)) # end THEN "end"
            ELSE IF Len(o.whole.text) < Len(own) \/ SubSeq(o.whole.text, 1, Len(own)) # own THEN "properties"
            ELSE IF to = <<>> THEN "written otherwise"
            ELSE IF SubSeq(o.whole.text, to[1], Len(o.whole.text)) # end THEN "more than its components"
            ELSE IF (o.read.st = "ok") # (o.alone.st = "ok" /\ "unread" \notin sts) THEN "read or not"
            ELSE IF o.read.st # "ok" THEN ""
            ELSE LET w == Unlike(within, o.read.c) IN IF w = "" THEN "" ELSE "read otherwise: " \o w

\* A component is read as its own properties, and its components as they are alone.
JudgeInside(e) ==
    IF e.out.st # "ok" THEN e.out.st
    ELSE LET o == e.out
             n == Len(o.parts)
             all == o.bare.st = "ok" /\ \A j \in 1..n : o.parts[j].st = "ok"
             list(kind) == SelectSeq([j \in 1..n |-> j], LAMBDA j : WireName(e.parts[j].ty) = kind)
             within == [o.bare.c EXCEPT !.s = [k \in 1..Len(o.bare.c.s) |->
                            LET js == list(o.bare.c.s[k][1]) IN
                            <<o.bare.c.s[k][1], [m \in 1..Len(js) |-> o.parts[js[m]].c]>>]]
         IN IF (o.whole.st = "ok") # all THEN "read or not"
            ELSE IF ~all THEN ""
            ELSE Unlike(within, o.whole.c)

-----------------------------------------------------------------------------
(* Order, conversion, arithmetic *)

JudgeCmp(e) ==
    IF e.out.st # "ok" THEN e.out.st
    ELSE LET c == Cmp(e.ty, e.a, e.b, Here)
             o == e.out
         IN IF o.cmp # c THEN "order"
            ELSE IF o.rev # -c THEN "reverse order"
            ELSE IF o.pcmp # <<c>> THEN "partial order"
            ELSE IF o.eq # SameThing(e.ty, e.a, e.b) THEN "equality"
            ELSE IF o.lt # (c < 0) \/ o.le # (c <= 0) \/ o.gt # (c > 0) \/ o.ge # (c >= 0) THEN "operators"
            ELSE ""

\* Digits of a number, at least n of them.
RECURSIVE Digits(_, _)
Digits(x, n) == IF n <= 1 /\ x < 10 THEN <<48 + x>> ELSE Append(Digits(x \div 10, n - 1), 48 + (x % 10))

Iso(x) == Digits(x[2], 4) \o <<MINUS>> \o Digits(x[3], 2) \o <<MINUS>> \o Digits(x[4], 2)
IsoTime(x) == Iso(x) \o <<SP>> \o Digits(x[5], 2) \o <<COLON>> \o Digits(x[6], 2) \o <<COLON>> \o Digits(x[7], 2)

\* The conversions keep the day and the time of the wall clock.
JudgeConv(e) ==
    IF e.out.st # "ok" THEN e.out.st
    ELSE LET a == e.a
             o == e.out
             n == Clock(a, Here)
             d == AsDate(n)
             loc == IF KindOf(a) = 2 THEN {a} ELSE Instants(n, Here)
             edge == IF KindOf(a) = 2 THEN {} ELSE Edges(n, Here)
         IN IF o.has_time # HasTime(a) THEN "has_time"
            ELSE IF o.dt # AsDateTime(a) THEN "to a date-time"
            ELSE IF o.back # AsDateTime(a) THEN "from a date-time"
            ELSE IF o.day # d \/ o.dtday # d THEN "day"
            ELSE IF o.nd # d \/ o.from_nd # d THEN "naive date"
            ELSE IF o.ndt # n \/ o.naive # n \/ o.from_ndt # n \/ o.dt_from_ndt # n THEN "naive date-time"
            ELSE IF o.local = <<>> /\ loc # {} THEN "local date-time"
            ELSE IF o.local # <<>> /\ o.local[1] \notin loc \cup edge THEN "local date-time"
            ELSE IF o.from_local # o.local \/ o.dt_from_local # o.local THEN "from a local date-time"
            ELSE IF o.fmt # Iso(d) \/ o.dtfmt # IsoTime(n) THEN "format"
            ELSE ""

JudgeArith(e) ==
    IF e.out.st # "ok" THEN e.out.st
    ELSE LET want == CASE e.e = "plus" -> Plus(e.a, e.b)
                       [] e.e = "minus" -> Plus(Clock(e.a, Here), Neg(e.b))
                       [] e.e = "diff" -> Between(e.a, e.b, Here)
                       [] e.e = "pdur" -> PeriodLength(e.a, Here)
             got == IF e.e = "pdur" THEN e.out.dur ELSE e.out.v
         IN IF got = want THEN "" ELSE "result"

JudgeRuleAdd(e) ==
    IF e.out.st # "ok" THEN e.out.st
    ELSE IF e.how = "NaiveDate" /\ e.r.freq \in SubDaily THEN ""
    ELSE IF Has1(e, "loose") THEN IF Less(e.a, e.out.v, Here) THEN "" ELSE "not later"
    ELSE IF e.out.v = NextCandidate(e.r, e.a) THEN "" ELSE "next date"

-----------------------------------------------------------------------------
(* Iterating *)

Plan(c) == PlanIn(c, Here)

JudgeOccurrence(e, c, s) ==
    LET o == e.out
        loose == s.end # <<>> /\ LooseEnd(Plan(c).rule, c.f["DTSTART"][1], EndOf(c)[1])
        want == Occurrence(c, s)
    IN IF o.st # "some" THEN "ended"
       ELSE IF o.d # <<s.cand>> THEN "start"
       ELSE IF ~loose /\ o.end # s.end THEN "end"
       ELSE IF o.cnt # s.cnt THEN "count"
       ELSE IF Has1(o, "c") THEN Unlike(IF loose THEN [want EXCEPT !.f[EndName(c)] = o.c.f[EndName(c)]] ELSE want, o.c)
       ELSE ""

JudgeTake(e, c) ==
    IF Broken1(e.out) THEN e.out.st
    ELSE IF ~CanRecur(c) THEN IF e.out.st = "none" THEN "" ELSE "not recurring"
    ELSE LET s == ToOccurrence(Plan(c), StartRecur(Plan(c)), e.n) IN
         IF s.over THEN IF e.out.st = "none" THEN "" ELSE "not ended"
         ELSE JudgeOccurrence(e, c, s)

\* What the start of an iteration says of the component itself.
JudgeOpen(e, c) ==
    LET o == e.start IN
    IF Broken1(e.out) THEN e.out.st
    ELSE IF o.d # c.f["DTSTART"] \/ o.end # EndOf(c) THEN "component"
    ELSE ""

-----------------------------------------------------------------------------
(* Steps *)

Report(kind, j, what, keys) ==
    PrintT("@@" \o ToJson([r |-> kind, t |-> Traces[trNo].id, fam |-> Traces[trNo].fam, ev |-> j, op |-> Ev(j).e,
                           what |-> what, keys |-> keys]))

\* The event is allowed, ideally or with known deviations; J(dev) says what's wrong with it.
Check(j, J(_), next) ==
    LET w == J({}) IN
    IF w = "" THEN mach' = next
    ELSE LET one == {k \in Known : J({k}) = ""}
             all == Known # {} /\ J(Known) = ""
         IN IF one # {} THEN Report("known", j, w, {CHOOSE k \in one : TRUE}) /\ mach' = next
            ELSE IF all THEN Report("known", j, w, Known) /\ mach' = next
            ELSE Report("bad", j, w, {}) /\ mach' = [mach EXCEPT !.bad = TRUE]

OkAt(e, j, old) == IF e.out.st = "ok" THEN j ELSE old

Simple(e, j) ==
    CASE e.e = "parse" -> Check(j, LAMBDA d : JudgeParse(e, d),
                                [mach EXCEPT !.cur = OkAt(e, j, 0), !.edits = <<>>, !.txt = 0, !.seen = OkAt(e, j, 0)])
      [] e.e = "build" -> mach' = [mach EXCEPT !.cur = j, !.edits = <<>>, !.txt = 0]
      [] e.e = "set" -> mach' = [mach EXCEPT !.edits = Append(@, j), !.txt = 0]
      [] e.e = "take" -> Check(j, LAMBDA d : JudgeTake(e, Cur),
                               IF e.out.st = "some" THEN [mach EXCEPT !.cur = j, !.edits = <<>>, !.txt = 0] ELSE mach)
      [] e.e = "mark" -> Check(j, LAMBDA d : JudgeMark(e), [mach EXCEPT !.mark = j])
      [] e.e = "same" -> Check(j, LAMBDA d : JudgeSame(e), mach)
      [] e.e = "alarm" -> Check(j, LAMBDA d : JudgeAlarm(e), [mach EXCEPT !.cur = j, !.edits = <<>>, !.txt = 0])
      [] e.e = "new" -> Check(j, LAMBDA d : JudgeNew(e), mach)
      [] e.e = "alike" -> Check(j, LAMBDA d : JudgeAlike(e), mach)
      [] e.e = "wrap" -> Check(j, LAMBDA d : JudgeWrap(e), mach)
      [] e.e = "from" -> Check(j, LAMBDA d : JudgeFrom(e), mach)
      [] e.e = "parts" -> Check(j, LAMBDA d : JudgeParts(e), mach)
      [] e.e = "inside" -> Check(j, LAMBDA d : JudgeInside(e), mach)
      [] e.e = "write" -> Check(j, LAMBDA d : JudgeWrite(e, d), [mach EXCEPT !.txt = j, !.was = j])
      [] e.e = "reread" -> Check(j, LAMBDA d : JudgeReread(e, d),
                                 IF e.out.st = "ok" THEN [mach EXCEPT !.cur = j, !.edits = <<>>, !.seen = j] ELSE mach)
      [] e.e = "val" -> Check(j, LAMBDA d : JudgeVal(e, d), mach)
      [] e.e = "vw" -> Check(j, LAMBDA d : JudgeAloneWritten(e, d), [mach EXCEPT !.vw = j])
      [] e.e = "vr" -> Check(j, LAMBDA d : JudgeAloneReread(e, d), mach)
      [] e.e = "cmp" -> Check(j, LAMBDA d : JudgeCmp(e), mach)
      [] e.e = "conv" -> Check(j, LAMBDA d : JudgeConv(e), mach)
      [] e.e \in {"plus", "minus", "diff", "pdur"} -> Check(j, LAMBDA d : JudgeArith(e), mach)
      [] e.e = "macro" -> Check(j, LAMBDA d : JudgeMacro(e), mach)
      [] e.e = "radd" -> Check(j, LAMBDA d : JudgeRuleAdd(e), mach)

\* Iterators: the open event sets the machine up, which then skips some occurrences.
OpenIter(e, j) ==
    LET c == Cur IN
    mach' = [mach EXCEPT !.it = [ph |-> "skip", s |-> IF CanRecur(c) THEN StartRecur(Plan(c)) ELSE <<>>,
                           skip |-> e.from, open |-> j, closed |-> ~CanRecur(c)]]

\* Internal step: the candidate isn't for the observer.
MustSkip ==
    /\ ~mach.it.closed
    /\ LET p == Plan(Cur) IN
       /\ ~Ended(p, mach.it.s)
       /\ \/ Excluded(p, mach.it.s)
          \/ mach.it.ph = "skip" /\ mach.it.skip > 0
          \/ mach.it.ph = "in" /\ Before(Ev(mach.it.open).w, mach.it.s.cand, Here)

Skip ==
    LET p == Plan(Cur)
        n == IF mach.it.ph = "skip" /\ mach.it.skip > 0 /\ ~Excluded(p, mach.it.s) THEN mach.it.skip - 1 ELSE mach.it.skip
    IN mach' = [mach EXCEPT !.it.s = Advance(p, mach.it.s), !.it.skip = n]

\* Nothing more to give.
NoMore == mach.it.closed \/ Ended(Plan(Cur), mach.it.s)

Opened(e, j) ==
    LET none == NoMore
        w == JudgeOpen(e, Cur)
    IN Check(j, LAMBDA d : IF w # "" THEN w
                           ELSE IF e.from > 0 /\ ~Has1(e, "pre") /\ (e.out.st = "none") # none THEN "occurrences before"
                           ELSE "",
             [mach EXCEPT !.it.ph = "in", !.it.closed = none])

\* Without exact intervals, only that it goes on.
Loose(e, j) ==
    LET prev == IF j > mach.it.open + 1 THEN Ev(j - 1).out ELSE [st |-> "no"] IN
    Check(j, LAMBDA d : IF Broken1(e.out) THEN e.out.st
                        ELSE IF e.out.st = "some" /\ prev.st = "some" /\ ~Less(prev.d[1], e.out.d[1], Here)
                        THEN "not later" ELSE "", mach)

NextOne(e, j) ==
    IF NoMore \/ Past(Ev(mach.it.open).w, mach.it.s.cand, Here)
    THEN Check(j, LAMBDA d : IF e.out.st = "none" THEN "" ELSE IF e.out.st = "panic" THEN "panic" ELSE "not ended",
               [mach EXCEPT !.it.closed = TRUE])
    ELSE LET p == Plan(Cur)
             s == mach.it.s
         IN Check(j, LAMBDA d : JudgeOccurrence(e, Cur, s),
                  [mach EXCEPT !.it.s = IF s.cnt = <<1>> THEN [s EXCEPT !.cnt = <<0>>] ELSE Advance(p, s)])

\* The same occurrences, however they are taken from the iterator.
JudgeWhole(e, j) ==
    IF e.out.st # "ok" THEN e.out.st
    ELSE LET some == SelectSeq(Now([k \in 1..(j - 1 - mach.it.open) |-> Ev(mach.it.open + k).out]), LAMBDA x : x.st = "some")
             n == Len(some)
             o == e.out
         IN IF o.count # n THEN "count"
            ELSE IF o.last # IF n = 0 THEN <<>> ELSE <<some[n]>> THEN "last"
            ELSE IF o.fold # some THEN "all at once"
            ELSE IF o.steps # Now([k \in 1..((n + 1) \div 2) |-> some[2 * k - 1]]) THEN "every second one"
            ELSE IF o.skipped # SubSeq(some, 2, n) THEN "but the first"
            ELSE IF o.low > n \/ (o.high # <<>> /\ o.high[1] < n) THEN "size hint"
            ELSE ""

Init == trNo \in 1..Len(Traces) /\ evNo = 0 /\ mach = Start

Step ==
    /\ ~mach.bad
    /\ evNo < Len(Traces[trNo].ev)
    /\ UNCHANGED trNo
    /\ LET j == evNo + 1
           e == Ev(j)
       IN CASE e.e = "open" ->
                 IF Has1(e, "loose") THEN mach' = [mach EXCEPT !.it = [NoIter EXCEPT !.ph = "loose", !.open = j]] /\ evNo' = j
                 ELSE IF mach.it.open # j THEN OpenIter(e, j) /\ UNCHANGED evNo
                 ELSE IF MustSkip THEN Skip /\ UNCHANGED evNo
                 ELSE Opened(e, j) /\ evNo' = j
            [] e.e = "next" ->
                 IF mach.it.ph = "loose" THEN Loose(e, j) /\ evNo' = j
                 ELSE IF MustSkip THEN Skip /\ UNCHANGED evNo
                 ELSE NextOne(e, j) /\ evNo' = j
            [] e.e = "whole" -> Check(j, LAMBDA d : JudgeWhole(e, j), mach) /\ evNo' = j
            [] OTHER -> Simple(e, j) /\ evNo' = j

\* The whole trace is a behaviour of the specification.
Finish ==
    /\ ~mach.bad
    /\ evNo = Len(Traces[trNo].ev)
    /\ TLCSet(1, TLCGet(1) + 1)
    /\ FALSE

Next == Step \/ Finish

ASSUME TLCSet(1, 0)
Done == PrintT("@@" \o ToJson([r |-> "done", n |-> TLCGet(1)]))
=============================================================================
