------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* The reader: a machine which takes the lines of a text one by one, with  *)
(* a stack of open components.                                             *)
(*                                                                         *)
(* Its state is [want, stack, st, res]: the kind to read, the stack, how   *)
(* it goes and the component once it is complete.  st is                   *)
(*   "run"    lines are needed;                                            *)
(*   "ok"     res was read;                                                *)
(*   "ext"    res was read, or the text rejected: both are allowed;        *)
(*   "bad"    the text is rejected;                                        *)
(*   "free"   anything may happen, except not returning.                   *)
(***************************************************************************)
EXTENDS Lines, Schema

\* A frame: its kind on the wire, its lines, its components, and the worst outcome in them.
Frame(kind) == [k |-> kind, lines |-> <<>>, subs |-> Now([j \in 1..Len(Subs[kind]) |-> <<Subs[kind][j], <<>>>>]),
                body |-> "props", st |-> "ok"]

WireKinds == {"VCALENDAR", "VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD",
              "DAYLIGHT", "VALARM"}
KindNames == NameMap(WireKinds)

cACTION == C("ACTION")
AlarmNames == NameMap(Alarms)

StartReader(want) == [want |-> want, stack |-> <<>>, st |-> "run", res |-> <<>>]

Fail(r, st) == [r EXCEPT !.st = st, !.stack = <<>>]

\* The kind of alarm is given by its last ACTION.
AlarmKind(lines) ==
    LET as == SelectSeq(lines, LAMBDA l : l.key = cACTION) IN
    IF as = <<>> THEN BAD ELSE ParseName(as[Len(as)].v, AlarmNames)

\* The component a frame describes.
Complete(f, want, dev) ==
    IF f.st \in {"free", "bad"} THEN [st |-> f.st, v |-> <<>>]
    ELSE IF f.k # "VALARM"
    THEN LET c == Build(f.k, f.lines, f.subs, dev) IN
         With(Worst({c.st, f.st}), c.v)
    ELSE LET k == AlarmKind(f.lines) IN
         IF k.st # "ok" THEN k
         ELSE LET c == Build(k.v, f.lines, <<>>, dev)
                  st == IF want \in Alarms /\ want # k.v THEN "bad" ELSE Worst({c.st, f.st})
              IN With(st, c.v)

\* Adds a component to the list of its kind.
AddSub(f, wire, c) ==
    [f EXCEPT !.subs = Now([j \in 1..Len(f.subs) |->
                              IF f.subs[j][1] = wire THEN <<wire, Append(f.subs[j][2], c)>> ELSE f.subs[j]]),
              !.body = "subs"]

Allowed(kind) == {Subs[kind][j] : j \in 1..Len(Subs[kind])}

ReadLine(r, l, dev) ==
    IF r.st # "run" THEN r
    ELSE LET n == Len(r.stack) IN
    IF StartsWith(l.s, cBEGIN)
    THEN LET name == From(l.s, 7) IN
         IF name \notin DOMAIN KindNames THEN Fail(r, "bad")
         ELSE IF l.t # "crlf" THEN Fail(r, IF l.t = "lf" THEN "free" ELSE "bad")
         ELSE LET kind == KindNames[name] IN
              IF n = 0
              THEN IF kind = WireName(r.want) THEN [r EXCEPT !.stack = <<Frame(kind)>>] ELSE Fail(r, "bad")
              ELSE IF kind \in Allowed(r.stack[n].k)
                   THEN [r EXCEPT !.stack = Append(@, Frame(kind))]
                   ELSE Fail(r, "bad")
    ELSE IF n = 0 THEN Fail(r, "bad")
    ELSE LET f == r.stack[n] IN
    IF StartsWith(l.s, cEND)
    THEN LET name == From(l.s, 5)
             wire == C(f.k)
         IN IF name # wire
            \* What follows the end of a calendar isn't looked at, even on the same line.
            THEN Fail(r, IF f.k = "VCALENDAR" /\ StartsWith(name, wire) THEN "free" ELSE "bad")
            ELSE IF l.t # "crlf" /\ f.k # "VCALENDAR"
                 THEN Fail(r, IF l.t = "lf" THEN "free" ELSE "bad")
            ELSE LET c == Complete(f, r.want, dev) IN
                 IF c.st \in {"bad", "free"} THEN Fail(r, c.st)
                 ELSE IF n = 1 THEN [r EXCEPT !.stack = <<>>, !.st = c.st, !.res = c.v]
                 ELSE LET up == r.stack[n - 1]
                          added == AddSub(up, f.k, c.v)
                      IN [r EXCEPT !.stack = Append(SubSeq(@, 1, n - 2),
                                                    [added EXCEPT !.st = Worst({added.st, c.st})])]
    ELSE LET x == Lex(l.s) IN
         IF x.st = "free" THEN Fail(r, "free")
         ELSE IF x.st = "bad" \/ l.t = "eof" \/ f.body # "props" THEN Fail(r, "bad")
         ELSE [r EXCEPT !.stack[n].lines = Append(@, [key |-> x.key, p |-> x.p, v |-> x.v])]

\* Reads a whole text: [st, v].
Read(want, text, dev) ==
    LET lines == LogicalLines(Unfold(text))
        r == FoldLeft(LAMBDA acc, l : ReadLine(acc, l, dev), StartReader(want), lines)
    IN IF r.st = "run" THEN BAD ELSE [st |-> r.st, v |-> r.res]
=============================================================================
