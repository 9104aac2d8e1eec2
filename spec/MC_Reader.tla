------------------------------ MODULE MC_Reader ------------------------------
(***************************************************************************)
(* Every sequence of begin lines, end lines and property lines, up to a    *)
(* number of them, given to the reader as long as it needs more.           *)
(*                                                                         *)
(* The reader, a machine with a stack, is compared with a grammar: what it *)
(* accepts are the balanced texts of known components where they are       *)
(* expected, and the tree it makes is that of the text.                    *)
(***************************************************************************)
EXTENDS Reader, Json

CONSTANTS Depth, Wants

\* Begin lines come with the properties their component needs; A and D are two kinds of alarms.
Needed == [
  VCALENDAR |-> <<"PRODID:p", "VERSION:2.0">>,
  VEVENT |-> <<"DTSTAMP:20240101T000000Z", "UID:u", "DTSTART:20240101">>,
  VTODO |-> <<"DTSTAMP:20240101T000000Z", "UID:u">>,
  VJOURNAL |-> <<"DTSTAMP:20240101T000000Z", "UID:u", "DTSTART:20240101">>,
  VFREEBUSY |-> <<"DTSTAMP:20240101T000000Z", "UID:u">>,
  VTIMEZONE |-> <<"TZID:z">>,
  STANDARD |-> <<"DTSTART:20240101", "TZOFFSETFROM:+0100", "TZOFFSETTO:+0200">>,
  DAYLIGHT |-> <<"DTSTART:20240101", "TZOFFSETFROM:+0100", "TZOFFSETTO:+0200">>,
  VALARM |-> <<"ACTION:AUDIO", "TRIGGER:PT1H">>,
  VOTHER |-> <<>> ]

Tokens == {<<"B", k>> : k \in WireKinds} \cup {<<"E", k>> : k \in WireKinds}
            \cup {<<"B", "VOTHER">>, <<"E", "VOTHER">>, <<"L", "">>, <<"J", "">>}

VARIABLES vWant, vToks, vReader

\* The n-th token as lines: components are marked by its number.
LinesOf(t, n) ==
    CASE t[1] = "B" -> <<C("BEGIN:" \o t[2])>> \o [j \in 1..Len(Needed[t[2]]) |-> C(Needed[t[2]][j])] \o <<C("X-N:" \o ToString(n))>>
      [] t[1] = "E" -> <<C("END:" \o t[2])>>
      [] t[1] = "L" -> <<C("X-L:1")>>
      [] t[1] = "J" -> <<C("nothing")>>

TextOf(toks) == Flatten([n \in 1..Len(toks) |-> Flatten([j \in 1..Len(LinesOf(toks[n], n)) |-> LinesOf(toks[n], n)[j] \o <<CR, LF>>])])

Given(r, t, n) == FoldLeft(LAMBDA acc, l : ReadLine(acc, [s |-> l, t |-> "crlf"], {}), r, LinesOf(t, n))

\* What would close the components which are open, for the texts which are wrong before their end.
Closers(stack) == Flatten([j \in 1..Len(stack) |-> C("END:" \o stack[Len(stack) + 1 - j].k) \o <<CR, LF>>])

Emit(want, text) == PrintT("@@" \o ToJson([want |-> want, text |-> text]))

Init == vWant \in Wants /\ vToks = <<>> /\ vReader = StartReader(vWant)

Next ==
    /\ vReader.st = "run"
    /\ Len(vToks) < Depth
    /\ UNCHANGED vWant
    /\ \E t \in Tokens :
         LET n == Len(vToks) + 1
             r == Given(vReader, t, n)
             toks == Append(vToks, t)
         IN /\ vToks' = toks
            /\ vReader' = r
            /\ Emit(vWant, TextOf(toks))
            /\ r.st # "bad" \/ vReader.stack = <<>> \/ Emit(vWant, TextOf(toks) \o Closers(vReader.stack))

-----------------------------------------------------------------------------
(* The grammar *)

\* Where the component of this kind ends, its body being from position p; 0 if it doesn't.
RECURSIVE Body(_, _, _)
Body(p, kind, props) ==
    IF p > Len(vToks) THEN 0
    ELSE LET t == vToks[p] IN
         CASE t[1] = "E" -> IF t[2] = kind THEN p + 1 ELSE 0
           [] t[1] = "L" -> IF props THEN Body(p + 1, kind, TRUE) ELSE 0
           [] t[1] = "J" -> 0
           [] t[1] = "B" ->
                IF t[2] = "VOTHER" \/ t[2] \notin {Subs[kind][j] : j \in 1..Len(Subs[kind])} THEN 0
                ELSE LET q == Body(p + 1, t[2], TRUE) IN IF q = 0 THEN 0 ELSE Body(q, kind, FALSE)

WantedWire == WireName(vWant)
Balanced == /\ vToks # <<>>
            /\ vToks[1] = <<"B", WantedWire>>
            /\ Body(2, WantedWire, TRUE) = Len(vToks) + 1
            /\ vWant \notin Alarms \/ vWant = "AUDIO"

\* The number marking a component.
MarkOf(c) == Num(c.x[CHOOSE j \in 1..Len(c.x) : c.x[j].n = C("X-N")].v)

\* The tree of the result: <<parent, kind, children in order>>.
RECURSIVE TreeOf(_)
TreeOf(c) ==
    UNION {LET sub == c.s[j] IN
           {<<MarkOf(c), sub[1], [m \in 1..Len(sub[2]) |-> MarkOf(sub[2][m])]>>}
             \cup UNION {TreeOf(sub[2][m]) : m \in 1..Len(sub[2])} : j \in 1..Len(c.s)}

\* The tree of the text: the depth of each position, and the last one before which is less deep.
DepthAt(n) == Cardinality({j \in 1..n : vToks[j][1] = "B"}) - Cardinality({j \in 1..n : vToks[j][1] = "E"})
ParentAt(n) == CHOOSE j \in 1..(n - 1) : /\ vToks[j][1] = "B" /\ DepthAt(j) = DepthAt(n) - 1
                                         /\ \A m \in (j + 1)..(n - 1) : DepthAt(m) >= DepthAt(n) - 1
                                         /\ \A m \in (j + 1)..(n - 1) : ~(vToks[m][1] = "B" /\ DepthAt(m) = DepthAt(n) - 1)
Begins == {n \in 1..Len(vToks) : vToks[n][1] = "B"}
TreeOfText ==
    UNION {{<<n, Subs[vToks[n][2]][j],
              SetToSortSeq({m \in Begins \ {1} : vToks[m][2] = Subs[vToks[n][2]][j] /\ ParentAt(m) = n}, LAMBDA a, b : a < b)>>
             : j \in 1..Len(Subs[vToks[n][2]])} : n \in Begins}

Safe ==
    /\ vReader.st \in {"run", "ok", "bad"}
    /\ vReader.st = "ok" <=> Balanced
    /\ vReader.st = "ok" => TreeOf(vReader.res) = TreeOfText
    \* Nothing which comes later changes what is wrong.
    /\ vReader.st = "bad" => \A k \in WireKinds : Given(vReader, <<"E", k>>, 99).st = "bad"
=============================================================================
