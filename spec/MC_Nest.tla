------------------------------ MODULE MC_Nest ------------------------------
(***************************************************************************)
(* Components which hold others: every sequence of some blocks, which can  *)
(* be read or not when they are alone.                                     *)
(*                                                                         *)
(* The whole is read when each of them is, as itself with each of them in  *)
(* the list of its kind, in the order of the text.                         *)
(***************************************************************************)
EXTENDS Samples, Json

CONSTANTS Of, Size, Rich

VARIABLES vKind, vBlocks

Crlf(s) == C(s) \o <<CR, LF>>
Block(kind, body) == Crlf("BEGIN:" \o WireName(kind)) \o body \o Crlf("END:" \o WireName(kind))
Body(kind) == LET t == WriteComponent(Minimal(kind), {})
                  head == Len(Crlf("BEGIN:" \o WireName(kind)))
                  tail == Len(Crlf("END:" \o WireName(kind)))
              IN SubSeq(t, head + 1, Len(t) - tail)

In(kind, text) == [ty |-> IF kind \in Alarms THEN "VALARM" ELSE kind, text |-> text]

\* Blocks of a kind: as it should be, with more, empty, with a value which isn't one.
Some(kind) ==
    {In(kind, Block(kind, Body(kind))),
     In(kind, Block(kind, Body(kind) \o Crlf("X-N:1") \o Crlf("QN:;,:"))),
     In(kind, Block(kind, <<>>))}
    \cup (IF kind \in {"VEVENT", "VTODO", "VJOURNAL"}
          THEN {In(kind, Block(kind, Body(kind) \o Crlf("STATUS:NOT")))}
          ELSE {})
    \cup (IF kind = "VEVENT"
          THEN {In(kind, Block(kind, Body(kind) \o Block("AUDIO", Body("AUDIO")))),
                In(kind, Block(kind, Body(kind) \o Block("AUDIO", <<>>))),
                In(kind, Block(kind, Body(kind) \o Block("EMAIL", Body("EMAIL")) \o Block("AUDIO", Body("AUDIO"))))}
          ELSE {})
    \cup (IF kind = "VTIMEZONE"
          THEN {In(kind, Block(kind, Body(kind) \o Block("STANDARD", Body("STANDARD")) \o Block("DAYLIGHT", Body("DAYLIGHT")))),
                In(kind, Block(kind, Body(kind) \o Block("DAYLIGHT", Body("DAYLIGHT") \o Crlf("COMMENT:c")) \o Block("DAYLIGHT", Crlf("X-A:"))))}
          ELSE {})
    \cup (IF Rich
          THEN {In(kind, Block(kind, Crlf("X-N:2") \o Body(kind) \o Body(kind))),
                In(kind, Block(kind, Body(kind) \o C("X-F:a") \o <<CR, LF, SP>> \o Crlf("b"))),
                In(kind, Block(kind, Body(kind) \o Block("VTODO", Body("VTODO"))))}
          ELSE {})

Pool(kind) ==
    UNION { IF Subs[kind][j] = "VALARM" THEN UNION {Some(k) : k \in IF Rich THEN Alarms ELSE {"AUDIO", "DISPLAY"}} ELSE Some(Subs[kind][j]) :
              j \in 1..Len(Subs[kind]) }

Head1 == Crlf("BEGIN:" \o vKind) \o Body(vKind)
Tail1 == Crlf("END:" \o vKind)

Init == vKind \in Of /\ vBlocks = <<>>

Next ==
    /\ Len(vBlocks) < Size
    /\ UNCHANGED vKind
    /\ \E b \in Pool(vKind) : vBlocks' = Append(vBlocks, b)
    /\ PrintT("@@" \o ToJson([ty |-> vKind, head |-> Head1, tail |-> Tail1, parts |-> vBlocks']))

-----------------------------------------------------------------------------

Safe ==
    LET n == Len(vBlocks)
        whole == Read(vKind, Head1 \o Flatten([j \in 1..n |-> vBlocks[j].text]) \o Tail1, {})
        bare == Read(vKind, Head1 \o Tail1, {})
        alone == [j \in 1..n |-> Read(vBlocks[j].ty, vBlocks[j].text, {})]
        list(kind) == SelectSeq([j \in 1..n |-> j], LAMBDA j : vBlocks[j].ty = kind)
    IN /\ bare.st = "ok"
       /\ \A j \in 1..n : alone[j].st \in {"ok", "bad"}
       /\ whole.st = (IF \A j \in 1..n : alone[j].st = "ok" THEN "ok" ELSE "bad")
       /\ whole.st = "ok" =>
            whole.v = [bare.v EXCEPT !.s = [k \in 1..Len(bare.v.s) |->
                          LET js == list(bare.v.s[k][1]) IN <<bare.v.s[k][1], [m \in 1..Len(js) |-> alone[js[m]].v]>>]]
=============================================================================
