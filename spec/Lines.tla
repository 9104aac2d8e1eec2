------------------------------- MODULE Lines -------------------------------
(***************************************************************************)
(* Physical lines, unfolding and content lines.                            *)
(*                                                                         *)
(* A folded line is cut by CRLF followed by a space; unfolding removes     *)
(* those three characters wherever they are, before anything else.         *)
(***************************************************************************)
EXTENDS Chars

IsFold(s, i) == i + 2 <= Len(s) /\ s[i] = CR /\ s[i + 1] = LF /\ s[i + 2] = SP

\* One pass from the left: [out, skip] while skip characters remain to drop.
Unfold(s) ==
    IF ~\E i \in 1..Len(s) : IsFold(s, i) THEN s
    ELSE LET starts == {i \in 1..Len(s) : IsFold(s, i)}
             dropped == starts \cup {i + 1 : i \in starts} \cup {i + 2 : i \in starts}
             kept == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i \notin dropped)
         IN Now([k \in 1..Len(kept) |-> s[kept[k]]])

\* Logical lines: [s |-> content, t |-> how it ends]: "crlf", "lf" or "eof".
LogicalLines(s) ==
    LET cut == SplitOn(s, LF)
        line(k) ==
            LET l == cut[k] IN
            IF k = Len(cut) THEN [s |-> l, t |-> "eof"]
            ELSE IF l # <<>> /\ l[Len(l)] = CR
                 THEN [s |-> Upto(l, Len(l) - 1), t |-> "crlf"]
                 ELSE [s |-> l, t |-> "lf"]
        all == Now([k \in 1..Len(cut) |-> line(k)])
    IN IF Len(all[Len(all)].s) = 0 THEN Upto(all, Len(all) - 1) ELSE all

NameEnd(s, p) == FirstFrom(s, p, LAMBDA c : ~IsNameChar(c))

(***************************************************************************)
(* The lexer of a content line is an automaton over positions:             *)
(*   name  *( ";" name "=" ( quoted / plain ) )  ":"  value                *)
(* Its outcome has st:                                                     *)
(*   "ok"   the line is a property;                                        *)
(*   "bad"  it isn't;                                                      *)
(*   "free" it isn't well-formed but nearly (no name, an unbalanced quote, *)
(*          a list of quoted values): nothing is specified about it.       *)
(***************************************************************************)
RECURSIVE LexParams(_, _, _, _)
LexParams(s, p, params, free) ==
    IF p > Len(s) THEN [st |-> "bad", p |-> <<>>, at |-> p]
    ELSE IF s[p] = COLON THEN [st |-> IF free THEN "free" ELSE "ok", p |-> params, at |-> p]
    ELSE IF s[p] # SEMI THEN [st |-> IF free THEN "free" ELSE "bad", p |-> <<>>, at |-> p]
    ELSE LET e == NameEnd(s, p + 1)
             name == SubSeq(s, p + 1, e - 1)
         IN IF e > Len(s) \/ s[e] # EQ
            THEN [st |-> IF free THEN "free" ELSE "bad", p |-> <<>>, at |-> p]
            ELSE LET q == FirstFrom(s, e + 2, LAMBDA c : c = DQ)
                     quoted == e + 1 <= Len(s) /\ s[e + 1] = DQ
                     u == FirstFrom(s, e + 1, LAMBDA c : c = SEMI \/ c = COLON)
                 IN IF quoted /\ q <= Len(s)
                    THEN LET next == IF q + 1 <= Len(s) THEN s[q + 1] ELSE 0
                         IN LexParams(s, q + 1,
                                      InsertKV(params, name, <<name, SubSeq(s, e + 2, q - 1)>>),
                                      free \/ name = <<>>
                                        \/ (next # SEMI /\ next # COLON))
                    ELSE LET v == SubSeq(s, e + 1, u - 1)
                         IN LexParams(s, u, InsertKV(params, name, <<name, v>>),
                                      free \/ name = <<>> \/ Has(v, DQ))

cBEGIN == C("BEGIN:")
cEND == C("END:")
cBeginName == C("BEGIN")
cEndName == C("END")

\* A line holding a bare CR is cut by it: never a content line.
Lex(s) ==
    IF Has(s, CR) THEN [st |-> "bad", key |-> <<>>, p |-> <<>>, v |-> <<>>]
    ELSE LET e == NameEnd(s, 1)
             key == Upto(s, e - 1)
             r == LexParams(s, e, <<>>, key = <<>> \/ Upper(key) \in {cBeginName, cEndName})
         IN [st |-> r.st, key |-> key, p |-> r.p, v |-> From(s, r.at + 1)]

-----------------------------------------------------------------------------
(***************************************************************************)
(* Writing a line: folding.                                                *)
(***************************************************************************)

\* Every way to fold is allowed as long as no physical line is too long; this is the greedy one.
RECURSIVE FoldLine(_)
FoldLine(s) ==
    LET ends == FoldLeft(LAMBDA acc, c : Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + Octets(c)),
                         <<>>, s)
        cut == FirstFrom(ends, 1, LAMBDA n : n > 75)
    IN IF cut > Len(s) THEN s
       ELSE Upto(s, cut - 1) \o <<CR, LF, SP>> \o FoldLine(From(s, cut))

\* Lines of the written text, without unfolding.
PhysicalLines(s) == LogicalLines(s)

WellFormedPhysical(s) ==
    LET ls == PhysicalLines(s) IN
    /\ s # <<>>
    /\ \A k \in 1..Len(ls) :
        /\ ls[k].t = "crlf"
        /\ ~Has(ls[k].s, CR)
        /\ OctetLen(ls[k].s) <= (IF ls[k].s # <<>> /\ ls[k].s[1] = SP THEN 76 ELSE 75)
=============================================================================
