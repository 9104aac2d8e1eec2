------------------------------ MODULE MC_Cycle ------------------------------
(***************************************************************************)
(* Components built property by property, with samples of their values,    *)
(* up to a number of them, then written and read back.                     *)
(*                                                                         *)
(* The writer of the specification writes texts which hold the component,  *)
(* by the relation which judges the ones of ikal, and which the reader     *)
(* reads back as the same component.                                       *)
(***************************************************************************)
EXTENDS Samples, Json

CONSTANTS Of, Depth, Each, Long

VARIABLES vComp, vSteps

Entry(name, p, v) == [n |-> C(name), k |-> C(name), p |-> p, v |-> C(v)]

\* A component in the one: a minimal one of this kind, with one more property to know it.
Nested(kind, n) == [Minimal(kind) EXCEPT !.x = <<Entry("X-N", <<>>, ToString(n))>>]
Insides(wire) == IF wire = "VALARM" THEN Alarms ELSE {wire}

\* The values given at once to a property which takes several of them.
ListsOf(f, at) ==
    {<<Sample(f.ty, at + n)>> : n \in 0..((IF Each < Count(f.ty) THEN Each ELSE Count(f.ty)) - 1)}
      \cup (IF f.mult \in {"many", "append"}
            THEN {<<Sample(f.ty, at), Sample(f.ty, at + 1)>>, <<Sample(f.ty, at + 1), Sample(f.ty, at)>>, <<Sample(f.ty, at), Sample(f.ty, at)>>}
                   \cup (IF Long THEN {[j \in 1..20 |-> Sample(f.ty, j)]} ELSE {})
            ELSE {})

Emit(c) == PrintT("@@" \o ToJson(c))

Init ==
    /\ \E k \in Of : vComp = Minimal(k)
    /\ vSteps = 0
    /\ Emit(vComp)

Set(name, vs) == vComp' = [vComp EXCEPT !.f[name] = vs]

Next ==
    /\ vSteps < Depth
    /\ vSteps' = vSteps + 1
    /\ \/ \E j \in 1..Len(Fields[vComp.k]) :
            LET f == Fields[vComp.k][j] IN
            f.name # "ACTION" /\ \E vs \in ListsOf(f, vSteps + 1) : Set(f.name, vs)
       \/ \E e \in {Entry("X-A", <<>>, "1"), Entry("X-A", <<<<C("P"), C("a:b")>>>>, ""), Entry("X-a-B/1", <<<<C("P"), <<>>>>, <<C("Q"), C("q")>>>>, ":;,\\\"")} :
            vComp' = [vComp EXCEPT !.x = <<e>>]
       \/ vComp' = [vComp EXCEPT !.i = <<Entry("A", <<>>, "q"), Entry("q", <<>>, "Q")>>]
       \/ \E j \in 1..Len(vComp.s) : \E k \in Insides(vComp.s[j][1]) :
            vComp' = [vComp EXCEPT !.s[j] = <<@[1], Append(@[2], Nested(k, vSteps))>>]
    /\ Emit(vComp')

-----------------------------------------------------------------------------

Safe ==
    LET text == WriteComponent(vComp, {})
        r == Read(vComp.k, text, {})
    IN /\ Writable(vComp, {})
       /\ Written(vComp, text, {}) = ""
       /\ r.st \in {"ok", "ext"}
       /\ Differs(vComp, r.v) = ""
       \* The next time, nothing changes any more.
       /\ WriteComponent(r.v, {}) = text
=============================================================================
