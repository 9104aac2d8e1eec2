------------------------------ MODULE MC_Equal ------------------------------
(***************************************************************************)
(* A component which was copied, then changed, and changed back: it's      *)
(* equal to its copy when nothing differs, and only then; what is written  *)
(* tells them apart as well.                                               *)
(***************************************************************************)
EXTENDS MC_Life

VARIABLES vMark

\* The lists in another order.
Turned(c) ==
    {[op |-> "set", part |-> "f", name |-> Fields[c.k][j].name, v |-> Reverse(c.f[Fields[c.k][j].name])] :
       j \in {j \in 1..Len(Fields[c.k]) : Fields[c.k][j].mult \in {"many", "append"}}}
    \cup {[op |-> "set", part |-> "s", name |-> c.s[j][1], v |-> Reverse(c.s[j][2])] : j \in 1..Len(c.s)}

\* One of its components is changed.
Deeper(c) ==
    UNION {UNION {{[op |-> "set", part |-> "s", name |-> c.s[j][1], v |-> [c.s[j][2] EXCEPT ![m] = Edited(@, e)]] :
                     e \in Changes(c.s[j][2][m].k)} : m \in 1..Len(c.s[j][2])} : j \in 1..Len(c.s)}

\* An extension under another name, or with the same one as an other property.
Renamed(c) ==
    UNION {{[op |-> "set", part |-> p, name |-> p, v |-> <<[es[1] EXCEPT !.n = C("X-Z")]>>],
            [op |-> "set", part |-> p, name |-> p, v |-> <<[es[1] EXCEPT !.k = C("X-Z")]>>],
            [op |-> "set", part |-> p, name |-> p, v |-> <<[es[1] EXCEPT !.p = IF @ = <<>> THEN <<<<C("Q"), <<>>>>>> ELSE <<>>]>>]} :
             <<p, es>> \in {q \in {<<"x", c.x>>, <<"i", c.i>>} : q[2] # <<>>}}
    \cup {[op |-> "set", part |-> "x", name |-> "x", v |-> c.i], [op |-> "set", part |-> "i", name |-> "i", v |-> c.x]}

Apply(e) ==
    /\ Edited(vComp, e) # vComp
    /\ vComp' = Edited(vComp, e)
    /\ vLog' = Append(vLog, e)
    /\ vStep' = "change"

Vary == \E e \in Changes(vComp.k) \cup Turned(vComp) \cup Deeper(vComp) \cup Renamed(vComp) : Apply(e) /\ UNCHANGED vMark

\* A part is again as it was when it was copied.
Back ==
    /\ \/ \E name \in FieldNames(vComp.k) : Apply([op |-> "set", part |-> "f", name |-> name, v |-> vMark.f[name]])
       \/ Apply([op |-> "set", part |-> "x", name |-> "x", v |-> vMark.x])
       \/ Apply([op |-> "set", part |-> "i", name |-> "i", v |-> vMark.i])
       \/ \E j \in 1..Len(vMark.s) : Apply([op |-> "set", part |-> "s", name |-> vMark.s[j][1], v |-> vMark.s[j][2]])
    /\ UNCHANGED vMark

Copied ==
    /\ vMark # vComp
    /\ vMark' = vComp
    /\ vLog' = Append(vLog, [op |-> "mark"])
    /\ vStep' = "copy"
    /\ UNCHANGED vComp

EqualInit == Init /\ vMark = vComp

EqualNext ==
    /\ Len(vLog) <= Depth
    /\ UNCHANGED <<vPrev, vNames>>
    /\ Vary \/ Back \/ Copied
    /\ Len(vLog') <= Depth \/ PrintT("@@" \o ToJson(vLog'))

-----------------------------------------------------------------------------

Told ==
    /\ (vComp = vMark) = (Unlike(vMark, vComp) = "")
    /\ (Unlike(vComp, vMark) = "") = (Unlike(vMark, vComp) = "")
    /\ Unlike(vComp, vComp) = ""

\* Two which aren't written the same aren't equal, and those which are only differ by what isn't written.
Apart ==
    LET a == WriteComponent(vMark, {})
        b == WriteComponent(vComp, {})
    IN a # b => Unlike(vMark, vComp) # ""

Plain(c) ==
    [c EXCEPT !.x = [j \in 1..Len(c.x) |-> [c.x[j] EXCEPT !.k = c.x[j].n]],
              !.i = [j \in 1..Len(c.i) |-> [c.i[j] EXCEPT !.k = c.i[j].n]]]
Injective ==
    Writable(vMark, {}) /\ Writable(vComp, {}) /\ WriteComponent(vMark, {}) = WriteComponent(vComp, {})
      => Differs(Plain(vMark), Plain(vComp)) = ""

EqualSafe == Told /\ Apart /\ Injective
=============================================================================
