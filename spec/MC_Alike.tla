------------------------------ MODULE MC_Alike ------------------------------
(***************************************************************************)
(* All pairs of values of each type: different ones are written            *)
(* differently, save what isn't written.                                   *)
(***************************************************************************)
EXTENDS Samples, Order, Json

VARIABLES vTy, vA, vB, vList

Named == [TEXT |-> "Text", URI |-> "Uri", DT |-> "DateTime", DOD |-> "Date", DUR |-> "Duration", CLASS |-> "Class", GEO |-> "Geo",
          U32 |-> "U32", STATUS |-> "Status", TRANSP |-> "TimeTransparency", RRULE |-> "Recur", RSTATUS |-> "RequestStatus",
          PERIOD |-> "Period", OFFSET |-> "Offset", TRIGGER |-> "Trigger", RDATE |-> "RDate"]

Init ==
    /\ vTy \in DOMAIN Named
    /\ \E m, n \in 1..Count(vTy) : vA = Sample(vTy, m) /\ vB = Sample(vTy, n)
    /\ vList = <<>>
    /\ PrintT("@@" \o ToJson([op |-> "alike", ty |-> Named[vTy], a |-> vA, b |-> vB]))

\* Lists of them, from none to three.
Next ==
    /\ Len(vList) < 3
    /\ UNCHANGED <<vTy, vA, vB>>
    /\ \E v \in {vA, vB} : vList' = Append(vList, v)
    /\ PrintT("@@" \o ToJson([op |-> "wrap", ty |-> Named[vTy], vs |-> vList']))

Line(v) == [key |-> <<65>>, p |-> TypeParams(vTy, v), v |-> WriteValue(vTy, v)]

Safe ==
    /\ SameThing(Named[vTy], vA, vB) = (vA = vB)
    /\ vA # vB => Line(vA) # Line(vB)
=============================================================================
