------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* The properties each kind of component knows, and their types.           *)
(*                                                                         *)
(*   req      exactly one value, the last one; an error without it         *)
(*   opt      at most one value, the last one                              *)
(*   many     every value, one per line                                    *)
(*   append   every value, comma-separated lists being flattened           *)
(***************************************************************************)
EXTENDS Values

P(name, ty, mult) == [name |-> name, ty |-> ty, mult |-> mult]

Alarms == {"AUDIO", "DISPLAY", "EMAIL"}
Kinds == {"VCALENDAR", "VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD",
          "DAYLIGHT", "AUDIO", "DISPLAY", "EMAIL"}

Observance == <<
    P("DTSTART", "DOD", "req"), P("TZOFFSETTO", "OFFSET", "req"), P("TZOFFSETFROM", "OFFSET", "req"),
    P("RRULE", "RRULE", "opt"), P("COMMENT", "TEXT", "many"), P("RDATE", "RDATE", "many"),
    P("TZNAME", "TEXT", "many") >>

Fields == [
  VCALENDAR |-> <<
    P("PRODID", "TEXT", "req"), P("VERSION", "TEXT", "req"),
    P("CALSCALE", "TEXT", "opt"), P("METHOD", "TEXT", "opt") >>,
  VEVENT |-> <<
    P("DTSTAMP", "DT", "req"), P("UID", "TEXT", "req"), P("DTSTART", "DOD", "req"),
    P("CLASS", "CLASS", "opt"), P("CREATED", "DT", "opt"), P("DESCRIPTION", "TEXT", "opt"),
    P("GEO", "GEO", "opt"), P("LAST-MODIFIED", "DT", "opt"), P("LOCATION", "TEXT", "opt"),
    P("ORGANIZER", "URI", "opt"), P("PRIORITY", "PRIO", "opt"), P("SEQUENCE", "U32", "opt"),
    P("STATUS", "STATUS", "opt"), P("SUMMARY", "TEXT", "opt"), P("TRANSP", "TRANSP", "opt"),
    P("URL", "URI", "opt"), P("RECURRENCE-ID", "DOD", "opt"), P("RRULE", "RRULE", "opt"),
    P("DTEND", "DOD", "opt"), P("DURATION", "DUR", "opt"), P("ATTACH", "TEXT", "many"),
    P("ATTENDEE", "URI", "many"), P("CATEGORIES", "TEXT", "append"), P("COMMENT", "TEXT", "many"),
    P("CONTACT", "TEXT", "many"), P("EXDATE", "DOD", "append"),
    P("REQUEST-STATUS", "RSTATUS", "many"), P("RELATED-TO", "TEXT", "many"),
    P("RESOURCES", "TEXT", "append"), P("RDATE", "RDATE", "many") >>,
  VTODO |-> <<
    P("DTSTAMP", "DT", "req"), P("UID", "TEXT", "req"), P("CLASS", "CLASS", "opt"),
    P("COMPLETED", "DT", "opt"), P("CREATED", "DT", "opt"), P("DTSTART", "DOD", "opt"),
    P("GEO", "GEO", "opt"), P("LAST-MODIFIED", "DT", "opt"), P("LOCATION", "TEXT", "opt"),
    P("ORGANIZER", "URI", "opt"), P("PERCENT-COMPLETE", "PERCENT", "opt"),
    P("PRIORITY", "PRIO", "opt"), P("RECURRENCE-ID", "DOD", "opt"), P("SEQUENCE", "U32", "opt"),
    P("STATUS", "STATUS", "opt"), P("SUMMARY", "TEXT", "opt"), P("URL", "URI", "opt"),
    P("RRULE", "RRULE", "opt"), P("DUE", "DOD", "opt"), P("DURATION", "DUR", "opt"),
    P("ATTACH", "TEXT", "many"), P("ATTENDEE", "URI", "many"), P("CATEGORIES", "TEXT", "append"),
    P("COMMENT", "TEXT", "many"), P("CONTACT", "TEXT", "many"), P("EXDATE", "DOD", "append"),
    P("REQUEST-STATUS", "RSTATUS", "many"), P("RELATED-TO", "TEXT", "many"),
    P("RESOURCES", "TEXT", "append"), P("RDATE", "RDATE", "many") >>,
  VJOURNAL |-> <<
    P("DTSTAMP", "DT", "req"), P("UID", "TEXT", "req"), P("CLASS", "CLASS", "opt"),
    P("CREATED", "DT", "opt"), P("DTSTART", "DOD", "req"), P("LAST-MODIFIED", "DT", "opt"),
    P("ORGANIZER", "URI", "opt"), P("RECURRENCE-ID", "DOD", "opt"), P("SEQUENCE", "U32", "opt"),
    P("STATUS", "STATUS", "opt"), P("SUMMARY", "TEXT", "opt"), P("URL", "URI", "opt"),
    P("RRULE", "RRULE", "opt"), P("ATTACH", "TEXT", "many"), P("ATTENDEE", "URI", "many"),
    P("CATEGORIES", "TEXT", "append"), P("COMMENT", "TEXT", "many"), P("CONTACT", "TEXT", "many"),
    P("DESCRIPTION", "TEXT", "many"), P("EXDATE", "DOD", "append"), P("RELATED-TO", "TEXT", "many"),
    P("RDATE", "RDATE", "many"), P("REQUEST-STATUS", "RSTATUS", "many") >>,
  VFREEBUSY |-> <<
    P("DTSTAMP", "DT", "req"), P("UID", "TEXT", "req"), P("CONTACT", "TEXT", "opt"),
    P("DTSTART", "DOD", "opt"), P("DTEND", "DOD", "opt"), P("ORGANIZER", "URI", "opt"),
    P("URL", "URI", "opt"), P("ATTENDEE", "URI", "many"), P("COMMENT", "TEXT", "many"),
    P("FREEBUSY", "PERIOD", "append"), P("REQUEST-STATUS", "RSTATUS", "many") >>,
  VTIMEZONE |-> <<
    P("TZID", "TEXT", "req"), P("LAST-MODIFIED", "DT", "opt"), P("TZURL", "URI", "opt") >>,
  STANDARD |-> Observance,
  DAYLIGHT |-> Observance,
  AUDIO |-> <<
    P("ACTION", "TEXT", "req"), P("TRIGGER", "TRIGGER", "req"), P("DURATION", "DUR", "opt"),
    P("REPEAT", "U32", "opt"), P("ATTACH", "TEXT", "many") >>,
  DISPLAY |-> <<
    P("ACTION", "TEXT", "req"), P("TRIGGER", "TRIGGER", "req"), P("DESCRIPTION", "TEXT", "req"),
    P("DURATION", "DUR", "opt"), P("REPEAT", "U32", "opt") >>,
  EMAIL |-> <<
    P("ACTION", "TEXT", "req"), P("TRIGGER", "TRIGGER", "req"), P("DESCRIPTION", "TEXT", "req"),
    P("SUMMARY", "TEXT", "req"), P("ATTENDEE", "URI", "many"), P("DURATION", "DUR", "opt"),
    P("REPEAT", "U32", "opt"), P("ATTACH", "TEXT", "many") >> ]

FieldNames(kind) == {Fields[kind][j].name : j \in 1..Len(Fields[kind])}
FieldOf(kind, name) == Fields[kind][CHOOSE j \in 1..Len(Fields[kind]) : Fields[kind][j].name = name]

\* Which kinds of components a kind holds, in the order they are stored (and not that of the text).
Subs == [VCALENDAR |-> <<"VALARM", "VEVENT", "VFREEBUSY", "VJOURNAL", "VTIMEZONE", "VTODO">>,
         VEVENT |-> <<"VALARM">>, VTIMEZONE |-> <<"STANDARD", "DAYLIGHT">>,
         VTODO |-> <<>>, VJOURNAL |-> <<>>, VFREEBUSY |-> <<>>, STANDARD |-> <<>>,
         DAYLIGHT |-> <<>>, VALARM |-> <<>>, AUDIO |-> <<>>, DISPLAY |-> <<>>, EMAIL |-> <<>>]

\* The name on the begin and end lines.
WireName(kind) == IF kind \in Alarms THEN "VALARM" ELSE kind

AllNames == UNION {FieldNames(k) : k \in Kinds}

\* The name of a field's lines: a known deviation uses another one for RECURRENCE-ID.
WireNames == [n \in AllNames \cup {"RECURID"} |-> C(n)]
WireKey(name, dev) == IF name = "RECURRENCE-ID" /\ "RECURID" \in dev THEN WireNames["RECURID"]
                      ELSE WireNames[name]

cXPrefix == C("X-")
cVALUE == C("VALUE")
cPERIOD == C("PERIOD")
cDATE == C("DATE")
cDATETIME == C("DATE-TIME")
cDURATION == C("DURATION")

ParamOf(params, name) == SelectSeq(params, LAMBDA kv : kv[1] = name)

\* What the value of a line denotes for a field of this type: always a list of values.
ParseField(ty, mult, line, dev) ==
    LET v == line.v
        one(r) == With(r.st, <<r.v>>)
        text(s) == OK([p |-> line.p, t |-> s])
    IN CASE ty = "TEXT" -> IF mult = "append" THEN All(SplitUnescaped(v, COMMA), text) ELSE one(text(v))
         [] ty = "URI" -> one(text(v))
         [] ty = "DT" -> one(ParseDateTime(v))
         [] ty = "DOD" -> IF mult = "append" THEN All(SplitOn(v, COMMA), ParseDateOrDateTime)
                          ELSE one(ParseDateOrDateTime(v))
         [] ty = "DUR" -> one(ParseDuration(v))
         [] ty = "CLASS" -> one(ParseClass(v))
         [] ty = "GEO" -> one(ParseGeo(v))
         [] ty = "PRIO" -> one(ParsePriority(v))
         [] ty = "PERCENT" -> one(ParsePercent(v))
         [] ty = "U32" -> one(ParseU32(v))
         [] ty = "STATUS" -> one(ParseStatus(v))
         [] ty = "TRANSP" -> one(ParseTransp(v))
         [] ty = "RRULE" -> one(ParseRule(v))
         [] ty = "RSTATUS" -> one(ParseRequestStatus(v))
         [] ty = "PERIOD" -> All(SplitOn(v, COMMA), ParsePeriod)
         [] ty = "OFFSET" -> one(ParseOffset(v, dev))
         [] ty = "TRIGGER" -> one(ParseTrigger(v))
         [] ty = "RDATE" ->
              LET value == ParamOf(line.p, cVALUE)
                  isper == value # <<>> /\ value[1][2] = cPERIOD
              IN IF value # <<>> /\ ~isper /\ Upper(value[1][2]) = cPERIOD THEN FREE
                 ELSE LET r == IF isper THEN All(SplitOn(v, COMMA), ParsePeriod)
                              ELSE All(SplitOn(v, COMMA), ParseDateOrDateTime)
                      IN With(r.st, <<<<IF isper THEN "period" ELSE "date", r.v>>>>)

-----------------------------------------------------------------------------
(***************************************************************************)
(* A component:                                                            *)
(*   k  its kind                                                           *)
(*   f  the values of each of its fields                                   *)
(*   x  the extension properties and                                       *)
(*   i  the other ones, by name: n, and what they hold: k, p, v            *)
(*   s  its components: for each kind, the list of them                    *)
(***************************************************************************)

\* The lines as a component of this kind; subs are its components.
Build(kind, lines, subs, dev) ==
    LET fields == Fields[kind]
        keyOf(j) == WireKey(fields[j].name, dev)
        keys == {keyOf(j) : j \in 1..Len(fields)}
        mine(j) == SelectSeq(lines, LAMBDA l : l.key = keyOf(j))
        field(j) ==
            LET f == fields[j]
                ls == mine(j)
            IN IF ls = <<>> THEN (IF f.mult = "req" THEN BAD ELSE OK(<<>>))
               ELSE LET rs == Now([m \in 1..Len(ls) |-> ParseField(f.ty, f.mult, ls[m], dev)])
                        last == rs[Len(rs)]
                        before == {rs[m].st : m \in 1..(Len(rs) - 1)}
                        st == Worst({rs[m].st : m \in 1..Len(rs)})
                    IN CASE f.mult = "req" ->
                              \* Nothing is said of the invalid values which are replaced.
                              IF before \subseteq {"ok"} THEN last
                              ELSE IF last.st = "bad" THEN last ELSE FREE
                         [] f.mult = "opt" -> With(st, last.v)
                         [] OTHER -> With(st, IF st \in {"ok", "ext"}
                                              THEN Flatten([m \in 1..Len(rs) |-> rs[m].v]) ELSE <<>>)
        parsed == Now([j \in 1..Len(fields) |-> field(j)])
        others == SelectSeq(lines, LAMBDA l : l.key \notin keys)
        map(sel(_)) == LET es == SelectSeq(others, LAMBDA l : sel(l.key)) IN
                       LET sorted == FoldLeft(LAMBDA acc, l : InsertKV(acc, l.key, <<l.key, [n |-> l.key, k |-> l.key, p |-> l.p, v |-> l.v]>>), <<>>, es)
                       IN Now([m \in 1..Len(sorted) |-> sorted[m][2]])
        st == Worst({parsed[j].st : j \in 1..Len(fields)})
    IN With(st,
         IF st \in {"bad", "free"} THEN <<>>
         ELSE [k |-> kind,
               f |-> TLCEval([name \in FieldNames(kind) |->
                        parsed[CHOOSE j \in 1..Len(fields) : fields[j].name = name].v]),
               x |-> map(LAMBDA key : StartsWith(key, cXPrefix)),
               i |-> map(LAMBDA key : ~StartsWith(key, cXPrefix)),
               s |-> subs])
=============================================================================
