------------------------------- MODULE Macro -------------------------------
(***************************************************************************)
(* The construction macros: what a list of fields spells out.              *)
(*                                                                         *)
(* An entry is [n, v]: the field, and its items.  An item is               *)
(*   <<"str", s>>    a text, which is parsed or taken as it is;            *)
(*   <<"val", x>>    a value, <<"lit", x>> one given by its name;          *)
(*   <<"opt", xs>>, <<"list", xs>>  all the values of the field;           *)
(*   <<"obj", es>>   a value given by the entries of its parts;            *)
(*   <<"new", k, es>>, <<"alarm", k, es>>  a component given by entries;   *)
(*   <<"comp", c>>, <<"comps", cs>>  components;                           *)
(*   <<"map", es>>   the extension, or the other properties.               *)
(***************************************************************************)
EXTENDS Schema

EmptyText == [p |-> <<>>, t |-> <<>>]

\* What a required field is without a value.
DefaultValue(kind, f) ==
    CASE f.name = "ACTION" -> [p |-> <<>>, t |-> C(kind)]
      [] f.ty \in {"TEXT", "URI"} -> EmptyText
      [] f.ty \in {"DT", "DOD"} -> <<1, 1970, 1, 1, 0, 0, 0>>
      [] f.ty = "OFFSET" -> 0
      [] f.ty = "TRIGGER" -> <<"dur", <<0, 0, 0>>>>

\* Offsets are read by chrono, which takes more than the format.
MacroOffset(s) ==
    LET r == ParseOffset(s, {}) IN
    IF Len(s) = 5 /\ r.st = "ok" THEN r
    ELSE IF \E j \in 1..Len(s) : IsDigit(s[j]) \/ s[j] \in {90, 122} THEN FREE ELSE BAD

MacroText(ty, s) ==
    CASE ty \in {"TEXT", "URI"} -> OK([p |-> <<>>, t |-> s])
      [] ty = "DT" -> ParseDateTime(s)
      [] ty = "DOD" -> ParseDateOrDateTime(s)
      [] ty = "DUR" -> ParseLooseDuration(s)
      [] ty = "GEO" -> ParseGeo(s)
      [] ty = "RRULE" -> ParseRule(s)
      [] ty = "RSTATUS" -> ParseRequestStatus(s)
      [] ty = "TRIGGER" -> ParseLooseTrigger(s)
      [] ty = "OFFSET" -> MacroOffset(s)

\* The last entry of a part, or the default.
PartOf(es, name, default) ==
    LET mine == SelectSeq(es, LAMBDA x : x.n = name) IN
    IF mine = <<>> THEN default ELSE mine[Len(mine)].v[1][2]
Some(es, name) == IF \E j \in 1..Len(es) : es[j].n = name THEN <<PartOf(es, name, 0)>> ELSE <<>>

MacroObject(ty, es) ==
    CASE ty = "GEO" -> <<Decimal(PartOf(es, "lat", <<48>>)).v, Decimal(PartOf(es, "lon", <<48>>)).v>>
      [] ty = "RSTATUS" -> [code |-> Decimal(PartOf(es, "statcode", <<48>>)).v,
                            desc |-> PartOf(es, "statdesc", <<>>), ext |-> Some(es, "extdata")]
      [] ty = "RRULE" ->
           [freq |-> PartOf(es, "freq", "DAILY"), until |-> Some(es, "until"), count |-> Some(es, "count"),
            interval |-> PartOf(es, "interval", 0),
            by |-> [j \in 1..8 |-> PartOf(es, <<"by_second", "by_minute", "by_hour", "by_monthday", "by_yearday",
                                                "by_weekno", "by_month", "by_setpos">>[j], <<>>)],
            byday |-> PartOf(es, "by_day", <<>>), wkst |-> Some(es, "wkst")]

RECURSIVE Made(_, _)

\* The values of an item, for a field of this type.
MacroItem(ty, it) ==
    CASE it[1] = "str" -> LET r == MacroText(ty, it[2]) IN With(r.st, <<r.v>>)
      [] it[1] \in {"val", "lit", "comp"} -> OK(<<it[2]>>)
      [] it[1] \in {"opt", "list", "comps", "map"} -> OK(it[2])
      [] it[1] = "obj" -> OK(<<MacroObject(ty, it[2])>>)
      [] it[1] \in {"new", "alarm"} -> LET r == Made(it[2], it[3]) IN With(r.st, <<r.v>>)

MacroEntry(ty, e) ==
    LET rs == [j \in 1..Len(e.v) |-> MacroItem(ty, e.v[j])]
        st == Worst({rs[j].st : j \in 1..Len(rs)})
    IN With(st, IF st \in {"ok", "ext"} THEN Flatten([j \in 1..Len(rs) |-> rs[j].v]) ELSE <<>>)

\* The component, if all that is named can be read; nothing else is set.
Made(kind, es) ==
    LET fields == Fields[kind]
        named(name) == SelectInSeq(es, LAMBDA x : x.n = name)
        value(name, ty, default) == LET j == named(name) IN IF j = 0 THEN OK(default) ELSE MacroEntry(ty, es[j])
        fs == [j \in 1..Len(fields) |->
                 value(fields[j].name, fields[j].ty,
                       IF fields[j].mult = "req" THEN <<DefaultValue(kind, fields[j])>> ELSE <<>>)]
        subs == [j \in 1..Len(Subs[kind]) |-> value(Subs[kind][j], "", <<>>)]
        st == Worst({fs[j].st : j \in 1..Len(fs)} \cup {subs[j].st : j \in 1..Len(subs)})
    IN With(st,
         IF st \in {"bad", "free"} THEN <<>>
         ELSE [k |-> kind,
               f |-> [name \in FieldNames(kind) |-> fs[CHOOSE j \in 1..Len(fields) : fields[j].name = name].v],
               x |-> value("x_prop", "", <<>>).v,
               i |-> value("iana_prop", "", <<>>).v,
               s |-> [j \in 1..Len(subs) |-> <<Subs[kind][j], subs[j].v>>]])
=============================================================================
