#!/usr/bin/env python3
"""Writes macros/src/forms.rs, the uses of the macros which are checked, and macros/forms.json,
what they spell out. Both are committed: this is only run to change them.

An argument of a form is [kind of argument, type of the schema, name of the field]:
  str    a text which the macro parses or converts
  val    a value; opt, list: the whole field, optional or not
  comp   a component of the kind named by the type; comps: a list of them
  map    the entries of x_prop or iana_prop
An entry is {"n": field, "v": [items]}, an item being ["str" | "val" | "opt" | "list", argument],
["lit", value], ["obj", entries], ["new", kind, entries], ["comp" | "comps" | "map", argument]."""

import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gen import FIELDS  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "macros")

MACRO = {"VCALENDAR": "vcalendar", "VEVENT": "vevent", "VTODO": "vtodo", "VJOURNAL": "vjournal", "VFREEBUSY": "vfreebusy",
         "VTIMEZONE": "vtimezone", "AUDIO": "valarm", "DISPLAY": "valarm", "EMAIL": "valarm"}
COMP = {"VCALENDAR": "Calendar", "VEVENT": "Event", "VTODO": "Todo", "VJOURNAL": "Journal", "VFREEBUSY": "Freebusy",
        "VTIMEZONE": "Timezone", "AUDIO": "Alarm", "DISPLAY": "Alarm", "EMAIL": "Alarm"}
STRUCT = {"VCALENDAR": "ikal::VCalendar", "VEVENT": "ikal::VEvent", "VTODO": "ikal::VTodo", "VJOURNAL": "ikal::VJournal",
          "VFREEBUSY": "ikal::VFreebusy", "VTIMEZONE": "ikal::VTimezone", "VALARM": "ikal::VAlarm",
          "AUDIO": "ikal::valarm::Audio", "DISPLAY": "ikal::valarm::Display", "EMAIL": "ikal::valarm::Email",
          "STANDARD": "ikal::vtimezone::Standard", "DAYLIGHT": "ikal::vtimezone::Daylight"}
SUBFIELD = {"VALARM": "alarms", "VEVENT": "events", "VFREEBUSY": "freebusy", "VJOURNAL": "journals", "VTIMEZONE": "timezones",
            "VTODO": "todo", "STANDARD": "standard", "DAYLIGHT": "daylight"}
SUBS = {"VCALENDAR": ["VALARM", "VEVENT", "VFREEBUSY", "VJOURNAL", "VTIMEZONE", "VTODO"], "VEVENT": ["VALARM"],
        "VTIMEZONE": ["STANDARD", "DAYLIGHT"]}
RUST = {"TEXT": "ikal::Text", "URI": "ikal::Uri", "DT": "ikal::DateTime", "DOD": "ikal::Date", "DUR": "chrono::TimeDelta",
        "CLASS": "ikal::Class", "GEO": "ikal::Geo", "STATUS": "ikal::Status", "TRANSP": "ikal::TimeTransparency",
        "RRULE": "ikal::Recur", "RSTATUS": "ikal::RequestStatus", "PERIOD": "ikal::Period", "OFFSET": "chrono::FixedOffset",
        "TRIGGER": "ikal::Trigger", "RDATE": "ikal::RDate", "PRIO": "u8", "PERCENT": "u8", "U32": "u32"}
PARSED = {"DT", "DOD", "DUR", "GEO", "RRULE", "RSTATUS", "OFFSET", "TRIGGER"}
LITERALS = {
    "CLASS": [("Public", ["PUBLIC", []]), ("Private", ["PRIVATE", []]), ("Confidential", ["CONFIDENTIAL", []]),
              ('Custom("Xy".to_string())', ["CUSTOM", [88, 121]])],
    "STATUS": [("Tentative", "TENTATIVE"), ("Confirmed", "CONFIRMED"), ("Cancelled", "CANCELLED"), ("NeedsAction", "NEEDS-ACTION"),
               ("Completed", "COMPLETED"), ("InProcess", "IN-PROCESS"), ("Draft", "DRAFT"), ("Final", "FINAL")],
    "TRANSP": [("Opaque", "OPAQUE"), ("Transparent", "TRANSPARENT")],
    "FREQ": [(x.capitalize(), x) for x in ["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"]],
}
BY = ["by_second", "by_minute", "by_hour", "by_monthday", "by_yearday", "by_weekno", "by_month", "by_setpos"]


def rust_name(name):
    return {"RECURRENCE-ID": "recurid", "REQUEST-STATUS": "rstatus"}.get(name, name.lower().replace("-", "_"))


class Form:
    """A macro call in the making: its arguments, and the statements needed before it."""

    def __init__(self, kind):
        self.kind = kind
        self.args = []
        self.lets = []

    def arg(self, how, ty, name):
        self.args.append([how, ty, name])
        return len(self.args) - 1

    # Each of these is (code, entry).

    def text(self, name, ty):
        k = self.arg("str", ty, name)
        return "%s: a.s(%d)" % (rust_name(name), k), {"n": name, "v": [["str", k]]}

    def typed(self, name, ty):
        k = self.arg("val", ty, name)
        return "%s: a.v::<%s>(%d)" % (rust_name(name), RUST[ty], k), {"n": name, "v": [["val", k]]}

    def literal(self, name, ty, k):
        code, v = LITERALS[ty][k % len(LITERALS[ty])]
        return "%s: %s" % (rust_name(name), code), {"n": name, "v": [["lit", v]]}

    def items(self, name, ty, n):
        """A list between brackets."""
        how = "str" if ty in PARSED or ty in ("TEXT", "URI") else "val"
        ks = [self.arg(how, ty, name) for _ in range(n)]
        code = ", ".join("a.s(%d)" % k if how == "str" else "a.v::<%s>(%d)" % (RUST[ty], k) for k in ks)
        return "%s: [%s]" % (rust_name(name), code), {"n": name, "v": [[how, k] for k in ks]}

    def whole(self, name, ty):
        k = self.arg("list", ty, name)
        return "%s: a.l::<%s>(%d)" % (rust_name(name), RUST[ty], k), {"n": name, "v": [["list", k]]}

    def short(self, name, ty, mult):
        how = {"req": "val", "opt": "opt"}.get(mult, "list")
        k = self.arg(how, ty, name)
        f = {"val": "v", "opt": "o", "list": "l"}[how]
        self.lets.append("let %s = a.%s::<%s>(%d);" % (rust_name(name), f, RUST[ty], k))
        return rust_name(name), {"n": name, "v": [[how, k]]}

    def geo(self, name):
        la, lo = self.arg("val", "FLOAT", name), self.arg("val", "FLOAT", name)
        return ("geo: { lat: a.f(%d), lon: a.f(%d) }" % (la, lo),
                {"n": name, "v": [["obj", [{"n": "lat", "v": [["val", la]]}, {"n": "lon", "v": [["val", lo]]}]]]})

    def geo_part(self, name, part):
        k = self.arg("val", "FLOAT", name)
        return "geo: { %s: a.f(%d) }" % (part, k), {"n": name, "v": [["obj", [{"n": part, "v": [["val", k]]}]]]}

    def status_object(self, parts):
        code, es = [], []
        for p in parts:
            if p == "statcode":
                k = self.arg("val", "FLOAT", "statcode")
                code.append("statcode: a.f(%d)" % k)
                es.append({"n": p, "v": [["val", k]]})
            else:
                k = self.arg("str", "RAW", p)
                code.append("%s: a.s(%d)" % (p, k))
                es.append({"n": p, "v": [["str", k]]})
        return "{ %s }" % ", ".join(code), ["obj", es]

    def rule_part(self, p, k=0):
        if p == "freq":
            code, v = LITERALS["FREQ"][k % 7]
            return "freq: " + code, {"n": p, "v": [["lit", v]]}
        if p == "until":
            j = self.arg("val", "DOD", p)
            return "until: a.v::<ikal::Date>(%d)" % j, {"n": p, "v": [["val", j]]}
        if p in ("count", "interval"):
            j = self.arg("val", "U8", p)
            return "%s: a.n(%d)" % (p, j), {"n": p, "v": [["val", j]]}
        if p == "wkst":
            j = self.arg("val", "WEEKDAY", p)
            return "wkst: a.v::<ikal::Weekday>(%d)" % j, {"n": p, "v": [["val", j]]}
        if p == "by_day":
            j = self.arg("list", "DAYNUM", p)
            return "by_day: a.l::<ikal::WeekdayNum>(%d)" % j, {"n": p, "v": [["list", j]]}
        j = self.arg("list", "BY", p)
        return "%s: a.by(%d)" % (p, j), {"n": p, "v": [["list", j]]}

    def rule(self, parts, k=0):
        xs = [self.rule_part(p, k) for p in parts]
        return ("rrule: { %s }" % ", ".join(x[0] for x in xs), {"n": "RRULE", "v": [["obj", [x[1] for x in xs]]]})

    def comp(self, sub):
        """A list of one component, already built."""
        k = self.arg("comp", sub, "")
        return "%s: [a.v::<%s>(%d)]" % (SUBFIELD[sub], STRUCT[sub], k), {"n": sub, "v": [["comp", k]]}

    def comps(self, sub):
        k = self.arg("comps", sub, "")
        self.lets.append("let %s = a.l::<%s>(%d);" % (SUBFIELD[sub], STRUCT[sub], k))
        return SUBFIELD[sub], {"n": sub, "v": [["comps", k]]}

    def map(self, which):
        k = self.arg("map", which, "")
        return "%s: a.v::<ikal::VEvent>(%d).%s" % (which, k, which), {"n": which, "v": [["map", k]]}

    def plain(self, kind, name, ty, mult, k=0):
        """The usual way to give a field, or none."""
        if ty in LITERALS:
            return self.literal(name, ty, k)
        if mult in ("many", "append"):
            return self.short(name, ty, mult) if ty == "RDATE" else self.items(name, ty, 1 + k % 2)
        if kind == "VCALENDAR" and mult == "opt":
            return self.typed(name, ty)
        if ty in PARSED or ty in ("TEXT", "URI"):
            return self.text(name, ty)
        return self.typed(name, ty)


forms = []


def fields_of(kind):
    return [f for f in FIELDS[kind] if not (f[0] == "ACTION")]


def call(kind, codes, sep=", ", trail=True):
    # A field without a value needs its comma.
    trail = trail or (codes and ":" not in codes[-1])
    body = sep.join(codes) + ("," if trail and codes else "")
    if MACRO[kind] == "valarm":
        return "ikal::valarm! { @%s, %s }" % (kind.lower(), body)
    return "ikal::%s! { %s }" % (MACRO[kind], body)


def add(tag, form, parts, **kw):
    forms.append({"tag": tag, "kind": form.kind, "args": form.args, "entries": [p[1] for p in parts],
                  "code": call(form.kind, [p[0] for p in parts], **kw), "lets": form.lets})


def form(tag, kind, *makers, **kw):
    f = Form(kind)
    add(tag, f, [m(f) for m in makers], **kw)


for kind in MACRO:
    form("empty", kind)
    fs = fields_of(kind)
    for name, ty, mult in fs:
        many = mult in ("many", "append")
        form("short", kind, lambda f: f.short(name, ty, mult))
        if ty in LITERALS:
            for k in range(len(LITERALS[ty])):
                form("literal", kind, lambda f: f.literal(name, ty, k), trail=k % 2 == 0)
        elif many:
            if ty != "RDATE":
                for n in range(4):
                    form("items", kind, lambda f: f.items(name, ty, n), trail=n % 2 == 0)
            if ty not in PARSED and ty != "RDATE":
                form("whole", kind, lambda f: f.whole(name, ty))
            if ty == "RDATE":
                form("rdate", kind, lambda f: f.short(name, ty, mult))
        else:
            if not (kind == "VCALENDAR" and mult == "opt") and (ty in PARSED or ty in ("TEXT", "URI")):
                form("text", kind, lambda f: f.text(name, ty))
                form("text", kind, lambda f: f.text(name, ty), trail=False)
            if ty not in PARSED:
                form("typed", kind, lambda f: f.typed(name, ty))
        if ty == "GEO":
            form("object", kind, lambda f: f.geo(name))
            form("object", kind, lambda f: f.geo_part(name, "lat"))
            form("object", kind, lambda f: f.geo_part(name, "lon"))
        if ty == "RRULE":
            parts = ["freq", "until", "count", "interval", "wkst", "by_day"] + BY
            for k in range(7):
                form("object", kind, lambda f: f.rule(["freq"], k))
            for k, p in enumerate(parts):
                form("object", kind, lambda f: f.rule([p], k))
                form("object", kind, lambda f: f.rule(["freq", p, "interval"] if p not in ("freq", "interval") else ["count", p], k))
            form("object", kind, lambda f: f.rule(parts, 3))
            form("object", kind, lambda f: f.rule(parts[::-1], 5))
            form("object", kind, lambda f: f.rule([]))
        if ty == "RSTATUS":
            for parts in (["statcode", "statdesc", "extdata"], ["statcode", "statdesc"], ["statdesc"], ["extdata", "statcode"], []):
                def one(f):
                    code, item = f.status_object(parts)
                    return "rstatus: [%s]" % code, {"n": name, "v": [item]}
                form("object", kind, one)

            def mixed(f):
                k = f.arg("str", ty, name)
                c1, i1 = f.status_object(["statcode", "extdata"])
                j = f.arg("str", ty, name)
                return "rstatus: [a.s(%d), %s, a.s(%d)]" % (k, c1, j), {"n": name, "v": [["str", k], i1, ["str", j]]}
            form("object", kind, mixed)
    # Several fields.
    pairs = [(fs[k], fs[(k + 1) % len(fs)]) for k in range(len(fs))] + [(fs[(k + 5) % len(fs)], fs[k]) for k in range(len(fs))]
    for k, (p, q) in enumerate(pairs):
        if p[0] != q[0]:
            form("pair", kind, lambda f: f.plain(kind, *p, k=k), lambda f: f.plain(kind, *q, k=k + 1), trail=k % 2 == 0)
            form("pair", kind, lambda f: f.short(*p), lambda f: f.plain(kind, *q, k=k), trail=k % 3 == 0)
    for k in range(4):
        order = fs if k % 2 == 0 else fs[::-1]
        form("all", kind, *[(lambda x: lambda f: f.plain(kind, *x, k=k))(x) for x in order], trail=k < 2)
    form("all", kind, *[(lambda x: lambda f: f.short(*x))(x) for x in fs])
    form("all", kind, *[(lambda j, x: lambda f: f.short(*x) if j % 2 else f.plain(kind, *x, k=j))(j, x) for j, x in enumerate(fs)])
    form("required", kind, *[(lambda x: lambda f: f.plain(kind, *x))(x) for x in fs if x[2] == "req"])
    # Commas are only needed after the fields without a value.
    form("no commas", kind, *[(lambda x: lambda f: f.plain(kind, *x))(x) for x in fs if x[1] in ("TEXT", "DT", "DUR") and x[2] in ("req", "opt")
                              and not (kind == "VCALENDAR" and x[2] == "opt")], sep=" ", trail=False)
    # The other maps.
    form("map", kind, lambda f: f.map("x_prop"))
    form("map", kind, lambda f: f.map("iana_prop"))
    form("map", kind, lambda f: f.map("iana_prop"), lambda f: f.plain(kind, *fs[0]), lambda f: f.map("x_prop"))
    # Components.
    for sub in SUBS.get(kind, []):
        form("components", kind, lambda f: f.comp(sub))
        form("components", kind, lambda f: f.comps(sub))
        form("components", kind, lambda f: f.comps(sub), lambda f: f.plain(kind, *fs[0]))
        form("components", kind, lambda f: ("%s: []" % SUBFIELD[sub], {"n": sub, "v": []}))


def nested(f, kind, parts):
    return "{ %s }" % " ".join(p[0] + "," for p in parts), ["new", kind, [p[1] for p in parts]]


def subs_of(kind, sub, *blocks):
    """A list of nested components, each one given by the makers of its fields."""
    def make(f):
        xs = [nested(f, sub, [m(f) for m in ms]) for ms in blocks]
        return "%s: [%s]" % (SUBFIELD[sub], ", ".join(x[0] for x in xs)), {"n": sub, "v": [x[1] for x in xs]}
    return make


def one(kind, x, k=0):
    return lambda f: f.plain(kind, *x, k=k)


def alarms(*specs):
    """Alarms within an event: kind and makers."""
    def make(f):
        codes, items = [], []
        for kind, ms in specs:
            ps = [m(f) for m in ms]
            codes.append(call(kind, [p[0] for p in ps]) + "?")
            items.append(["alarm", kind, [p[1] for p in ps]])
        return "alarms: [%s]" % ", ".join(codes), {"n": "VALARM", "v": items}
    return make


ev = fields_of("VEVENT")
for k, x in enumerate(ev):
    form("nested", "VCALENDAR", subs_of("VCALENDAR", "VEVENT", [one("VEVENT", x, k)]))
    if k % 3 == 0:
        form("nested", "VCALENDAR", subs_of("VCALENDAR", "VEVENT", [one("VEVENT", x, k), one("VEVENT", ev[(k + 7) % len(ev)], k)],
                                            [one("VEVENT", ev[(k + 3) % len(ev)], k)]))
form("nested", "VCALENDAR", subs_of("VCALENDAR", "VEVENT", []))
form("nested", "VCALENDAR", subs_of("VCALENDAR", "VEVENT", [], []))
form("nested", "VCALENDAR", subs_of("VCALENDAR", "VEVENT", [one("VEVENT", x) for x in ev], [one("VEVENT", x, 1) for x in ev[::-1] if x[1] != "RDATE"]))
form("nested", "VCALENDAR", one("VCALENDAR", FIELDS["VCALENDAR"][0]), subs_of("VCALENDAR", "VEVENT", [one("VEVENT", ev[1])]),
     one("VCALENDAR", FIELDS["VCALENDAR"][1]))
for sub in ("STANDARD", "DAYLIGHT"):
    ob = fields_of(sub)
    for k, x in enumerate(ob):
        form("nested", "VTIMEZONE", subs_of("VTIMEZONE", sub, [one(sub, x, k)] if x[1] != "RDATE" else [one(sub, ob[0])]))
        form("nested", "VTIMEZONE", subs_of("VTIMEZONE", sub, [one(sub, ob[0]), one(sub, ob[k])] if 0 < k and x[1] != "RDATE" else [one(sub, ob[1])],
                                            [one(sub, ob[2])]))
        if x[1] == "RRULE":
            form("nested", "VTIMEZONE", subs_of("VTIMEZONE", sub, [lambda f: f.rule(["freq", "by_day", "by_month"], 6)]))
            form("nested", "VTIMEZONE", subs_of("VTIMEZONE", sub, [one(sub, ob[0]), lambda f: f.rule(["freq", "until"], 4), one(sub, ob[1])]))
    form("nested", "VTIMEZONE", subs_of("VTIMEZONE", sub, []))
ob = [x for x in fields_of("STANDARD") if x[1] != "RDATE"]
form("nested", "VTIMEZONE", *[one("VTIMEZONE", x) for x in FIELDS["VTIMEZONE"]],
     subs_of("VTIMEZONE", "STANDARD", [one("STANDARD", x) for x in ob], [one("STANDARD", ob[0])]),
     subs_of("VTIMEZONE", "DAYLIGHT", [one("DAYLIGHT", x, 1) for x in ob]))
for kind in ("AUDIO", "DISPLAY", "EMAIL"):
    fs = fields_of(kind)
    for k, x in enumerate(fs):
        form("alarms", "VEVENT", alarms((kind, [one(kind, x, k)])))
    form("alarms", "VEVENT", alarms((kind, [one(kind, x) for x in fs]), ("AUDIO", []), (kind, [])), one("VEVENT", ev[1]))
    form("alarms", "VCALENDAR", alarms((kind, [one(kind, x) for x in fs])))
form("alarms", "VEVENT", one("VEVENT", ev[0]), alarms(("AUDIO", [one("AUDIO", fields_of("AUDIO")[0])]), ("DISPLAY", [one("DISPLAY", fields_of("DISPLAY")[1])]),
                                                     ("EMAIL", [one("EMAIL", fields_of("EMAIL")[2])])))
form("alarms", "VCALENDAR", subs_of("VCALENDAR", "VEVENT", [one("VEVENT", ev[1]), alarms(("EMAIL", [one("EMAIL", x) for x in fields_of("EMAIL")]))],
                                    [alarms(("DISPLAY", [one("DISPLAY", x) for x in fields_of("DISPLAY")]))]))

# Long lists.
for n, kind, name in ((9, "VEVENT", "CATEGORIES"), (17, "VTODO", "COMMENT"), (33, "VJOURNAL", "RESOURCES"), (12, "VFREEBUSY", "ATTENDEE"),
                      (16, "VEVENT", "EXDATE"), (20, "VTODO", "REQUEST-STATUS"), (18, "EMAIL", "ATTENDEE"), (65, "VTIMEZONE", "TZURL"),
                      (10, "STANDARD", "COMMENT"), (11, "VJOURNAL", "EXDATE"), (19, "VEVENT", "REQUEST-STATUS"), (16, "VJOURNAL", "DESCRIPTION")):
    for x in FIELDS[kind]:
        if x[0] == name and x[2] in ("many", "append") and kind in MACRO:
            form("items", kind, lambda f: f.items(name, x[1], n))
for n in (9, 17):
    form("nested", "VCALENDAR", subs_of("VCALENDAR", "VEVENT", *[[one("VEVENT", ev[k % 5], k)] for k in range(n)]))
    form("alarms", "VEVENT", alarms(*[(("AUDIO", "DISPLAY", "EMAIL")[k % 3], [one("AUDIO", fields_of("AUDIO")[0])]) for k in range(n)]))
    form("nested", "VTIMEZONE", subs_of("VTIMEZONE", "DAYLIGHT", *[[one("DAYLIGHT", ob[k % 3], k)] for k in range(n)]))

with open(os.path.join(OUT, "src", "forms.rs"), "w") as f:
    f.write("// Written by tools/mkmacros.py.\n#![allow(clippy::all)]\n\nuse crate::{A, Comp};\n\n")
    for n, x in enumerate(forms):
        if not x["args"]:
            f.write("fn f%d(_: &A) -> ikal::Result<Comp> {\n" % n)
        else:
            f.write("fn f%d(a: &A) -> ikal::Result<Comp> {\n" % n)
        for l in x["lets"]:
            f.write("    %s\n" % l)
        f.write("    Ok(Comp::%s(%s?))\n}\n\n" % (COMP[x["kind"]], x["code"]))
    f.write("pub const FORMS: &[fn(&A) -> ikal::Result<Comp>] = &[\n")
    for n in range(len(forms)):
        f.write("    f%d,\n" % n)
    f.write("];\n")

with open(os.path.join(OUT, "forms.json"), "w") as f:
    f.write("[\n" + ",\n".join(json.dumps({k: x[k] for k in ("tag", "kind", "args", "entries")}) for x in forms) + "\n]\n")

print(len(forms), "forms")
