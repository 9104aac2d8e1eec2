"""The cases of each property: what the models yield, and what is generated around it.

A case is a list of operations of the harness. What they must give is only said by the
specification. A case stays within what its property is about: everything else in it is kept
plain."""

import copy
import datetime
import json
import os
import random
import re

import engine
import gen
import zones
from engine import Model
from zones import ZONES
from gen import ALARMS, BY, DAYS, FIELDS, FREQ, KINDS, MINIMAL, SUBS, Gen, cps, wire_kind

VALS = ["Date", "DateTime", "Period", "Recur", "Freq", "Weekday", "WeekdayNum", "Trigger", "Geo", "RequestStatus",
        "Class", "Status", "TimeTransparency", "Duration"]
READABLE = ["VCALENDAR", "VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VALARM",
            "AUDIO", "DISPLAY", "EMAIL"]
RECURRING = ["VEVENT", "VTODO", "VJOURNAL"]


def parse(ty, text, **kw):
    return dict({"op": "parse", "ty": ty, "text": cps(text)}, **kw)


def val(ty, text, **kw):
    return dict({"op": "val", "ty": ty, "text": cps(text)}, **kw)


def batch(fam, ops, n=12):
    """Independent operations, some to a case."""
    return [{"fam": fam, "ops": ops[k:k + n]} for k in range(0, len(ops), n)]


VALUES = ["DT", "DOD", "DUR", "TRIGGER", "PERIOD", "OFFSET", "GEO", "PRIO", "PERCENT", "U32", "STATUS", "TRANSP", "CLASS", "RSTATUS",
          "FREQ", "WEEKDAY", "DAYNUM", "RDATE"]
# Where the values of each type are in a component, and the type of those which can be read alone.
PLACES = {"DT": ("VEVENT", "CREATED"), "DOD": ("VTODO", "DTSTART"), "DUR": ("VEVENT", "DURATION"), "TRIGGER": ("AUDIO", "TRIGGER"),
          "PERIOD": ("VFREEBUSY", "FREEBUSY"), "OFFSET": ("STANDARD", "TZOFFSETTO"), "GEO": ("VEVENT", "GEO"), "PRIO": ("VTODO", "PRIORITY"),
          "PERCENT": ("VTODO", "PERCENT-COMPLETE"), "U32": ("VJOURNAL", "SEQUENCE"), "STATUS": ("VJOURNAL", "STATUS"),
          "TRANSP": ("VEVENT", "TRANSP"), "CLASS": ("VTODO", "CLASS"), "RSTATUS": ("VFREEBUSY", "REQUEST-STATUS"),
          "RRULE": ("VEVENT", "RRULE"), "RDATE": ("VJOURNAL", "RDATE")}
SINGLE = {"DT": "DateTime", "DOD": "Date", "DUR": "Duration", "TRIGGER": "Trigger", "PERIOD": "Period", "GEO": "Geo", "STATUS": "Status",
          "TRANSP": "TimeTransparency", "CLASS": "Class", "RSTATUS": "RequestStatus", "FREQ": "Freq", "WEEKDAY": "Weekday",
          "DAYNUM": "WeekdayNum", "RRULE": "Recur"}


def texts(whats, quick, thorough):
    """The model of the texts of these types, to these numbers of tokens."""
    c = {"Whats": "{%s}" % ", ".join('"%s"' % w for w in whats)}
    return Model("MC_Texts", c, {"Depth": quick}, {"Depth": thorough})


def once(out):
    """What a model yielded, once each."""
    return list({json.dumps(x, sort_keys=True): x for x in out}.values())


def distinct(out):
    """The texts yielded by a model: (what, text), once each."""
    seen = set()
    for r in out:
        k = (r["what"], tuple(r["text"]))
        if k not in seen:
            seen.add(k)
            yield r["what"], r["text"]


def wholes(cases, seed):
    """Takes what some iterators give in other ways too, when it ends."""
    r = random.Random("wholes-%s" % seed)
    for c in cases:
        for op in c["ops"]:
            if op["op"] == "iter" and not op.get("loose") and r.random() < 0.35:
                op["whole"] = True


class Family:
    models = []
    assumptions = []
    tier, seed = "quick", 1

    def part(self, xs, n, most=60000):
        """As many as that of these in the quick tier, nearly all of them in the thorough one."""
        xs = list(xs)
        if self.tier == "thorough":
            n = most
        if len(xs) <= n:
            return xs
        return random.Random("%s-%s" % (type(self).__name__, self.seed)).sample(xs, n)

    def generate(self, seed, tier):
        """Yields (time zone, cases)."""
        g = Gen("%s-%s" % (type(self).__name__, seed))
        yield "UTC", self.cases(g, 12 if tier == "thorough" else 1)

    def cases(self, g, n):
        return []

    def from_model(self, model, out):
        """The operations which the model yields as such, in their time zone."""
        cases = []
        for r in out:
            c = {"fam": r["fam"], "ops": r["ops"], "tz": r.get("tz", "UTC")}
            if r.get("zone"):
                c["zone"] = r["zone"]
            cases.append(c)
        return cases

    def extra(self, work, tier, seed):
        """Traces recorded otherwise than by the harness, and their cases."""
        return [], []


def in_place(what, text, **kw):
    """A component with this value, or this line."""
    if what in ("LINE", "PARAM", "FOLDED"):
        kind, line = ("VTIMEZONE", "VJOURNAL")[len(text) % 2], "".join(map(chr, text))
        lines = Gen.minimal(None, kind) + [line, "X-L:1"]
    else:
        kind, name = PLACES[what]
        lines = Gen.minimal(None, kind, (name,)) + [name + ":" + "".join(map(chr, text))]
    return parse(kind, "".join(l + "\r\n" for l in Gen.block(None, kind, lines)), **kw)


# -- C01 ---------------------------------------------------------------------------


class C01(Family):
    models = [texts(VALUES, 2, 3), texts(["RRULE"], 2, 3), texts(["LINE", "PARAM", "FOLDED"], 3, 4),
              Model("MC_Reader", {"Wants": '{"VEVENT", "VALARM"}'}, {"Depth": 3}, {"Depth": 5})]

    def from_model(self, model, out):
        r = random.Random(self.seed)
        ops = []
        if model.module == "MC_Reader":
            for x in out:
                for ty in [x["want"], r.choice(READABLE)]:
                    ops.append({"op": "parse", "ty": ty, "text": x["text"], "j": False})
        else:
            for what, text in distinct(out):
                if what in SINGLE:
                    ops.append({"op": "val", "ty": SINGLE[what], "text": text, "via": r.choice(["", "try_str", "try_string"]), "j": False})
                if what in PLACES or what not in SINGLE:
                    ops.append(in_place(what, text, j=False))
        return batch("model", ops, 24)

    TOKENS = ["BEGIN:", "END:", "VCALENDAR", "VEVENT", "VALARM", "VTIMEZONE", "STANDARD", "VTODO", "\r\n", "\n", "\r", "\r\n ",
              ":", ";", "=", '"', ",", "\\", "DTSTART", "RRULE", "TRIGGER", "ACTION", "AUDIO", "UID", "RDATE", "VALUE=PERIOD",
              "20240101", "T000000", "Z", "P1D", "FREQ=", "DAILY", "é", "😀", " ", "X-", "999999999999999999999", "-", "/", "\x00"]

    def cases(self, g, n):
        quiet = {"j": False}
        ops = []
        files = gen.corpus()
        # Truncated at every place of some, mutated anywhere.
        for name, kind, text in files:
            size = len(text)
            cuts = range(size) if size < 500 else sorted(g.r.sample(range(size), min(size, 60 * n)))
            for k in cuts:
                if size >= 500 or g.chance(min(1, 0.3 * n)):
                    ops.append(parse(kind, text[:k], **quiet))
            for _ in range(8 * n):
                t = g.mutate(text, self.TOKENS, g.r.choice([1, 2, 5]))
                ops.append(parse(g.pick([kind, kind, kind, "VCALENDAR"]), t, via=g.pick(["", "try_str", "try_string"]), **quiet))
        for _ in range(400 * n):
            t = "".join(g.pick(self.TOKENS) for _ in range(g.r.randrange(1, 40)))
            ops.append(parse(g.pick(READABLE), t, **quiet))
        # Every property of every kind, with any value.
        for kind in KINDS:
            fields = FIELDS[kind] + [("X-A", "TEXT", "many"), ("Q", "TEXT", "many")]
            for name, ty, mult in fields:
                for k in range(6 * n):
                    p, v = g.wire(ty, mult, kind, name)
                    v = g.pick([lambda: g.mutate(v), lambda: g.text(), lambda: g.mutate(g.mutate(v)), lambda: v * 2,
                                lambda: v[:g.r.randrange(len(v) + 1)]])()
                    lines = g.minimal(kind, (name,)) + [g.w_line(name, p, v)]
                    ops.append(parse(kind, g.join(g.block(kind, lines)), **quiet))
        # A required property is missing; only one is there; nothing is.
        for kind in KINDS:
            req = [m for m, _ in MINIMAL[kind]]
            for but in [()] + [(m,) for m in req] + [tuple(req)] + [tuple(x for x in req if x != m) for m in req]:
                for ty in {kind, wire_kind(kind)}:
                    ops.append(parse(ty, g.join(g.block(kind, g.minimal(kind, but))), **quiet))
        # Every type is given the text of every other one.
        for kind in READABLE:
            for other in KINDS:
                ops.append(parse(kind, g.join(g.block(other)), **quiet))
        # Long texts.
        for kind in ["VEVENT", "VCALENDAR", "VTIMEZONE"]:
            base = g.minimal(kind)
            for big in ["X-A:" + "a" * 200000, "X-A:" + "é\r\n " * 20000, "X-A" + ";A=b" * 60000 + ":1", "X-A:" + '"' * 50000,
                        "COMMENT:" + "\\" * 100000, "COMMENT:" + "\\," * 50000, "CATEGORIES:" + "," * 30000,
                        "RDATE:" + "20240101," * 5000 + "20240101", "RRULE:FREQ=DAILY;BYDAY=" + "MO," * 20000 + "MO",
                        "DURATION:P" + "T" * 100000, "DURATION:P" + "9" * 100000 + "W", "DURATION:PT" + "1S" * 20000,
                        "RDATE;VALUE=PERIOD:" + "20240101T000000/P1D," * 3000 + "20240101T000000/P1D"]:
                ops.append(parse(kind, g.join(g.block(kind, base + [big])), **quiet))
            ops.append(parse(kind, "BEGIN:%s\r\n" % kind * 20000, **quiet))
            ops.append(parse(kind, "\r\n " * 100000, **quiet))
            ops.append(parse(kind, g.join(g.block(kind, base + ["X-%d:a" % k for k in range(20000)])), **quiet))
        ops.append(parse("VCALENDAR", g.join(g.block("VCALENDAR", None, [g.block("VEVENT") for _ in range(5000)])), **quiet))
        ops.append(parse("VEVENT", g.join(g.block("VEVENT", None, [g.block("AUDIO") for _ in range(5000)])), **quiet))
        # Numbers which are too big for something.
        big = [2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64]
        nums = sorted({b * m // d + e for b in big for d in (1, 60, 3600, 86400, 604800) for m in (1,) for e in (-1, 0, 1)}
                      | {b // 1000 // d + e for b in big for d in (1, 60, 3600, 86400, 604800) for e in (-1, 0, 1)} | {10 ** k for k in range(1, 22)})
        for x in nums:
            for form in ["P%dW", "P%dD", "PT%dH", "PT%dM", "PT%dS"] + ["P1DT%dH1M1S", "PT1H%dM1S", "P%dDT%dH%dM%dS"]:
                sign = g.pick(["", "-", "+"])
                t = sign + (form.replace("%d", str(x)))
                k = g.r.randrange(5)
                if k == 0:
                    ops.append(val("Duration", t, **quiet))
                elif k == 1:
                    ops.append(val("Trigger", t, **quiet))
                elif k == 2:
                    ops.append(val("Period", "20240101T000000/" + t, **quiet))
                elif k == 3:
                    ops.append(in_place("DUR", cps(t), **quiet))
                else:
                    ops.append(in_place("TRIGGER", cps(t), **quiet))
            ops.append(val("Recur", "FREQ=DAILY;%s=%d" % (g.pick(["COUNT", "INTERVAL", "BYHOUR", "BYYEARDAY"]), x), **quiet))
            ops.append(in_place(g.pick(["PRIO", "PERCENT", "U32", "OFFSET"]), cps(g.pick(["", "+", "-"]) + str(x)), **quiet))
        # Values alone.
        types = {"Date": ("DOD", ""), "DateTime": ("DT", ""), "Period": ("PERIOD", "many"), "Recur": ("RRULE", ""), "Freq": None,
                 "Weekday": None, "WeekdayNum": None, "Trigger": ("TRIGGER", ""), "Geo": ("GEO", ""),
                 "RequestStatus": ("RSTATUS", ""), "Class": ("CLASS", ""), "Status": ("STATUS", ""),
                 "TimeTransparency": ("TRANSP", ""), "Duration": ("DUR", "")}
        for ty, w in types.items():
            for _ in range(220 * n):
                v = g.wire(*w)[1] if w else g.pick(FREQ + DAYS + ["-1MO", "+53SU"])
                x = g.r.random()
                v = g.mutate(v) if x < 0.6 else g.text() if x < 0.75 else v[:g.r.randrange(len(v) + 1)] if x < 0.9 else g.mutate(g.mutate(v))
                ops.append(val(ty, v, via=g.pick(["", "try_str", "try_string"]), **quiet))
            for v in ["", "T", "-", "+", "P", "PT", "é", "ééé", "aé", "éa", "-é", "€", "😀", "😀😀", "1é", "é1", "MOé", "/", ";", "=", "\x00",
                      "P9999999999999999999W", "P106751991167300D", "PT9223372036854775807S", "-PT9223372036854775808S", "P1537228672809129301M",
                      "20240101T000000/P99999999999D", "20240101T000000/", "20240101/20240102", "99991231T235960", "00000101", "20240230",
                      "99999999", "20241301", "FREQ=", "FREQ=DAILY;COUNT=256", "FREQ=DAILY;INTERVAL=-1", "FREQ=DAILY;BYDAY=", "FREQ=DAILY;BYDAY=é",
                      "FREQ=DAILY;BYDAY=1é", "1;", ";1", "nan;inf", "1e999;1", "2.0;", "NaN;x;y", "3.1.1;a", "é;a"]:
                for via in ["", "try_str", "try_string"]:
                    ops.append(val(ty, v, via=via, **quiet))
        g.r.shuffle(ops)
        return batch("any", ops, 24)


# -- C02 ---------------------------------------------------------------------------


def folds(mode):
    return Model("MC_Fold", {"Mode": '"%s"' % mode}, {"Size": 1}, {"Size": 2})


class C02(Family):
    models = [texts(["LINE", "PARAM", "FOLDED"], 3, 5), folds("read")]

    def from_model(self, model, out):
        if model.module == "MC_Fold":
            return batch("fold", [dict(parse(x["want"], ""), text=x["text"]) for x in out], 12)
        return batch("model", [in_place(what, text) for what, text in distinct(out)], 20)

    KEYS = {
        "VCALENDAR": ["PRODID", "METHOD", "CALSCALE"],
        "VEVENT": ["UID", "SUMMARY", "DESCRIPTION", "LOCATION", "ORGANIZER", "URL", "ATTENDEE", "COMMENT", "CONTACT", "ATTACH", "RELATED-TO", "CATEGORIES", "RESOURCES"],
        "VTODO": ["UID", "SUMMARY", "DESCRIPTION", "LOCATION", "ORGANIZER", "URL", "ATTENDEE", "COMMENT", "CONTACT", "ATTACH", "RELATED-TO", "CATEGORIES", "RESOURCES"],
        "VJOURNAL": ["UID", "SUMMARY", "DESCRIPTION", "ORGANIZER", "URL", "ATTENDEE", "COMMENT", "CONTACT", "ATTACH", "RELATED-TO", "CATEGORIES"],
        "VFREEBUSY": ["UID", "CONTACT", "ORGANIZER", "URL", "ATTENDEE", "COMMENT"],
        "VTIMEZONE": ["TZID", "TZURL"],
        "STANDARD": ["COMMENT", "TZNAME"],
        "DAYLIGHT": ["COMMENT", "TZNAME"],
        "AUDIO": ["ATTACH"],
        "DISPLAY": ["DESCRIPTION"],
        "EMAIL": ["DESCRIPTION", "SUMMARY", "ATTENDEE", "ATTACH"],
    }

    # Plain and unknown properties, at the ends and in the middle.
    def line(self, g, kind, key):
        p = g.params(g.r.choice([0, 1, 1, 2, 3, 5]))
        v = g.pick([lambda: g.line_text(), lambda: g.line_text(40), lambda: g.esc(g.text(breaks=True)), lambda: "", lambda: " " + g.line_text(4) + " ",
                    lambda: g.long_text().replace("\r", "").replace("\n", ""), lambda: "BEGIN:VEVENT", lambda: "END:" + wire_kind(kind),
                    lambda: g.line_text() + "\\", lambda: g.real(key), lambda: '"' + g.line_text() + '"', lambda: ";a=b:" + g.line_text()])()
        return g.w_line(key, p, v)

    def cases(self, g, n):
        ops = []
        for kind in KINDS:
            for _ in range(55 * n):
                keys = [g.pick(self.KEYS[kind] + [g.name(True), g.name(False), g.name(False)]) for _ in range(g.r.choice([1, 2, 3]))]
                lines = g.minimal(kind, keys)
                for key in keys:
                    lines.insert(g.r.randrange(len(lines) + 1), self.line(g, kind, key))
                block = g.block(kind, lines)
                ty, block = g.nest(kind, block)
                fold = g.pick([0, 0, 0.02, 0.1, 0.3])
                if g.chance(0.15):
                    fold = 1.0
                # The names of the components may be folded too.
                text = g.join(block, lf=g.chance(0.3), fold=fold)
                ops.append(parse(ty, text, via=g.pick(["", "try_str", "try_string"])))
            # On tens of lines.
            for _ in range(2 * n):
                l = g.w_line(g.pick(self.KEYS[kind] + ["X-A", "QA", "A"]), {"P": g.very_long()} if g.chance(0.3) else {},
                             g.very_long().replace("\r", "").replace("\n", ""))
                ops.append(parse(kind, g.join(g.block(kind, g.minimal(kind, (l[:l.index(":")].split(";")[0],)) + [l, "X-END:1"]), fold=g.pick([0, 0.01, 0.1]))))
            # Many parameters, long names.
            for m in {9, g.pick([13, 17]), g.pick([33, 41, 65]), 129 if kind in ("VEVENT", "VTIMEZONE", "AUDIO") else 22}:
                keys = sorted({g.name(True) + str(k) for k in range(m)})
                g.r.shuffle(keys)
                key = g.pick(self.KEYS[kind] + ["X-A", "QA"])
                ops.append(parse(kind, g.join(g.block(kind, g.minimal(kind, (key,)) + [g.w_line(key, {k: g.param_text() for k in keys}, g.line_text()), "X-END:1"]))))
                long = g.pick(["X-", "Q", "q"]) + "".join(g.pick(list("ABCXYZ019-")) for _ in range(m))
                for l in (g.w_line(long, g.params(), g.line_text()), g.w_line(key, {long: g.param_text(), "A": "b"}, g.line_text())):
                    ops.append(parse(kind, g.join(g.block(kind, g.minimal(kind, (key,)) + [l, "X-END:1"]), fold=g.pick([0, 0.05]))))
            # Hardly property lines.
            for _ in range(12 * n):
                l = self.line(g, kind, g.pick(self.KEYS[kind] + ["X-A", "QA", "A"]))
                l = g.mutate(l, list(":;=\"' ,\\\t") + ["é", "A", "-", "/", "_", "."])
                if l.startswith((" ", "BEGIN", "END")):
                    continue
                lines = g.minimal(kind) + [l, "X-END:1"]
                ops.append(parse(kind, g.join(g.block(kind, lines))))
            # Names with other characters than those of names.
            for key in ["X-é", "X_A", "X.A", "X A", "X-A ", " X-A", "\tX-A", "X/A", "x-a", "123", "-", "/", "Summary", "UID2", "UI"]:
                for rest in [":v", ";A=b:v", ";é=b:v", ";A_=b:v", ";A:v", ";:v", ";=:v", ";=b:v", ";A=\"b:v", ";A=\"b\"c:v", ";A=b\"c\":v",
                             ";A=\"\":v", ";A=:v", ";A=b;A=c:v", ";B=1;A=2:v", ";A=\"b;c\",\"d\":v", ";A=b,c:v", ";a=1;A=2:v", ";A=b=c:v", "", "=v", ":"]:
                    if g.chance(min(1.0, 0.3 * n)):
                        ops.append(parse(kind, g.join(g.block(kind, g.minimal(kind) + [key + rest]))))
        # Where a text is folded changes nothing: all the places of a line.
        line = 'X-A;B="a:b;c,d";C=e:é\\,€;f😀'
        for kind in ["VEVENT", "VTIMEZONE", "AUDIO"]:
            block = g.block(kind, g.minimal(kind) + [line, "X-B:1"])
            text = g.join(block)
            for k in range(1, len(text)):
                if text[k] != "\n":
                    ops.append(parse(kind, text[:k] + "\r\n " + text[k:]))
        return batch("line", ops, 8)


# -- C03 ---------------------------------------------------------------------------


class C03(Family):
    models = [Model("MC_Reader", {"Wants": "{%s}" % ", ".join('"%s"' % k for k in READABLE if k not in ALARMS or k == "AUDIO")},
                    {"Depth": 4}, {"Depth": 6})]

    def from_model(self, model, out):
        ops = []
        for k, r in enumerate(out):
            via = ["", "try_str", "try_string"]
            ops.append({"op": "parse", "ty": r["want"], "text": r["text"], "via": via[(k + self.seed) % 3]})
        return batch("model", ops, 20)

    def mutants(self, g, lines):
        """A structural error, or something looking like one."""
        r = g.r
        lines = list(lines)
        for _ in range(r.choice([1, 1, 1, 2])):
            edges = [k for k, l in enumerate(lines) if l.startswith(("BEGIN:", "END:"))] or [0]
            k = g.pick(edges) if g.chance(0.7) else r.randrange(len(lines))
            x = r.randrange(12)
            kind = wire_kind(g.pick(KINDS))
            if x == 0:
                del lines[k]
            elif x == 1:
                lines.insert(k, lines[k])
            elif x == 2:
                j = r.randrange(len(lines))
                lines[j], lines[k] = lines[k], lines[j]
            elif x == 3:
                lines[k] = g.pick(["BEGIN:", "END:"]) + kind
            elif x == 4:
                lines.insert(k, g.pick(["BEGIN:", "END:"]) + kind)
            elif x == 5:
                lines[k:k] = g.block(g.pick(KINDS))
            elif x == 6:
                lines[k:k] = ["BEGIN:" + g.pick(["X-FOO", "VVENUE", "vevent", "VEVENTS", "VEVEN", "", " VEVENT"]), "A:b", "END:X-FOO"]
            elif x == 7:
                lines.insert(k, g.pick(["", " ", "junk", "A", "A;B", "A;B=c", ":", "BEGIN", "END", "begin:vevent", "BEGIN VEVENT", "X-P:1", "BEGIN;A=b:VEVENT"]))
            elif x == 8:
                j = r.randrange(len(lines))
                l = lines.pop(k)
                lines.insert(min(j, len(lines)), l)
            elif x == 9:
                lines = lines[:k + 1]
            elif x == 10:
                lines.insert(k, "END:" + g.pick(["X-FOO", "VVENUE", "vevent", kind + "S", kind[:-1], "", " " + kind, kind + " ", "X", "v", "1"]))
            elif x == 11:
                lines[k] = lines[k] + g.pick([" ", "S", "\t", ";", ":", "\r"])
            if not lines:
                lines = [""]
        return lines

    # Components which are alike, and unlike in one property.
    ALIKE = [("UID", ["u", "v"]), ("SEQUENCE", ["1", "2"]), ("SUMMARY", ["s", "t"]), ("DESCRIPTION", ["d", "e"]), ("TZID", ["Z", "Y"]),
             ("TZNAME", ["A", "B"]), ("STATUS", ["CANCELLED", "DRAFT", "COMPLETED"]), ("LAST-MODIFIED", ["20240101T000000", "20240102T000000"]),
             ("COMMENT", ["c", "d"]), ("REPEAT", ["1", "2"]), ("DURATION", ["P1D", "P2D"]), ("CLASS", ["PRIVATE", "PUBLIC"]), ("TRANSP", ["OPAQUE"]),
             ("PRIORITY", ["1", "9"]), ("LOCATION", ["l", ""]), ("ORGANIZER", ["o"]), ("ATTENDEE", ["a", "b"]), ("RRULE", ["FREQ=DAILY"]),
             ("EXDATE", ["20240102"]), ("RELATED-TO", ["u", "v"]), ("METHOD", ["CANCEL", "PUBLISH"]), ("CALSCALE", ["GREGORIAN"]), ("ATTACH", ["x"]),
             ("PERCENT-COMPLETE", ["100"]), ("COMPLETED", ["20240101T000000"]), ("CATEGORIES", ["a,b"]), ("TZURL", ["u"]), ("URL", ["u"]), ("CREATED", ["20240101T000000"])]

    def alike(self, g, kind, lines):
        own = {f[0] for f in FIELDS[kind]}
        for name, values in self.ALIKE:
            if name in own and g.chance(0.3):
                lines[:] = [l for l in lines if not l.startswith(name + ":")] + [name + ":" + g.pick(values)]

    def tree(self, g, kind, depth=0):
        lines = g.minimal(kind)
        if g.chance(0.6):
            self.alike(g, kind, lines)
        if g.chance(0.5):
            lines.append("X-N:%d" % g.r.randrange(1000))
        g.r.shuffle(lines)
        subs = []
        for k in SUBS.get(kind, []):
            for _ in range(g.r.choice([0, 1, 2, 3]) if depth == 0 else g.r.choice([0, 0, 1, 2])):
                subs.append(self.tree(g, g.pick(ALARMS) if k == "VALARM" else k, depth + 1))
        g.r.shuffle(subs)
        return g.block(kind, lines, subs)

    def cases(self, g, n):
        ops = []
        for kind in KINDS:
            heavy = 3 if kind in SUBS else 1
            for _ in range(12 * n * heavy):
                block = self.tree(g, kind)
                ty, lines = g.nest(kind, block) if g.chance(0.3) else (kind, block)
                text = g.join(lines)
                for via in ["", "try_str", "try_string"]:
                    ops.append(parse(ty, text, via=via))
                for _ in range(4):
                    ops.append(parse(ty, g.join(self.mutants(g, lines)), via=g.pick(["", "", "try_str"])))
                # How it begins and ends.
                ops.append(parse(ty, g.pick([text + text, text + "X-A:1\r\n", "\r\n" + text, text[:-2], text[:-1] + "\r\n", "X-A:1\r\n" + text,
                                             " " + text, text + "\r\n", text + " ", "\ufeff" + text, text.replace("\r\n", "\n"), text.replace("BEGIN", "begin"),
                                             text[:-2] + "junk", text + "junk"])))
        # Many in one.
        for kind in SUBS:
            for m in (33, 65, 101, 129, 257, 300):
                subs = [g.block(k, g.minimal(k) + ["X-N:%d" % j]) for j, k in enumerate(
                    g.pick(ALARMS) if k == "VALARM" else k for k in (g.pick(SUBS[kind]) for _ in range(m)))]
                ops.append(parse(kind, g.join(g.block(kind, None, subs))))
                if kind != "VCALENDAR":
                    ops.append(parse("VCALENDAR", g.join(g.block("VCALENDAR", None, [g.block(kind, None, subs), g.block("VTODO")]))))
        # Each kind read as each other one, and each kind in each other one.
        for kind in KINDS:
            for ty in READABLE:
                ops.append(parse(ty, g.join(g.block(kind))))
            for up in KINDS:
                ops.append(parse(up, g.join(g.block(up, None, [g.block(kind)]))))
                ops.append(parse(up, g.join(g.block(up, None, [g.block(kind), ["X-A:1"]]))))
                ops.append(parse(up, g.join(g.block(up, None, [["X-A:1"], g.block(kind)]))))
        # The kind of an alarm.
        names = ALARMS + ["PROCEDURE", "X-A", "", "audio", "AUDIO ", "AUDIOS", "NONE", "EMAIL,AUDIO"]
        for many in [(k,) for k in names] + [(k, l) for k in ALARMS for l in names] + [(k, "AUDIO") for k in names]:
            lines = ["ACTION:" + k for k in many] + ["TRIGGER:PT1H", "DESCRIPTION:d", "SUMMARY:s"]
            if g.chance(0.5):
                g.r.shuffle(lines)
            for ty in ["VALARM", many[-1] if many[-1] in ALARMS else g.pick(ALARMS)]:
                ops.append(parse(ty, g.join(g.block("AUDIO", lines))))
            ops.append(parse("VEVENT", g.join(g.block("VEVENT", None, [g.block("AUDIO", lines)]))))
        g.r.shuffle(ops)
        return batch("tree", ops, 8)


# -- C04 ---------------------------------------------------------------------------


def lines(kinds, depth, each, deeper, more):
    """The models of the sequences of lines in these kinds of components, to this length and with as many samples of each type."""
    return [Model("MC_Fields", {"Of": "{%s}" % ", ".join('"%s"' % k for k in kinds)}, {"Depth": depth, "Each": each}, {"Depth": deeper, "Each": more})]


def cycles(kinds, depth, each, long, deeper, more):
    """The models of the components built in these numbers of steps, with as many samples of each type."""
    return [Model("MC_Cycle", {"Of": "{%s}" % ", ".join('"%s"' % k for k in kinds), "Long": str(long).upper()},
                  {"Depth": depth, "Each": each}, {"Depth": deeper, "Each": more})]


class C04(Family):
    models = lines(KINDS, 1, 9, 1, 9) + lines(KINDS, 2, 1, 2, 3)

    def from_model(self, model, out):
        return batch("model", [dict(parse(x["want"], ""), text=x["text"]) for x in self.part(out, 3000)], 12)

    def cases(self, g, n):
        ops = []
        for kind in KINDS:
            # Each property alone, repeated, and both with others around.
            for name, ty, mult in FIELDS[kind]:
                for rep in [1, 2, 3]:
                    for _ in range(n):
                        mine = [g.w_line(name, *g.wire(ty, mult, kind, name)) for _ in range(rep)]
                        lines = g.minimal(kind, (name,))
                        other = g.pick([[], ["X-A:1"], ["QA:1"], ["X-%s:1" % name], ["X-A:1", "X-A:2", "Q:1", "Q;B=c:2"],
                                        [name.lower() + ":1"], [name + "S:1"], [name[:-1] + ":1"]])
                        for l in mine + other:
                            lines.insert(g.r.randrange(len(lines) + 1), l)
                        ty_, block = g.nest(kind, g.block(kind, lines))
                        ops.append(parse(ty_, g.join(block)))
                # Each property with its plainest values, which all differ.
                if mult in ("many", "append", "opt"):
                    vs = [g.wire(ty, mult, kind, name) for _ in range(4)]
                    ops.append(parse(kind, g.join(g.block(kind, g.minimal(kind) + [g.w_line(name, *v) for v in vs]))))
            # Without one of those required.
            for name, _ in MINIMAL[kind]:
                ops.append(parse(kind, g.join(g.block(kind, g.minimal(kind, (name,))))))
                ty_, block = g.nest(kind, g.block(kind, g.minimal(kind, (name,))), deep=True)
                ops.append(parse(ty_, g.join(block)))
            # Each line which could mean something, with the least there can be, and before or after it.
            for name, p, v in g.w_every(kind):
                lines = g.minimal(kind, (name,) if g.chance(0.7) else ())
                lines.insert(g.pick([0, len(lines)]), g.w_line(name, p, v))
                ops.append(parse(kind, g.join(g.block(kind, lines))))
            # Properties of other kinds are unknown here.
            for other in KINDS:
                for name, ty, mult in FIELDS[other]:
                    if name not in [f[0] for f in FIELDS[kind]] and g.chance(min(1, 0.3 * n)):
                        ops.append(parse(kind, g.join(g.block(kind, g.minimal(kind) + [g.w_line(name, *g.wire(ty, mult, other, name))]))))
            # Anything.
            for _ in range(12 * n):
                ty, block = g.nest(kind, g.w_comp(kind, g.pick([0.1, 0.3, 0.6])))
                ops.append(parse(ty, g.join(block)))
            # The maps: names in any order, repeated, of all cases.
            for _ in range(10 * n):
                keys = [g.pick(["X-A", "X-B", "x-a", "X-a", "QA", "QB", "A", "B", "qa", "X-", "X", "XA", "Y-A", "X-RECURID", "X-UID"]) for _ in range(g.r.choice([2, 4, 8]))]
                lines = g.minimal(kind)
                for k in keys:
                    lines.insert(g.r.randrange(len(lines) + 1), g.w_line(k, g.params(), g.line_text()))
                ops.append(parse(kind, g.join(g.block(kind, lines))))
        # Lists.
        for kind in ["VEVENT", "VTODO", "VJOURNAL"]:
            for name, ty, mult in FIELDS[kind]:
                if mult == "append" and ty == "TEXT":
                    for v in ["a,b", "a\\,b", "a\\\\,b", ",", ",,", "a,", ",a", "\\,", "\\\\", "\\", "a\\;b,c", "é,€,😀", "a,b\\,c,d\\\\,e", "", " a , b "]:
                        for v2 in ["", "c,d"]:
                            lines = [name + ":" + v] + ([name + ";L=fr:" + v2] if v2 else [])
                            ops.append(parse(kind, g.join(g.block(kind, g.minimal(kind) + lines))))
                if mult == "append" and ty == "DOD":
                    for k in range(4 * n):
                        lines = [g.w_line(name, *g.wire(ty, mult)) for _ in range(g.r.choice([1, 2, 3]))]
                        ops.append(parse(kind, g.join(g.block(kind, g.minimal(kind) + lines))))
        # Many extensions.
        for kind in KINDS:
            for m in (65, 129, 300):
                ls = [g.w_line("%s%d" % (g.pick(["X-A", "QA"]), k), {}, g.text(3)) for k in range(m)]
                g.r.shuffle(ls)
                ops.append(parse(kind, g.join(g.block(kind, g.minimal(kind) + ls))))
        # Long ones, on one line and on several.
        for kind in KINDS:
            for name, ty, mult in FIELDS[kind]:
                if mult not in ("many", "append"):
                    continue
                size = g.pick([10, 15, 16, 17, 31, 32, 33, 64, 65, 100, 129, 257])
                values = [g.wire(ty, "", kind, name) for _ in range(size)]
                lines = [g.w_line(name, *v) for v in values]
                ops.append(parse(kind, g.join(g.block(kind, g.minimal(kind) + lines))))
                if ty in ("PERIOD", "RDATE") or mult == "append":
                    p = dict(values[0][0])
                    line = g.w_line(name, p, ",".join(v for q, v in values if q.get("VALUE") == p.get("VALUE")))
                    ops.append(parse(kind, g.join(g.block(kind, g.minimal(kind) + [line] + lines[:g.r.randrange(3)]))))
        for name, kind, text in gen.corpus(seconds=False):
            ops.append(parse(kind, text))
        out = batch("fields", ops, 6)
        out.append({"fam": "recurid", "ops": [parse("VEVENT", g.join(g.block("VEVENT", g.minimal("VEVENT") + ["RECURRENCE-ID:20240103T000000"])))]})
        return out


# -- C05 ---------------------------------------------------------------------------

ALONE = {"DOD": "Date", "DT": "DateTime", "PERIOD": "Period", "RRULE": "Recur", "TRIGGER": "Trigger", "GEO": "Geo",
         "RSTATUS": "RequestStatus", "CLASS": "Class", "STATUS": "Status", "TRANSP": "TimeTransparency", "DUR": "Duration"}
TYPED = [t for t in ["DT", "DOD", "DUR", "CLASS", "GEO", "PRIO", "PERCENT", "U32", "STATUS", "TRANSP", "RRULE", "RSTATUS",
                     "PERIOD", "OFFSET", "TRIGGER", "RDATE"]]

TRICKY = {
    "DT": ["20240101T000000", "20240101T000000Z", "20240101", "20240229T235959Z", "20230229T000000", "20240101T240000", "20240101T006000",
           "20240101T000060", "20240101T000061", "20240101T0000", "20240101T000000ZZ", "20240101T000000z", "20240101t000000", "2024-01-01T00:00:00",
           "20240101T00000", "20240101T0000000", " 20240101T000000", "20240101T000000 ", "20240101T000000+0100", "T000000", "", "+2024101T000000",
           "00000101T000000", "00010101T000000", "99991231T235959Z", "120240101T000000", "20240101T-10000", "20240101T 10000", "20240101X000000"],
    "DOD": ["20240101", "20240101T000000", "20240101T000000Z", "20240229", "20230229", "19000229", "20000229", "21000229", "20240431", "20241301",
            "20240001", "20240100", "20240132", "2024010", "202401011", "2024 101", "20240101 ", "+0240101", "-0240101", "0000101", "20240101Z",
            "20240101,", "20240101;X", "00010101", "00000101", "99991231"],
    "DUR": ["P1Y", "-P2M", "P1Y2M3W4DT5H6M7S", "P1D1D", "PT1H2H", "P1W", "P1YT1M", "PT1M1Y", "P1D", "PT1H", "PT1M", "PT1S", "P1DT1H1M1S", "P15DT5H0M20S", "P7W", "-P1D", "+P1D", "P0D", "PT0S", "-PT0S", "P1DT", "P", "PT", "P1",
            "PT1", "1D", "P1H", "P1S", "PT1D", "PT1W", "P1Y", "P1M", "P1M1D", "P1D1W", "P1W1D", "P1DT1S1M", "PT1M1H", "PT1H1H", "P1D1D", "P1DPT1H", "P-1D",
            "P1.5D", "PT1.5S", "P1D ", " P1D", "p1d", "P1d", "--P1D", "+-P1D", "P1DT1HX", "P1D;", "PT36H", "PT90M", "PT86400S", "PT1H30", "P1WT1H", "PT1H1S",
            "P99999D", "P999999999D", "PT99999999999S", "P0W", "P00D", "P01D", "PT0H0M0S", "P1T1H", "PT1H1M1S1S"],
    "CLASS": ["PUBLIC", "PRIVATE", "CONFIDENTIAL", "X-A", "public", "Private", "PUBLIC ", "", "CUSTOM", "é"],
    "GEO": ["37.386013;-122.082932", "1;2", "0;0", "1.5;2", "+1;+2", "-1;-2", "1", "1;", ";1", "1;2;3", "1,2", "a;b", "1;b", "1 ;2", "1; 2", "1.;2", ".5;2",
            "1e2;3", "NaN;0", "inf;0", "1..2;3", "1.2.3;4", "--1;2", "48.85299;2.36885", "1;2 ", "0.1;0.2", "90;180", "1x;2", "é;2", "1;2x", "00.5;1", "-0.5;-0.25"],
    "PRIO": ["0", "1", "5", "9", "10", "255", "256", "-1", "+1", "", "a", "1a", "1 ", " 1", "01", "1.0", "300", "65536"],
    "PERCENT": ["0", "1", "50", "100", "101", "255", "256", "-1", "+1", "", "a", "50%", "1 ", " 1", "01", "1.5", "1000", "99999999999"],
    "U32": ["0", "1", "10", "255", "256", "4294967295", "4294967296", "-1", "+1", "", "a", "1a", "1 ", " 1", "007", "1.0", "99999999999999999999", "2147483648"],
    "STATUS": gen.STATUS + ["tentative", "NEEDSACTION", "IN PROCESS", "", "TENTATIVE ", "INPROCESS", "X-A", "DRAFTS", "CANCELED"],
    "TRANSP": ["OPAQUE", "TRANSPARENT", "opaque", "", "OPAQUE ", "TRANS", "TRANSPARENT2"],
    "RRULE": ["FREQ=" + f for f in FREQ] + [
        "FREQ=DAILY;COUNT=10", "FREQ=DAILY;UNTIL=20240101", "FREQ=DAILY;UNTIL=20240101T000000", "FREQ=DAILY;UNTIL=20240101T000000Z", "FREQ=DAILY;INTERVAL=2",
        "COUNT=10;FREQ=DAILY", "FREQ=MONTHLY;BYDAY=1FR", "FREQ=MONTHLY;BYDAY=-1SU,+2MO,3TU", "FREQ=YEARLY;BYMONTH=1,2,12", "FREQ=YEARLY;BYWEEKNO=20,-1,53",
        "FREQ=YEARLY;BYYEARDAY=1,100,-1", "FREQ=YEARLY;BYYEARDAY=200", "FREQ=MONTHLY;BYMONTHDAY=15,-1,-31", "FREQ=DAILY;BYHOUR=9,23,0", "FREQ=DAILY;BYMINUTE=0,59",
        "FREQ=DAILY;BYSECOND=0,59,60", "FREQ=MONTHLY;BYDAY=MO,TU;BYSETPOS=-1,1", "FREQ=WEEKLY;WKST=SU", "FREQ=WEEKLY;WKST=MO;BYDAY=TU,TH",
        "", "FREQ", "FREQ=", "FREQ=daily", "freq=DAILY", "FREQ=DAILYX", "DAILY", "COUNT=1", "FREQ=DAILY;", ";FREQ=DAILY", "FREQ=DAILY;;COUNT=1", "FREQ=DAILY COUNT=1",
        "FREQ=DAILY;COUNT=", "FREQ=DAILY;COUNT=x", "FREQ=DAILY;COUNT=-1", "FREQ=DAILY;COUNT=0", "FREQ=DAILY;COUNT=255", "FREQ=DAILY;COUNT=256", "FREQ=DAILY;COUNT=1000",
        "FREQ=DAILY;COUNT=1;COUNT=2", "FREQ=DAILY;INTERVAL=0", "FREQ=DAILY;INTERVAL=255", "FREQ=DAILY;INTERVAL=256", "FREQ=DAILY;INTERVAL=-1", "FREQ=DAILY;INTERVAL=1x",
        "FREQ=DAILY;UNTIL=", "FREQ=DAILY;UNTIL=2024", "FREQ=DAILY;UNTIL=20240230", "FREQ=DAILY;UNTIL=20240101T", "FREQ=DAILY;UNTIL=20240101T000000ZX",
        "FREQ=DAILY;BYDAY=", "FREQ=DAILY;BYDAY=XX", "FREQ=DAILY;BYDAY=MOX", "FREQ=DAILY;BYDAY=MO,", "FREQ=DAILY;BYDAY=,MO", "FREQ=DAILY;BYDAY=MO TU", "FREQ=DAILY;BYDAY=0MO",
        "FREQ=DAILY;BYDAY=1", "FREQ=DAILY;BYDAY=MO1", "FREQ=DAILY;BYDAY=mo", "FREQ=DAILY;BYDAY=54MO", "FREQ=DAILY;BYDAY=--1MO", "FREQ=DAILY;BYDAY=1.5MO",
        "FREQ=DAILY;BYMONTH=13", "FREQ=DAILY;BYMONTH=0", "FREQ=DAILY;BYMONTH=1,,2", "FREQ=DAILY;BYMONTH=1,", "FREQ=DAILY;BYMONTH=x", "FREQ=DAILY;BYMONTH=1x",
        "FREQ=DAILY;BYHOUR=24", "FREQ=DAILY;BYHOUR=-1", "FREQ=DAILY;BYMINUTE=60", "FREQ=DAILY;BYSECOND=61", "FREQ=DAILY;BYMONTHDAY=32", "FREQ=DAILY;BYMONTHDAY=300",
        "FREQ=DAILY;BYWEEKNO=54", "FREQ=DAILY;BYYEARDAY=1000", "FREQ=DAILY;BYYEARDAY=127", "FREQ=DAILY;BYYEARDAY=-128", "FREQ=DAILY;BYSETPOS=1000", "FREQ=DAILY;WKST=", "FREQ=DAILY;WKST=XX",
        "FREQ=DAILY;WKST=1MO", "FREQ=DAILY;X-A=1", "FREQ=DAILY;FOO=1", "FREQ=DAILY;FOO", "FREQ=DAILY;COUNT=2;UNTIL=20240101", "FREQ=DAILY,COUNT=2", "FREQ=DAILY;COUNT =2",
        "FREQ=DAILY;COUNT= 2", " FREQ=DAILY", "FREQ=DAILY ", "FREQ=DAILY;BYDAY=MO;BYDAY=TU", "FREQ=DAILY;FREQ=WEEKLY", "RRULE:FREQ=DAILY", "FREQ=DAILY;COUNT=+2", "FREQ=DAILY;COUNT=02"],
    "RSTATUS": ["2.0;Success", "2.0;Success;x", "3.1;a;b;c", "2.0;a\\;b;c", "2.0;a\\\\;b", "2.0;", "2.0;;", "2.0", "", ";a", "a;b", "2;a", "2.8; a\\, b", "3.1.1;a", "-1;a",
                "2.0 ;a", " 2.0;a", "2.;a", ".5;a", "10.25;a", "4.2;é;€", "2.0;a;b\\;c", "nan;a", "inf;a", "1e1;a", "3.7;x;ATTENDEE:mailto:a@b.c", "2.x;a"],
    "PERIOD": ["20240101T000000/20240101T010000", "20240101T000000Z/20240101T010000Z", "20240101T000000/PT1H", "20240101T000000Z/P1D", "20240101T000000/P1W",
               "20240101T000000/P1DT1H", "20240101T000000", "20240101T000000/", "/20240101T000000", "20240101/20240102", "20240101T000000/20240102", "20240101/P1D",
               "20240101T000000/20240101T000000", "20240102T000000/20240101T000000", "20240101T000000/-PT1H", "20240101T000000/+PT1H", "20240101T000000Z/20240101T010000",
               "20240101T000000/PT1H/PT1H", "20240101T000000/PT1HX", "20240101T000000/PT1H ", "20240101T000000 /PT1H", "20240101T000000\\/PT1H", "20240101T000000-PT1H",
               "20240101T000000/P1M", "20240101T000000/1H", "20240101T000000/20240230T000000", "20240230T000000/PT1H", "", "/"],
    "OFFSET": ["+0000", "-0000", "+0100", "-0500", "+0530", "+1400", "-1200", "+2359", "+2400", "+0060", "+0059", "+010", "+01000", "+01:00", "0100", "+01000a", "+0a00",
               "-0345", "+ 100", "", "+", "-0", "+99", "+0100 ", " +0100", "+9999", "--0100", "-0030", "+0030", "-1130", "-0001"],
    "TRIGGER": ["-PT15M", "PT0S", "P1D", "+PT5M", "-P1W", "19980101T050000Z", "19980101T050000", "19980101", "", "PT", "-PT15MX", "-PT15", "P1M", "15M", "-P-1D", "-PT15M ",
                "19980101T050000ZX", "19981301T050000Z", "-PT1H30M", "P1DT2H", "-P1DT2H3M4S"],
    "RDATE": [],
}
TRICKY["RDATE"] = TRICKY["DOD"] + ["20240101,20240102", "20240101T000000,20240102T000000Z", "20240101,", ",20240101", "20240101,,20240102", "20240101;20240102",
                                   "20240101, 20240102", "20240101,x"]


class C05(Family):
    models = [texts(VALUES, 3, 4), texts(["RRULE"], 2, 3)]

    def from_model(self, model, out):
        ops = []
        for what, text in self.part(distinct(out), 9000):
            if what in PLACES:
                ops.append(in_place(what, text))
            else:
                ops.append({"op": "val", "ty": SINGLE[what], "text": text})
        return batch("model", ops, 20)

    def ops_for(self, g, kind, name, ty, mult, v, p=None):
        pp = dict(p or {})
        lines = g.minimal(kind, (name,)) + [g.w_line(name, pp, v)]
        return parse(kind, g.join(g.block(kind, lines)))

    def cases(self, g, n):
        ops = []
        where = {}
        for kind in KINDS:
            for name, ty, mult in FIELDS[kind]:
                if ty in TYPED and name != "RECURRENCE-ID":
                    where.setdefault(ty, []).append((kind, name, mult))
        for ty, places in where.items():
            # Every tricky value once somewhere, and every place gets some of them.
            for k, v in enumerate(TRICKY[ty]):
                for j in range(min(len(places), 3 * n)):
                    kind, name, mult = places[(k * 3 + j) % len(places)]
                    ops.append(self.ops_for(g, kind, name, ty, mult, v))
                if ty == "RDATE":
                    ops.append(self.ops_for(g, "VEVENT", "RDATE", ty, "many", v, {"VALUE": "PERIOD"}))
                    ops.append(self.ops_for(g, "VTODO", "RDATE", ty, "many", v, {"VALUE": g.pick(["DATE", "DATE-TIME"])}))
            for v in TRICKY["PERIOD"] if ty == "RDATE" else []:
                for kind in ["VEVENT", "STANDARD"]:
                    ops.append(self.ops_for(g, kind, "RDATE", ty, "many", v, {"VALUE": "PERIOD"}))
                ops.append(self.ops_for(g, "VJOURNAL", "RDATE", ty, "many", v))
            for kind, name, mult in places:
                for _ in range((4 if ty in ("DT", "DOD") else 7) * n):
                    p, v = g.wire(ty, mult, kind, name)
                    ops.append(self.ops_for(g, kind, name, ty, mult, v, p))
                    ops.append(self.ops_for(g, kind, name, ty, mult, g.mutate(v), p))
                    if g.chance(0.25):
                        # Nearly the same one after another.
                        for w in (v, v.swapcase(), v, v + " ", v):
                            ops.append(self.ops_for(g, kind, name, ty, mult, w, p))
        # Lists with one wrong item, at each place.
        for kind, name, good, bads in [("VEVENT", "EXDATE", "20240101", ["", "x", "20240230", "20240101T", " 20240101"]),
                                       ("VFREEBUSY", "FREEBUSY", "20240101T000000/PT1H", ["", "x", "20240101T000000", "20240101T000000/"]),
                                       ("VTODO", "RDATE", "20240101T000000", ["", "x", "20240101T0000", "20240101T000000/PT1H"])]:
            for bad in bads + [good]:
                for at in range(3):
                    items = [good, good, good]
                    items[at] = bad
                    ops.append(self.ops_for(g, kind, name, "", "", ",".join(items)))
        # Long lists.
        for kind in RECURRING:
            ops.append(self.ops_for(g, kind, "RRULE", "RRULE", "opt", g.w_rule(g.full_rule())))
            for b, (lo, hi) in gen.BYRANGE.items():
                ops.append(self.ops_for(g, kind, "RRULE", "RRULE", "opt", "FREQ=DAILY;%s=%s" % (b, ",".join(str(x) for x in range(lo, hi + 1)))))
        for kind, name, f in [("VEVENT", "EXDATE", lambda: g.w_date(g.date())), ("VFREEBUSY", "FREEBUSY", g.w_period), ("VTODO", "RDATE", lambda: g.w_date(g.date()))]:
            for m in (17, 33, 65, 129, 300):
                ops.append(self.ops_for(g, kind, name, "", "", g.w_list(f, m)))
        for kind in ["VEVENT", "STANDARD"]:
            for m in (17, 33, 65, 129):
                ops.append(self.ops_for(g, kind, "RDATE", "", "", g.w_list(g.w_period, m), {"VALUE": "PERIOD"}))
        out = batch("typed", ops, 8)
        # The same types alone.
        vals = []
        for ty, alone in ALONE.items():
            for v in TRICKY[ty]:
                vals.append(val(alone, v))
                if g.chance(0.3):
                    vals.append(val(alone, v, via=g.pick(["try_str", "try_string"])))
            for _ in range(90 * n):
                v = g.wire(ty, "")[1]
                vals.append(val(alone, v if g.chance(0.4) else g.mutate(v)))
        for v in FREQ + ["daily", "", "DAILY ", "DAIL", "X"]:
            vals.append(val("Freq", v))
        for v in DAYS + ["mo", "", "M", "MO ", "XX", "MOO", "é"]:
            vals.append(val("Weekday", v))
        for o in ["", "+", "-", "0", "1", "-1", "+1", "5", "53", "54", "-53", "127", "128", "-128", "-129", "01", "1 ", "é", "1.5", "999"]:
            for d in DAYS + ["XX", "", "mo"]:
                vals.append(val("WeekdayNum", o + d))
        out += batch("alone", vals, 20)
        # Known: the seconds of an offset.
        out.append({"fam": "offset", "ops": [self.ops_for(g, "STANDARD", "TZOFFSETTO", "", "", "-075258")]})
        for v in ["+000001", "-010203", "+235959"]:
            out.append({"fam": "offset", "ops": [self.ops_for(g, "DAYLIGHT", "TZOFFSETFROM", "", "", v)]})
        for v in ["+000060", "+0000601", "+00006", "+0100x0", "+2460", "+01006"]:
            out.append({"fam": "offset", "ops": [self.ops_for(g, "DAYLIGHT", "TZOFFSETFROM", "", "", v)]})
        return out


# -- C06, C07, C08 ------------------------------------------------------------------

CYCLE = [{"op": "write"}, {"op": "reread"}, {"op": "write", "again": True}, {"op": "reread"}]


def quiet_cycle():
    return [{"op": "write", "j": False}, {"op": "reread"}, {"op": "write", "j": False}, {"op": "reread"},
            {"op": "write", "again": True, "j": False}]


def build(c, **kw):
    return dict({"op": "build", "c": c}, **kw)


def meant(g, kind):
    """The smallest components with each of the values which could mean something."""
    for name, ty, mult in FIELDS[kind]:
        if name in ("ACTION", "RECURRENCE-ID"):
            continue
        for v in g.every(ty, kind, name):
            c = g.comp(kind, 0, subs=False)
            c["x"] = c["i"] = []
            c["f"][name] = [v] * (2 if mult in ("many", "append") and g.chance(0.2) else 1)
            yield c


def many(g, kind, name, ty):
    """A long list, of short items."""
    c = g.comp(kind, 0, subs=False)
    c["x"] = c["i"] = []
    c["f"][name] = [g.value(ty, kind, name, lambda: g.text(3)) for _ in range(g.pick([10, 15, 16, 17, 20, 31, 32, 33, 40, 64, 65]))]
    return c


class C06(Family):
    models = cycles(KINDS, 1, 9, True, 1, 9) + cycles(KINDS, 2, 1, False, 2, 2)

    def from_model(self, model, out):
        return [{"fam": "model", "ops": [build(c)] + quiet_cycle()} for c in self.part(out, 2000, 30000)]

    def cases(self, g, n):
        out = []
        for kind in KINDS:
            for name, ty, mult in FIELDS[kind]:
                for _ in range(2 * n):
                    c = g.comp(kind, only=[name], subs=False)
                    out.append({"fam": "one", "ops": [build(c)] + quiet_cycle()})
                if mult in ("many", "append"):
                    out.append({"fam": "list", "ops": [build(many(g, kind, name, ty))] + quiet_cycle()})
            for k in batch("meaning", [build(c) for c in meant(g, kind)], 8):
                out.append({"fam": "meaning", "ops": [op for b in k["ops"] for op in [b] + quiet_cycle()]})
            for _ in range((14 if kind in SUBS else 8) * n):
                c = g.comp(kind, g.pick([0.1, 0.3, 0.7]))
                op = build(c)
                if kind in ALARMS and g.chance(0.5):
                    op["ty"] = "VALARM"
                out.append({"fam": "built", "ops": [op] + quiet_cycle()})
            for _ in range((14 if kind in SUBS else 8) * n):
                ty, block = kind, g.w_comp(kind, g.pick([0.1, 0.3, 0.6]))
                if kind in ALARMS and g.chance(0.5):
                    ty = "VALARM"
                out.append({"fam": "read", "ops": [parse(ty, g.join(block), j=False)] + quiet_cycle()})
            # All fields at once, in one value each and in several.
            for dens in [1.0, 1.0]:
                out.append({"fam": "full", "ops": [build(g.comp(kind, dens, subs=False))] + quiet_cycle()})
            for _ in range(2 * n):
                out.append({"fam": "large", "ops": [build(g.large(kind))] + quiet_cycle()})
        for name, kind, text in gen.corpus():
            out.append({"fam": "corpus", "ops": [parse(kind, text, j=False)] + quiet_cycle()})
        c = g.comp("STANDARD", 0)
        c["f"]["TZOFFSETTO"] = [-28378]
        out.append({"fam": "offset", "ops": [build(c)] + quiet_cycle()})
        return out


class C07(Family):
    models = cycles(KINDS, 1, 9, True, 1, 9) + cycles(KINDS, 2, 1, False, 2, 2) + [folds("written")]

    def from_model(self, model, out):
        return [{"fam": "model", "ops": [build(c), {"op": "write"}]} for c in self.part(once(out), 1800, 30000)]

    def cases(self, g, n):
        out = []
        w = [{"op": "write"}]
        for kind in KINDS:
            for name, ty, mult in FIELDS[kind]:
                for _ in range(2 * n):
                    c = g.comp(kind, only=[name], subs=False, tg=lambda: g.long_text(True) if g.chance(0.5) else g.text(breaks=True))
                    out.append({"fam": "one", "ops": [build(c)] + w})
                if mult in ("many", "append"):
                    out.append({"fam": "list", "ops": [build(many(g, kind, name, ty))] + w})
            for k in batch("meaning", [build(c) for c in meant(g, kind)], 12):
                out.append({"fam": "meaning", "ops": [op for b in k["ops"] for op in [b] + w]})
            for _ in range(n):
                out.append({"fam": "large", "ops": [build(g.large(kind))] + w})
            for _ in range((10 if kind in SUBS else 6) * n):
                op = build(g.comp(kind, g.pick([0.1, 0.3, 0.6])))
                if kind in ALARMS and g.chance(0.5):
                    op["ty"] = "VALARM"
                out.append({"fam": "built", "ops": [op] + w})
            # On tens of lines.
            for name, ty, mult in [f for f in FIELDS[kind] if f[1] in ("TEXT", "URI") and f[0] != "ACTION"] + [("X-A", "", "")]:
                if g.chance(min(1, 0.4 * n)):
                    c = g.comp(kind, 0, subs=False)
                    c["x"] = c["i"] = []
                    if ty:
                        c["f"][name] = [{"p": [], "t": cps(g.very_long())}]
                    else:
                        c["x"] = [{"n": cps(name), "k": cps(name), "p": g.kv({"P": g.very_long()}) if g.chance(0.3) else [], "v": cps(g.very_long())}]
                    out.append({"fam": "long", "ops": [build(c)] + w + [{"op": "reread"}]})
            # Lines of every length around the folds.
            for _ in range(12 * n):
                c = g.comp(kind, 0, subs=False)
                c["x"] = g.entries(True, lambda: g.long_text(True), 1)
                c["i"] = g.entries(False, lambda: g.long_text(), 1)
                if g.chance(0.3):
                    c["x"][0]["p"] = g.kv({"A": g.long_text(), "B": g.text()})
                if g.chance(0.2):
                    nm = "X-" + "N" * g.r.randrange(60, 160)
                    c["x"][0]["n"] = c["x"][0]["k"] = cps(nm)
                out.append({"fam": "fold", "ops": [build(c)] + w})
            for _ in range(6 * n):
                out.append({"fam": "read", "ops": [parse(kind, g.join(g.w_comp(kind, 0.3)), j=False)] + w})
            out.append({"fam": "full", "ops": [build(g.comp(kind, 1.0))] + w})
        # One octet more each time.
        for wide in ["a", "é", "€", "😀"]:
            for k in range(60, 84):
                c = g.comp("VTIMEZONE", 0, subs=False)
                c["x"] = [{"n": cps("X-A"), "k": cps("X-A"), "p": [], "v": cps("a" * (k % 7) + wide * (k // len(wide.encode())))}]
                c["f"]["TZID"] = [{"p": [], "t": cps("a" * (k - 5) + wide + "b")}]
                out.append({"fam": "fold", "ops": [build(c)] + w})
            for k in range(138, 156):
                c = g.comp("VTIMEZONE", 0, subs=False)
                c["f"]["TZID"] = [{"p": [], "t": cps("a" * (k - 5) + wide * 3)}]
                out.append({"fam": "fold", "ops": [build(c)] + w})
        for name, kind, text in gen.corpus():
            out.append({"fam": "corpus", "ops": [parse(kind, text, j=False)] + w})
        c = g.comp("VEVENT", 0, subs=False)
        c["f"]["RECURRENCE-ID"] = [[1, 2024, 1, 3, 0, 0, 0]]
        out.append({"fam": "recurid", "ops": [build(c)] + w})
        return out


class C08(Family):
    models = [texts(["TEXT", "URI"], 4, 5)]

    def from_model(self, model, out):
        """Texts of the model in the fields of components built by hand."""
        r = random.Random(self.seed)
        by = {"TEXT": [], "URI": []}
        for what, text in self.part(distinct(out), 5000):
            by[what].append(text)
        g = Gen("C08-model-%s" % self.seed)
        cases = []
        while by["TEXT"] or by["URI"]:
            kind = r.choice([k for k in KINDS if k not in ALARMS] + ["EMAIL"])
            c = g.comp(kind, 0, subs=False)
            for f, t, mult in FIELDS[kind]:
                if f == "ACTION" or t not in ("TEXT", "URI", "RSTATUS"):
                    continue
                many = 2 if t == "RSTATUS" else {"many": 6, "append": 6}.get(mult, 1)
                some = []
                for _ in range(many):
                    if by["URI" if t == "URI" else "TEXT"]:
                        some.append(by["URI" if t == "URI" else "TEXT"].pop())
                if not some:
                    continue
                if t == "RSTATUS":
                    c["f"][f] = [{"code": cps("2"), "desc": some[0], "ext": some[1:2]}]
                else:
                    c["f"][f] = [{"p": g.kv({"P": "p"}) if r.random() < 0.1 else [], "t": x} for x in some]
            if by["TEXT"]:
                c["x"] = [{"n": cps("X-N"), "k": cps("X-N"), "p": [], "v": by["TEXT"].pop()}]
            cases.append({"fam": "model", "ops": [build(c)] + CYCLE})
        return cases

    NASTY = ["\\", "\\\\", "\\\\\\", ",", ";", ":", '"', "\n", "\r", "\r\n", "\\n", "\\N", "\\,", "\\;", "n", "a", "=", "'", " ", "é", "\r\nX-EVIL:1", "\r\nEND:VEVENT\r\n",
             "\nBEGIN:VALARM\n", "\rATTENDEE:x", "😀"]

    def nasty(self, g):
        if g.chance(0.25):
            return g.spoilt(g.pick(gen.REAL[g.pick(list(gen.REAL))]))
        return "".join(g.pick(self.NASTY) for _ in range(g.r.choice([1, 2, 3, 4, 6])))

    def cases(self, g, n):
        out = []
        tg = lambda: self.nasty(g)
        for kind in KINDS:
            texts = [(name, ty, mult) for name, ty, mult in FIELDS[kind] if ty in ("TEXT", "URI", "RSTATUS") and name != "ACTION"]
            for name, ty, mult in texts:
                for _ in range(7 * n):
                    c = g.comp(kind, 0, subs=False, only=[name], tg=tg)
                    for f, t, _ in FIELDS[kind]:
                        if t in ("TEXT", "URI") and f != name and c["f"][f] and f != "ACTION":
                            c["f"][f] = [{"p": [], "t": cps("t")}]
                        for x in c["f"][f]:
                            if t in ("TEXT", "URI"):
                                x["p"] = g.kv({"P": tg()}) if f == name and g.chance(0.4) else []
                    out.append({"fam": "text", "ops": [build(c)] + CYCLE})
            for _ in range(10 * n):
                c = g.comp(kind, 0, subs=False)
                for f, t, _ in FIELDS[kind]:
                    if t in ("TEXT", "URI") and f != "ACTION" and c["f"][f]:
                        c["f"][f] = [{"p": [], "t": cps("t")}]
                c["x"], c["i"] = g.entries(True, tg, g.r.choice([0, 1, 2])), g.entries(False, tg, g.r.choice([0, 1]))
                for e in c["x"] + c["i"]:
                    e["p"] = g.kv({"P": tg(), "Q": tg()}) if g.chance(0.5) else []
                out.append({"fam": "entry", "ops": [build(c)] + CYCLE})
            # What was read in its escaped form.
            for _ in range(10 * n):
                lines = g.minimal(kind)
                for name, ty, mult in texts:
                    if g.chance(0.4):
                        lines = [l for l in lines if not l.startswith(name + ":")]
                        v = g.esc(tg()) if ty != "RSTATUS" else "2.0;" + g.esc(tg()) + g.pick(["", ";" + g.esc(tg())])
                        if mult == "append":
                            v += "," + g.esc(tg())
                        lines.append(name + ":" + v)
                out.append({"fam": "read", "ops": [parse(kind, g.join(g.block(kind, lines)))] + CYCLE})
            # And in no particular form.
            for _ in range(6 * n):
                name, ty, mult = g.pick(texts) if texts else ("X-A", "TEXT", "opt")
                v = tg().replace("\r", "").replace("\n", "")
                if ty == "RSTATUS":
                    v = "2.0;" + v
                lines = g.minimal(kind, (name,)) + [name + ":" + v]
                out.append({"fam": "raw", "ops": [parse(kind, g.join(g.block(kind, lines)))] + CYCLE})
        ops = []
        for _ in range(250 * n):
            t = tg()
            ty = g.pick(["Text", "String", "Uri", "RequestStatus"])
            if ty == "RequestStatus":
                ops.append([{"op": "vw", "ty": ty, "v": {"code": cps("2"), "desc": cps(t), "ext": [cps(tg())] if g.chance(0.5) else []}},
                            {"op": "vr"}])
            elif ty == "String":
                ops.append([{"op": "vw", "ty": ty, "v": cps(t)}])
            else:
                ops.append([{"op": "vw", "ty": ty, "v": {"p": g.kv({"P": tg()}) if g.chance(0.4) else [], "t": cps(t)}}])
        out += [{"fam": "alone", "ops": [o for x in ops[k:k + 8] for o in x]} for k in range(0, len(ops), 8)]
        return out


# -- C09 ---------------------------------------------------------------------------


class C09(Family):
    models = [texts([w for w in VALUES if w in SINGLE], 3, 4), texts(["RRULE"], 2, 3)]

    def from_model(self, model, out):
        r = random.Random(self.seed)
        ops = []
        for what, text in self.part([x for x in distinct(out) if x[0] in SINGLE], 5000):
            ops.append({"op": "val", "ty": SINGLE[what], "text": text, "via": r.choice(["", "try_str", "try_string"])})
            if what in PLACES and not (what == "PERIOD" and 44 in text):
                ops.append(in_place(what, text))
        return batch("model", ops, 20)

    def value(self, g, ty):
        if ty == "Freq":
            return g.pick(FREQ)
        if ty == "Weekday":
            return g.pick(DAYS)
        if ty == "WeekdayNum":
            return [[] if g.chance(0.3) else [g.r.randrange(-128, 128)], g.pick(DAYS)]
        if ty == "Date":
            return g.date()
        if ty == "DateTime":
            return g.date((1, 2))
        rev = {v: k for k, v in ALONE.items()}
        if ty in ("StartEnd", "StartDur"):
            while True:
                p = g.period()
                if (p[0] == "se") == (ty == "StartEnd"):
                    return p
        if ty == "Offset":
            return g.value("OFFSET")
        if ty == "RDate":
            return g.value("RDATE")
        v = g.value(rev[ty], tg=lambda: g.text(breaks=True))
        return v

    def cases(self, g, n):
        ops = []
        for ty in VALS + ["StartEnd", "StartDur", "Offset", "RDate"]:
            count = {"Freq": 14, "Weekday": 14, "TimeTransparency": 4, "Status": 16, "Class": 16}.get(ty, 60 * n)
            for _ in range(count):
                ops.append([{"op": "vw", "ty": ty, "v": self.value(g, ty)}] + ([{"op": "vr"}] if ty in VALS else []))
        for s in gen.STATUS:
            ops.append([{"op": "vw", "ty": "Status", "v": s}, {"op": "vr"}])
        for s in FREQ:
            ops.append([{"op": "vw", "ty": "Freq", "v": s}, {"op": "vr"}])
        for s in DAYS:
            ops.append([{"op": "vw", "ty": "Weekday", "v": s}, {"op": "vr"}])
            for o in list(range(-128, 128)) if n > 1 else [-128, -53, -10, -2, -1, 0, 1, 2, 9, 10, 53, 127]:
                ops.append([{"op": "vw", "ty": "WeekdayNum", "v": [[o], s]}, {"op": "vr"}])
        # Each part of a rule alone.
        base = {"freq": "DAILY", "until": [], "count": [], "interval": 1, "by": [[] for _ in BY], "byday": [], "wkst": []}
        rules = [dict(base, freq=f) for f in FREQ] + [dict(base, count=[c]) for c in [0, 1, 9, 10, 127, 128, 255]]
        rules += [dict(base, interval=c) for c in [0, 1, 2, 9, 10, 127, 128, 255]] + [dict(base, wkst=[d]) for d in DAYS]
        rules += [dict(base, until=[d]) for d in ([0, 2024, 2, 29], [1, 2024, 2, 29, 1, 2, 3], [2, 2024, 2, 29, 1, 2, 3], [0, 1, 1, 1], [2, 9999, 12, 31, 23, 59, 59])]
        for k in range(8):
            for vs in ([0], [1], [-1], [127], [-128], [1, 2, 3], [3, 1, 3]):
                by = [[] for _ in BY]
                by[k] = vs
                rules.append(dict(base, by=by))
        rules += [dict(base, byday=[[[], d]]) for d in DAYS] + [dict(base, byday=[[[-1], "MO"], [[2], "TU"], [[], "WE"]])]
        ops += [[{"op": "vw", "ty": "Recur", "v": r}, {"op": "vr"}] for r in rules]
        for l in [[0, 0, 0], [0, 0, 1], [1, 0, 1], [0, 1, 0], [1, 1, 0], [0, 7, 0], [1, 15, 0], [0, 0, 86399], [1, 0, 86399], [0, 99999, 86399], [1, 1, 1]]:
            ops.append([{"op": "vw", "ty": "Duration", "v": l}, {"op": "vr"}])
            ops.append([{"op": "vw", "ty": "Trigger", "v": ["dur", l]}, {"op": "vr"}])
        g.r.shuffle(ops)
        out = [{"fam": "write", "ops": [o for x in ops[k:k + 12] for o in x]} for k in range(0, len(ops), 12)]
        # The same text alone and in a component denotes the same.
        where = {"DOD": ("VEVENT", "DTSTART"), "DT": ("VEVENT", "CREATED"), "PERIOD": ("VFREEBUSY", "FREEBUSY"), "RRULE": ("VEVENT", "RRULE"),
                 "TRIGGER": ("AUDIO", "TRIGGER"), "GEO": ("VEVENT", "GEO"), "RSTATUS": ("VTODO", "REQUEST-STATUS"), "CLASS": ("VTODO", "CLASS"),
                 "STATUS": ("VTODO", "STATUS"), "TRANSP": ("VEVENT", "TRANSP"), "DUR": ("VEVENT", "DURATION")}
        ops = []
        for ty, alone in ALONE.items():
            kind, name = where[ty]
            texts = [g.wire(ty, "")[1] for _ in range(25 * n)] + TRICKY[ty]
            texts += [g.mutate(t) for t in texts[:15 * n]]
            for v in texts:
                if ty in ("PERIOD",) and "," in v or "\n" in v or "\r" in v:
                    continue
                ops.append(val(alone, v))
                ops.append(parse(kind, g.join(g.block(kind, g.minimal(kind, (name,)) + [name + ":" + v]))))
        out += batch("both", ops, 10)
        return out


# -- C10 to C13 ------------------------------------------------------------------------


def candidate(rule, d):
    """The next date, only to choose interesting cases."""
    n = rule["interval"] or 1
    f = rule["freq"]
    step = {"SECONDLY": 1, "MINUTELY": 60, "HOURLY": 3600, "DAILY": 86400, "WEEKLY": 7 * 86400}.get(f)
    if step:
        if d[0] == 0 and step < 86400:
            d = [1] + d[1:] + [0, 0, 0]
        x = datetime.datetime(*d[1:]) + datetime.timedelta(seconds=step * n)
        return [d[0], x.year, x.month, x.day] + ([x.hour, x.minute, x.second] if d[0] else [])
    months = n * (12 if f == "YEARLY" else 1)
    for k in range(1, 200):
        m = d[1] * 12 + d[2] - 1 + months * k
        try:
            datetime.date(m // 12, m % 12 + 1, d[3])
            return [d[0], m // 12, m % 12 + 1] + d[3:]
        except ValueError:
            if m // 12 > 9999:
                raise OverflowError from None
    raise OverflowError


def candidates(rule, d, n):
    out = [d]
    try:
        for _ in range(n):
            out.append(candidate(rule, out[-1]))
    except OverflowError:
        pass
    return out


def recurrences(mode, quick, thorough, zones=None):
    """The model of the recurrences in a mode, with this many steps."""
    return Model("MC_Recur", {"Mode": '"%s"' % mode}, {"Size": 1, "Depth": quick}, {"Size": 2, "Depth": thorough}, zones=zones)


class Iterating(Family):
    full = False

    def from_model(self, model, out):
        """Each of the recurrences of the model, and the rest of it from one of its occurrences."""
        g = Gen("recur-%s" % self.seed)
        cases = []
        for x in self.part({json.dumps(x, sort_keys=True): x for x in out}.values(), 4000, 24000):
            kinds = ["VEVENT", "VTODO"] if x["end"] else RECURRING
            c = self.recurring(g, g.pick(kinds), x["start"], x["rule"], x["ex"], x["end"] and x["end"][0], rich=self.full and g.chance(0.2))
            it = {"op": "iter", "n": x["n"] + 1, "w": x["w"]}
            if self.full:
                it["full"] = True
            ops = self.given(g, c) + [it]
            if self.full or g.chance(0.3):
                ops.append(dict(it, **{"from": g.r.randrange(1, 4), "w": ["all"] if self.full else x["w"], "n": 3}))
                if g.chance(0.4):
                    ops[-1]["pre"] = True
                elif self.full and g.chance(0.4):
                    ops += [{"op": "take", "n": g.r.randrange(3)}, dict(it, n=3)]
            case = {"fam": "model", "ops": ops, "tz": x["tz"]}
            if x["zone"]:
                case["zone"] = x["zone"]
            cases.append(case)
        return cases

    # How often it is read from its text, and has an end.
    read, ends = 0.25, 0.35

    def given(self, g, c):
        """The component, built by hand or read from its text."""
        if not g.chance(self.read):
            return [build(c)]
        self.plain(c)
        return [build(c), {"op": "write", "j": False}, {"op": "reread"}]

    def plain(self, c):
        """Without what is known to be read otherwise."""
        if "RECURRENCE-ID" in c["f"]:
            c["f"]["RECURRENCE-ID"] = []
        for _, subs in c["s"]:
            for x in subs:
                self.plain(x)

    def ending(self, g, s):
        """The end of what begins then."""
        x = datetime.datetime(*(s[1:] if s[0] else s[1:] + [0, 0, 0]))
        try:
            x += datetime.timedelta(seconds=g.pick([0, 1, 60, 3600, 5400, 86399, 86400, 90000, 172800, 604800, 2678400, -3600, -86400, 31536000,
                                                         32000001, 63200000, 100000000, 1000000007, g.r.randrange(3 * 10 ** 9)]))
        except OverflowError:
            pass
        k = s[0] if g.chance(0.7) else g.pick([0, 1, 2])
        return [k, x.year, x.month, x.day] + ([x.hour, x.minute, x.second] if k else [])

    def recurring(self, g, kind=None, start=None, rule=None, ex=(), end=None, rich=False):
        kind = kind or g.pick(RECURRING)
        # What else it has must not matter.
        more = not rich and g.chance(0.4)
        c = g.comp(kind, 0.4 if rich or more else 0, subs=rich)
        if not rich:
            c["x"] = c["i"] = []
        c["f"]["DTSTART"] = [start]
        c["f"]["RRULE"] = [rule]
        c["f"]["EXDATE"] = list(ex)
        for name in ("DTEND", "DUE"):
            if name in c["f"]:
                c["f"][name] = []
        if g.chance(0.35):
            # Other dates which are those of the recurrence.
            d = g.pick([start, start, end or start] + c["f"]["EXDATE"] + rule["until"])
            for name, ty, mult in FIELDS[kind]:
                if name not in c["f"] or name in ("DTSTART", "DTEND", "DUE", "EXDATE"):
                    continue
                if ty == "DOD" or ty == "DT" and d[0]:
                    if c["f"][name] or g.chance(0.5):
                        c["f"][name] = [d]
        name = {"VEVENT": "DTEND", "VTODO": "DUE"}.get(kind)
        if not end and not self.full and g.chance(self.ends):
            end = self.ending(g, start)
        if name and end:
            c["f"][name] = [end]
        return c

    def exact(self, g, bound=0.7, window=0.4, excluded=0.15, read=0):
        """A recurrence whose steps are exact intervals, around the changes of a zone."""
        r = self.rule(g, g.pick(["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY"]), g.pick([1, 2, 3, 6, 12, 24, 30, 60, 255]))
        if r["freq"] == "WEEKLY":
            r["interval"] %= 100
        s = g.both()
        cs = candidates(r, s, 8)
        # Bounds of any kind.
        other = lambda d: d if g.chance(0.7) else [2] + d[1:] if g.chance(0.5) else g.shift([1] + d[1:], 0, zones.offset(g.zone, [2] + d[1:]))
        if g.chance(bound):
            if g.chance(0.6):
                r["until"] = [other(g.pick(cs))]
            else:
                r["count"] = [g.r.randrange(8)]
        ex = [x for x in cs if g.chance(excluded)]
        end = g.shift(s, 0, g.pick([3600, 7200, 86400]))
        w = ["all"]
        if g.chance(window):
            a, b = sorted([g.pick(cs), g.pick(cs)], key=lambda x: x[1:])
            w = g.pick([["between", other(a), other(b)], ["after", other(a)], ["at", other(a)]])
        c = self.recurring(g, g.pick(["VEVENT", "VTODO"]), s, r, ex, end)
        it = {"op": "iter", "n": 8, "w": w}
        more = {"op": "iter", "n": 4, "w": g.pick([w, ["all"]]), "from": g.r.randrange(3), "pre": g.chance(0.4)}
        if self.full:
            it["full"] = more["full"] = True
            more["w"] = ["all"]
        return {"fam": "exact", "years": {x[1] for x in candidates(r, s, 24)}, "ops": [build(c), it, more]}

    # How much of it takes place in the other zones, and how.
    zoned = None

    def generate(self, seed, tier):
        yield from super().generate(seed, tier)
        if self.zoned:
            for zone in ZONES[1:]:
                g = Zoned("%s-%s-%s" % (type(self).__name__, zone, seed), zone)
                yield zone, g.here([self.exact(g, **self.zoned) for _ in range(25 if tier == "quick" else 300)])

    def rule(self, g, freq=None, interval=None):
        freq = freq or g.pick(FREQ)
        x = g.r.random()
        if interval is None:
            interval = 1 if x < 0.25 else 2 if x < 0.35 else g.pick([0, 3, 4, 5, 7, 10, 11, 12, 13, 24, 25, 48, 59, 60, 61, 99, 100, 127, 128, 129, 200, 254, 255])
        return {"freq": freq, "until": [], "count": [], "interval": interval, "by": [[] for _ in BY], "byday": [], "wkst": []}

    def start(self, g, rule, kinds=(0, 1, 2)):
        y = g.year()
        if rule["freq"] in ("MONTHLY", "YEARLY") and g.chance(0.5):
            # The ends of the months, where there may be no such day.
            md = g.pick([(1, 29), (1, 30), (1, 31), (2, 29), (3, 31), (5, 31), (8, 31), (12, 31), (10, 31), (2, 28), (11, 30)])
            if md == (2, 29):
                y = g.pick([1996, 2000, 2004, 2020, 2024, 1600, 1896, 2096, 4, 400, 1200, 2400])
            k = g.pick(list(kinds))
            return [k, y, md[0], md[1]] + (g.hms() if k else [])
        return g.date(kinds, y)

    def steps(self, rule, n):
        # Not beyond the years which can be written.
        if rule["freq"] == "YEARLY":
            return min(n, max(2, 400 // max(1, rule["interval"])))
        return n


class C10(Iterating):
    models = [recurrences("steps", 6, 12)]
    zoned = dict(bound=0, window=0, excluded=0)

    def cases(self, g, n):
        out = []
        for freq in FREQ:
            for kind in (0, 1, 2):
                for comp in RECURRING:
                    for _ in range(6 * n):
                        r = self.rule(g, freq)
                        s = self.start(g, r, (kind,))
                        k = self.steps(r, g.r.choice([5, 12, 12, 30]))
                        out.append({"fam": "steps", "ops": self.given(g, self.recurring(g, comp, s, r)) + [{"op": "iter", "n": k, "w": ["all"]}]})
        # Long ones.
        for freq in FREQ:
            r = self.rule(g, freq, g.pick([1, 1, 7, 11]))
            out.append({"fam": "long", "ops": self.given(g, self.recurring(g, None, self.start(g, r), r)) + [{"op": "iter", "n": self.steps(r, 300), "w": ["all"]}]})
        # Each day of the end of the months, each month, and the leap years.
        for m, d in [(1, 28), (1, 29), (1, 30), (1, 31), (2, 28), (2, 29), (3, 30), (3, 31), (4, 30), (12, 31)]:
            for y in [1899, 1996, 1999, 2000, 2023, 2024, 2096, 2099]:
                if (m, d) == (2, 29) and y % 4:
                    continue
                for freq, iv in [("MONTHLY", 1), ("MONTHLY", 2), ("MONTHLY", 3), ("MONTHLY", 12), ("MONTHLY", 13), ("YEARLY", 1), ("YEARLY", 2), ("YEARLY", 4), ("YEARLY", 3), ("YEARLY", 100)]:
                    if g.chance(min(1, 0.35 * n)):
                        k = g.pick((0, 1, 2))
                        r = self.rule(g, freq, iv)
                        s = [k, y, m, d] + ([10, 20, 30] if k else [])
                        out.append({"fam": "ends", "ops": self.given(g, self.recurring(g, None, s, r)) + [{"op": "iter", "n": 14, "w": ["all"]}]})
        # The sum of a rule and a date.
        ops = []
        for _ in range(250 * n):
            r = self.rule(g)
            s = self.start(g, r)
            how = g.pick({0: ["Date", "NaiveDate"], 1: ["Date", "DateTime", "NaiveDateTime"], 2: ["Date", "DateTime", "Local"]}[s[0]])
            ops.append({"op": "radd", "how": how, "r": r, "a": s})
        # All the intervals, from where there may be no such day.
        for iv in range(256):
            for freq, starts in [("YEARLY", [(2000, 2, 29), (2096, 2, 29), (1896, 2, 29), (2004, 2, 29)]), ("MONTHLY", [(2000, 2, 29), (2023, 8, 31), (2099, 1, 30)])]:
                for d in starts:
                    k = g.pick([0, 1, 2])
                    ops.append({"op": "radd", "how": "Date", "r": self.rule(g, freq, iv), "a": [k] + list(d) + (g.hms() if k else [])})
        out += batch("sum", ops, 20)
        # From texts too; a BY part doesn't stop anything.
        for _ in range(40 * n):
            r = g.rule(until=[], count=[])
            r["by"], r["byday"] = [[] for _ in BY], []
            s = self.start(g, r, (1, 2))
            lines = ["DTSTAMP:20240101T000000", "UID:u", "DTSTART:" + g.w_date(s), "RRULE:FREQ=" + r["freq"] + (";INTERVAL=%d" % r["interval"] if r["interval"] != 1 else "")]
            out.append({"fam": "read", "ops": [parse("VEVENT", g.join(g.block("VEVENT", lines)), j=False), {"op": "iter", "n": self.steps(r, 6), "w": ["all"]}]})
        # No rule or no start.
        c = self.recurring(g, "VTODO", [0, 2024, 1, 1], self.rule(g))
        c["f"]["DTSTART"] = []
        out.append({"fam": "none", "ops": [build(c), {"op": "iter", "n": 3, "w": ["all"]}]})
        return out


class C11(Iterating):
    models = [recurrences("bounds", 5, 5)]
    zoned = dict(bound=0.9, window=0, excluded=0.3)

    def near(self, g, d):
        """A date next to another one, of any kind."""
        k = g.pick([0, 1, 2])
        x = datetime.datetime(*(d[1:] if d[0] else d[1:] + [0, 0, 0]))
        try:
            x += datetime.timedelta(seconds=g.pick([0, 0, 0, 1, -1, 3600, -3600, 86400, -86400]))
        except OverflowError:
            pass
        return [k, x.year, x.month, x.day] + ([x.hour, x.minute, x.second] if k else [])

    def bounded(self, g, freq=None):
        r = self.rule(g, freq)
        s = self.start(g, r)
        cs = candidates(r, s, 14)
        x = g.r.random()
        if x < 0.4:
            r["count"] = [g.pick([0, 1, 2, 3, 5, 10, 12])]
        elif x < 0.8:
            r["until"] = [self.near(g, g.pick(cs))] if g.chance(0.7) else [g.pick(cs)]
        elif x < 0.92:
            r["count"] = [g.pick([0, 1, 3, 8])]
            r["until"] = [self.near(g, g.pick(cs))]
        # Without any bound otherwise.
        ex = []
        mode = g.r.randrange(7)
        if mode == 1:
            ex = [g.pick(cs)]
        elif mode == 2:
            k = g.r.randrange(len(cs))
            ex = cs[k:k + 4]
        elif mode == 3:
            ex = [cs[0]]
        elif mode == 4:
            ex = [g.pick(cs) for _ in range(3)] + [self.near(g, g.pick(cs))]
        elif mode == 5:
            ex = list(cs)
        elif mode == 6:
            ex = [self.near(g, g.pick(cs)) for _ in range(3)]
        g.r.shuffle(ex)
        return r, s, ex

    def cases(self, g, n):
        out = []
        for freq in FREQ:
            for comp in RECURRING:
                for _ in range(22 * n):
                    r, s, ex = self.bounded(g, freq)
                    k = self.steps(r, 16)
                    ops = self.given(g, self.recurring(g, comp, s, r, ex)) + [{"op": "iter", "n": k, "w": ["all"]}]
                    if g.chance(0.3):
                        # The rest of it, from an occurrence or further on.
                        ops.append({"op": "iter", "n": k, "w": ["all"], "from": g.r.randrange(1, 6), "pre": g.chance(0.5)})
                    out.append({"fam": "bounds", "ops": ops})
        # All the counts, to their end and a little more.
        for c in [0, 1, 2, 3, 126, 127, 128, 254, 255] + [g.r.randrange(256) for _ in range(3 * n)]:
            r = self.rule(g, g.pick(["SECONDLY", "DAILY", "WEEKLY", "MONTHLY"]), g.pick([1, 2, 3]))
            r["count"] = [c]
            s = self.start(g, r)
            ex = [x for x in candidates(r, s, 30) if g.chance(0.1)]
            out.append({"fam": "count", "ops": self.given(g, self.recurring(g, None, s, r, ex)) + [{"op": "iter", "n": c + 3, "w": ["all"]}]})
        return out


class C12(Iterating):
    models = [recurrences("ends", 5, 8)]
    zoned = dict(bound=0.3, window=0)
    full = True

    def cases(self, g, n):
        out = []
        gen11 = C11()
        for comp in RECURRING:
            for freq in FREQ:
                for _ in range(9 * n):
                    if g.chance(0.5):
                        r, s, ex = gen11.bounded(g, freq)
                    else:
                        r = self.rule(g, freq)
                        s, ex = self.start(g, r), []
                    r = dict(r, wkst=g.pick([[], ["MO"]]))
                    if g.chance(0.1):
                        r["interval"] = 0
                        if not r["count"] and g.chance(0.5):
                            r["count"] = [g.pick([1, 3, 9])]
                    end = None
                    if g.chance(0.75):
                        end = self.ending(g, s)
                    c = self.recurring(g, comp, s, r, ex, end, rich=g.chance(0.6))
                    ops = self.given(g, c)
                    n1 = self.steps(r, 6)
                    ops.append({"op": "iter", "n": n1, "w": ["all"], "full": True})
                    k = g.r.randrange(1, 5)
                    ops.append({"op": "iter", "n": self.steps(r, 5), "w": ["all"], "full": True, "from": k})
                    ops.append({"op": "iter", "n": n1, "w": ["all"], "full": True})
                    out.append({"fam": "moved", "ops": ops})
                    # From occurrence to occurrence.
                    ops = self.given(g, c)
                    for _ in range(g.r.choice([2, 3, 4])):
                        ops.append({"op": "take", "n": g.r.choice([0, 1, 1, 2, 5])})
                        if g.chance(0.3):
                            ops.append({"op": "iter", "n": self.steps(r, 3), "w": ["all"], "full": True})
                    ops.append({"op": "iter", "n": self.steps(r, 4), "w": ["all"], "full": True, "from": g.r.randrange(4), "pre": g.chance(0.7)})
                    out.append({"fam": "taken", "ops": ops})
        return out


class C13(Iterating):
    models = [recurrences("windows", 5, 6)]
    zoned = dict(bound=0.2, window=1, excluded=0.1)

    def cases(self, g, n):
        out = []
        gen11 = C11()
        for freq in FREQ:
            for comp in RECURRING:
                for _ in range(22 * n):
                    if g.chance(0.4):
                        r, s, ex = gen11.bounded(g, freq)
                    else:
                        r = self.rule(g, freq)
                        s, ex = self.start(g, r), []
                    cs = candidates(r, s, 14)
                    if g.chance(0.3):
                        ex = [x for x in cs if g.chance(0.3)]
                    a, b = gen11.near(g, g.pick(cs)), gen11.near(g, g.pick(cs))
                    if s[0] == 0 and freq in ("SECONDLY", "MINUTELY", "HOURLY"):
                        # Its first occurrence and the next ones don't compare alike with a time.
                        a, b = [0] + a[1:4], [0] + b[1:4]
                    x = g.r.random()
                    if x < 0.5:
                        if g.chance(0.85) and tuple(a[1:]) > tuple(b[1:]):
                            a, b = b, a
                        w = ["between", a, b]
                    elif x < 0.75:
                        w = ["at", a]
                    else:
                        w = ["after", a]
                    if x >= 0.5 or g.chance(0.1):
                        # Between the occurrences too.
                        if g.chance(0.2):
                            w[1] = [0] + a[1:4]
                    k = self.steps(r, 16)
                    out.append({"fam": "window", "ops": self.given(g, self.recurring(g, comp, s, r, ex)) + [{"op": "iter", "n": k, "w": w},
                                                         {"op": "iter", "n": self.steps(r, 3), "w": w, "from": g.r.randrange(0, 4), "pre": g.chance(0.5)}]})
        # At dates of dense recurrences.
        for _ in range(10 * n):
            r = self.rule(g, "HOURLY", g.pick([1, 5, 6, 12, 24, 25]))
            s = self.start(g, r, (1, 2))
            cs = candidates(r, s, 40)
            d = g.pick(cs)
            for w in (["at", [0] + d[1:4]], ["at", d], ["between", [0] + d[1:4], gen11.near(g, d)]):
                out.append({"fam": "dense", "ops": self.given(g, self.recurring(g, None, s, r)) + [{"op": "iter", "n": 30, "w": w}]})
        return out


# -- C14 ---------------------------------------------------------------------------


def macros(kinds, depth, each, deeper=None, more=None):
    """The models of the fields named in macros, to this number and with as many samples of each type."""
    return [Model("MC_Macro", {"Of": "{%s}" % ", ".join('"%s"' % k for k in kinds)}, {"Depth": depth, "Each": each},
                  {"Depth": deeper or depth, "Each": more or each})]


class C14(Family):
    """The uses of the macros are those of macros/src/forms.rs, with any arguments."""

    assumptions = ["The uses of the macros are 1300 fixed field lists; their values are arbitrary."]
    models = macros(KINDS, 1, 9) + macros(["VTODO", "VJOURNAL"], 1, 3, 2, 2) + macros(["VEVENT"], 1, 3, 2, 1) + macros([k for k in KINDS if k not in RECURRING], 2, 1, 2, 9)

    def from_model(self, model, out):
        return []

    @staticmethod
    def forms():
        return json.load(open(os.path.join(engine.ROOT, "macros", "forms.json")))

    def argument(self, g, how, ty, name, bad):
        """An argument, which is an invalid text if bad."""
        if how == "str":
            if ty == "RAW" or ty in ("TEXT", "URI"):
                return cps(g.text(breaks=True))
            if ty == "OFFSET":
                s = g.wire(ty, "req")[1]
            else:
                s = g.wire(ty, "opt")[1]
            if bad:
                s = g.pick([g.mutate(s), g.mutate(s), "", " " + s, s + " ", "x", "20010230", "P1"])
            return cps(s)
        if how in ("comp", "comps"):
            one = lambda: g.comp(g.pick(ALARMS) if ty == "VALARM" else ty, 0.2)
            return one() if how == "comp" else [one() for _ in range(g.pick([0, 1, 2, 3]))]
        if how == "map":
            c = g.comp("VEVENT", 0, subs=False)
            c["x"], c["i"] = g.entries(True, n=g.pick([0, 1, 2])), g.entries(False, n=g.pick([0, 1, 2]))
            return c
        one = {"FLOAT": lambda: cps(g.flt()), "U8": lambda: g.pick([0, 1, 2, 127, 128, 255]),
               "WEEKDAY": lambda: g.pick(DAYS), "BY": lambda: g.r.randrange(-128, 128),
               "DAYNUM": lambda: [g.pick([[], [1], [-1], [53], [-53]]), g.pick(DAYS)]}.get(ty, lambda: g.value(ty, "", name))
        if how == "val":
            return one()
        if how == "opt":
            return [one()] if g.chance(0.8) else []
        return [one() for _ in range(g.pick([0, 1, 2, 3]))]

    def fill(self, entries, args):
        """The entries, with the arguments in their places."""
        out = []
        for e in entries:
            items = []
            for it in e["v"]:
                if it[0] == "obj":
                    items.append(["obj", self.fill(it[1], args)])
                elif it[0] in ("new", "alarm"):
                    items.append([it[0], it[1], self.fill(it[2], args)])
                elif it[0] == "lit":
                    items.append(it)
                elif it[0] == "map":
                    items.append(["map", args[it[1]]["x" if e["n"] == "x_prop" else "i"]])
                else:
                    items.append([it[0], args[it[1]]])
            out.append({"n": e["n"], "v": items})
        return out

    def cases(self, g, n):
        return []

    def extra(self, work, tier, seed):
        g = Gen("C14-%s" % seed)
        cases = []
        parsed = ("DT", "DOD", "DUR", "GEO", "RRULE", "RSTATUS", "OFFSET", "TRIGGER")
        for k, f in enumerate(self.forms()):
            texts = [j for j, a in enumerate(f["args"]) if a[0] == "str" and a[1] in parsed]
            runs = [None] * (2 if len(f["args"]) else 1)
            if f["tag"] in ("text", "items", "object"):
                runs += texts + texts
            elif texts:
                runs.append(g.pick(texts))
            if tier == "thorough":
                runs *= 6
            ops = []
            for bad in runs:
                args = [self.argument(g, *a, bad == j) for j, a in enumerate(f["args"])]
                ops.append({"op": "macro", "form": k, "kind": f["kind"], "args": args, "entries": self.fill(f["entries"], args)})
            cases += batch(f["tag"], ops, 8)
        for k, c in enumerate(cases):
            c["id"] = "%s-%d" % (c["fam"], k)
        return engine.run_macros(cases, work), cases


# -- C15 ---------------------------------------------------------------------------


def orders(mode, zones=None):
    """The model of the pairs in a mode."""
    return Model("MC_Order", {"Mode": '"%s"' % mode}, {"Size": 1}, {"Size": 2}, zones=zones)


class C15(Family):
    models = [orders("dates"), orders("lengths"), orders("periods"), orders("zones", (2, 6))]

    def dated(self, g, pool, date, length):
        """Dates to compare, convert and move, given how to choose them."""
        a = date() if g.chance(0.5) else g.pick(pool)
        b = g.pick(pool) if g.chance(0.3) else C11().near(g, a)
        out = [{"op": "cmp", "ty": "Date", "a": a, "b": b}]
        if a[0] and b[0]:
            out.append({"op": "cmp", "ty": "DateTime", "a": a, "b": b})
            out.append({"op": "diff", "ty": "DateTime", "a": a, "b": b})
        if g.chance(0.3):
            a, l = date(), length()
            y = a[1] - l[1] // 365 - 2 if l[0] else a[1] + l[1] // 365 + 2
            if 1 <= y <= 9000:
                out.append({"op": "plus", "ty": "Date", "a": a, "b": l})
                if a[0]:
                    out.append({"op": "plus", "ty": "DateTime", "a": a, "b": l})
                    back = [1 - l[0] if l[1] or l[2] else 0] + l[1:]
                    out.append({"op": "minus", "ty": "DateTime", "a": a, "b": back})
        if g.chance(0.3):
            out.append({"op": "conv", "a": date()})
        return out

    def cases(self, g, n):
        ops = []
        pool = [g.date() for _ in range(20)]
        for _ in range(500 * n):
            ops += self.dated(g, pool, g.date, g.length)
        for _ in range(250 * n):
            a, b = g.period(), g.period()
            if g.chance(0.5):
                # As long or nearly so.
                x = g.pick([0, 1, -1])
                l = [0, g.pick([0, 1, 3]), g.r.randrange(10, 86000)]
                b = ["sd", g.date((1, 2)), l]
                s = g.date((1, 2))
                a = ["se", s, g.shift(s, l[1], l[2] + x)]
            if g.chance(0.5):
                a, b = b, a
            ops.append({"op": "cmp", "ty": "Period", "a": a, "b": b})
            ops.append({"op": "pdur", "a": a})
            ty = {"se": "StartEnd", "sd": "StartDur"}
            if a[0] == b[0]:
                ops.append({"op": "cmp", "ty": ty[a[0]], "a": a, "b": b})
        for _ in range(80 * n):
            # The length of a period may be negative.
            s = g.date((1, 2))
            a = ["se", s, C11().near(g, s)]
            if a[2][0] == 0:
                continue
            b = ["se", s, C11().near(g, s)]
            if b[2][0] == 0:
                continue
            ops.append({"op": "cmp", "ty": "Period", "a": a, "b": b})
            ops.append({"op": "cmp", "ty": "StartEnd", "a": a, "b": b})
            ops.append({"op": "pdur", "a": a})
        return batch("order", ops, 30)

    def generate(self, seed, tier):
        yield from super().generate(seed, tier)
        for zone in ZONES[1:]:
            # Around the changes of the offset.
            g = Zoned("C15-%s-%s" % (zone, seed), zone)
            ops = []
            near = [g.any() for _ in range(6)]
            for _ in range(50 if tier == "quick" else 600):
                ops += self.dated(g, near, g.any, lambda: g.length(days=g.pick([0, 0, 1, 30])))
                if g.chance(0.5):
                    s, e, e2 = g.instant(), g.instant(), g.instant()
                    ops.append({"op": "pdur", "a": ["se", s, e]})
                    ops.append({"op": "cmp", "ty": "Period", "a": ["se", s, e], "b": g.pick([["se", s, e2], ["se", e2, e], ["sd", s, g.length(days=0)]])})
            yield zone, g.here(batch("zone", ops, 20))


# -- C16 ---------------------------------------------------------------------------


class Zoned(Gen):
    """Dates around the changes of the offset of a zone."""

    def __init__(self, seed, zone):
        super().__init__(seed)
        self.zone = zone
        self.near = [t for t, _ in zones.changes(zone, (1975, 1995, 2011, 2024))]
        # When the offset had seconds, and after the changes which are listed.
        self.far = [t for t, _ in zones.changes(zone, [*range(1850, 1948), 2038, 2060, 2099])]

    def instant(self):
        x = self.r.random()
        if x < 0.08:
            y = self.pick([1850, 1883, 1900, 1905, 1910, 1920, 1945, 1969, 2037, 2038, 2050, 2099])
            t = datetime.datetime(y, self.r.randrange(1, 13), self.r.randrange(1, 29), *self.hms(), tzinfo=zones.UTC)
        elif self.near and x < 0.72 or self.far and x < 0.14:
            t = self.pick(self.far if self.far and (x < 0.14 or not self.near) else self.near) + datetime.timedelta(seconds=self.pick(
                [0, -1, 1, 3600, -3600, 1800, -1800, 7200, -7200, 86400, -86400, self.r.randrange(-90000, 90000)]))
        else:
            t = datetime.datetime(self.r.randrange(1972, 2036), self.r.randrange(1, 13), self.r.randrange(1, 29), *self.hms(), tzinfo=zones.UTC)
        return zones.fields(t)

    def wall(self):
        """A floating time, which the zone may skip or repeat."""
        d = self.instant()
        return self.shift([1] + d[1:], 0, zones.offset(self.zone, d))

    def both(self):
        return self.instant() if self.chance(0.6) else self.wall()

    def any(self):
        return self.both() if self.chance(0.85) else [0] + self.wall()[1:4]

    def here(self, cases):
        """The cases, with what the specification has to know of the zone."""
        for c in cases:
            years = zones.years_of(c["ops"]) | c.pop("years", set())
            if self.zone != "UTC" and years:
                c["zone"] = zones.table(self.zone, years)
        return cases


class C16(Iterating):
    read, ends = 0, 0
    models = [recurrences("zones", 8, 8, zones=(2, 6))]

    def generate(self, seed, tier):
        n = 8 if tier == "thorough" else 1
        for zone in ZONES:
            g = Zoned("C16-%s-%s" % (zone, seed), zone)
            yield zone, g.here(self.zone_cases(g, n))

    def zone_cases(self, g, n):
        out = []
        # Reading: the same day and time of day, whatever the zone.
        for _ in range(12 * n):
            ds = [g.both() for _ in range(6)]
            w = [g.w_date(d) for d in ds]
            lines = ["DTSTAMP:" + w[0], "UID:u", "DTSTART:" + w[1], "DTEND:" + w[2], "CREATED:" + w[3], "EXDATE:%s,%s" % (w[4], w[5]),
                     "RRULE:FREQ=DAILY;UNTIL=" + w[5], "RDATE:" + w[4], "RDATE;VALUE=PERIOD:%s/PT1H,%s/%s" % (w[0], w[1], w[1])]
            alarm = g.block("AUDIO", ["ACTION:AUDIO", "TRIGGER;VALUE=DATE-TIME:" + w[2]])
            ops = [parse("VEVENT", g.join(g.block("VEVENT", lines, [alarm])))]
            fb = ["DTSTAMP:" + w[0], "UID:u", "DTSTART:" + w[2], "DTEND:" + w[3], "FREEBUSY:%s/%s,%s/P1D" % (w[4], w[5], w[1])]
            ops.append(parse("VFREEBUSY", g.join(g.block("VFREEBUSY", fb))))
            ops.append(parse("VTODO", g.join(g.block("VTODO", ["DTSTAMP:" + w[1], "UID:u", "DUE:" + w[0], "COMPLETED:" + w[2], "LAST-MODIFIED:" + w[3]]))))
            out.append({"fam": "read", "ops": ops})
        # Writing and reading back.
        for _ in range(8 * n):
            c = g.comp("VEVENT", 0, subs=False)
            c["x"] = c["i"] = []
            ds = [g.both() for _ in range(5)]
            c["f"]["DTSTAMP"], c["f"]["DTSTART"], c["f"]["DTEND"] = [ds[0]], [ds[1]], [ds[2]]
            c["f"]["EXDATE"] = [ds[3]]
            c["f"]["RDATE"] = [["period", [["sd", ds[4], [0, 0, 3600]]]]]
            c["f"]["RRULE"] = [dict(self.rule(g), until=[ds[4]])]
            out.append({"fam": "write", "ops": [build(c), {"op": "write"}, {"op": "reread"}]})
        # Alone.
        ops, years = [], set()
        for _ in range(20 * n):
            d = g.both()
            years.add(d[1])
            ty = g.pick(["Date", "DateTime", "Trigger", "Period", "Recur"])
            if ty in ("Date", "DateTime", "Trigger"):
                ops.append(val(ty, g.w_date(d)))
            elif ty == "Period":
                ops.append(val(ty, g.w_date(d) + "/PT1H"))
            else:
                ops.append(val(ty, "FREQ=DAILY;UNTIL=" + g.w_date(d)))
            ops.append({"op": "vw", "ty": "DateTime", "v": d})
            ops.append({"op": "vr"})
        out += [dict(c, years=years) for c in batch("alone", ops, 12)]
        # Exact intervals.
        out += [self.exact(g) for _ in range(20 * n)]
        # Floating times don't depend on the zone at all.
        for _ in range(6 * n):
            r = self.rule(g, g.pick(FREQ), g.pick([1, 2, 5]))
            out.append({"fam": "floating", "ops": [build(self.recurring(g, None, g.wall(), r)), {"op": "iter", "n": 8, "w": ["all"]}]})
        # Months and years of instants: it goes on.
        for _ in range(8 * n):
            r = self.rule(g, g.pick(["MONTHLY", "YEARLY"]), g.pick([1, 2, 5]))
            s = g.instant()
            out.append({"fam": "months", "ops": [build(self.recurring(g, None, s, r)), {"op": "iter", "n": 12, "w": ["all"], "loose": True}]})
        # Sums.
        ops = []
        for _ in range(10 * n):
            r = self.rule(g)
            s = g.both()
            how = g.pick({1: ["Date", "DateTime", "NaiveDateTime"], 2: ["Date", "DateTime", "Local"]}[s[0]])
            op = {"op": "radd", "how": how, "r": r, "a": s}
            if s[0] == 2 and r["freq"] in ("MONTHLY", "YEARLY"):
                op["loose"] = True
            ops.append(op)
            l = g.length(days=g.pick([0, 1, 30]))
            ops.append({"op": "plus", "ty": g.pick(["Date", "DateTime"]), "a": s, "b": l})
            # Lengths and order.
            a, b = g.instant(), g.instant()
            ops.append({"op": "pdur", "a": g.pick([["se", a, b], ["se", s, g.both()]])})
            ops.append({"op": "diff", "ty": "DateTime", "a": a, "b": b})
            ops.append({"op": "cmp", "ty": g.pick(["Date", "DateTime"]), "a": s, "b": g.both()})
            ops.append({"op": "cmp", "ty": "Period", "a": ["se", a, b], "b": g.pick([["se", a, g.instant()], ["sd", s, g.length(days=0)]])})
            ops.append({"op": "minus", "ty": "DateTime", "a": s, "b": g.length(days=0)})
            ops.append({"op": "conv", "a": s})
        out += batch("sums", ops, 10)
        return out


# -- C17 ---------------------------------------------------------------------------


def nests(kinds, size, more, rich=False):
    """The model of the sequences of this many components within others."""
    return Model("MC_Nest", {"Of": "{%s}" % ", ".join('"%s"' % k for k in kinds)}, {"Size": size, "Rich": "FALSE"},
                 {"Size": more, "Rich": str(rich).upper()})


class C17(Family):
    models = [nests(["VCALENDAR"], 2, 2, True), nests(["VEVENT", "VTIMEZONE"], 3, 4)] + cycles(["VCALENDAR", "VEVENT", "VTIMEZONE"], 1, 2, True, 2, 1)

    def from_model(self, model, out):
        if model.module == "MC_Nest":
            return batch("nest", [{"op": "inside", "ty": x["ty"], "head": x["head"], "tail": x["tail"], "parts": x["parts"]} for x in self.part(out, 1300)], 6)
        return [{"fam": "model", "ops": [build(c), {"op": "parts"}]} for c in self.part(once(out), 500, 20000)]

    def blocks(self, g, kind, n, depth=0):
        """Components which can be within one, each whole, some of them with a value which isn't one."""
        out = []
        for _ in range(n):
            sub = g.pick(SUBS[kind])
            k = g.pick(ALARMS) if sub == "VALARM" else sub
            lines = g.w_comp(k, g.pick([0, 0.1, 0.4]), subs=depth == 0, depth=1)
            x = g.r.random()
            if x < 0.12:
                at = [j for j, l in enumerate(lines) if not l.startswith(("BEGIN:", "END:")) and ":" in l]
                if at:
                    j = g.pick(at)
                    name, value = lines[j].rsplit(":", 1)
                    lines[j] = name + ":" + g.mutate(value)
            elif x < 0.18:
                at = [j for j, l in enumerate(lines) if not l.startswith(("BEGIN:", "END:"))]
                if at:
                    del lines[g.pick(at)]
            out.append({"ty": "VALARM" if k in ALARMS else k, "text": cps(g.join(lines, lf=g.chance(0.1), fold=g.pick([0, 0, 0.03])))})
        return out

    def cases(self, g, n):
        out = []
        for kind in SUBS:
            ops = []
            for _ in range(110 * n):
                lines = g.w_comp(kind, g.pick([0, 0.1, 0.3]), subs=False)
                ops.append({"op": "inside", "ty": kind, "head": cps(g.join(lines[:-1])), "tail": cps(g.join(lines[-1:])),
                            "parts": self.blocks(g, kind, g.pick([0, 1, 1, 2, 2, 3, 5]))})
            for m in (16, 17, 33):
                # Many.
                lines = g.w_comp(kind, 0.1, subs=False)
                ops.append({"op": "inside", "ty": kind, "head": cps(g.join(lines[:-1])), "tail": cps(g.join(lines[-1:])),
                            "parts": self.blocks(g, kind, m, 1)})
            for m in (101, 300):
                # Hundreds, as small as can be.
                k = g.pick(SUBS[kind])
                kinds = [g.pick(ALARMS) if k == "VALARM" else k for k in ([k] * m if m == 101 else [g.pick(SUBS[kind]) for _ in range(m)])]
                ops.append({"op": "inside", "ty": kind, "head": cps(g.join(g.block(kind)[:-1])), "tail": cps("END:%s\r\n" % kind),
                            "parts": [{"ty": wire_kind(k), "text": cps(g.join(g.block(k, g.minimal(k) + ["X-N:%d" % j])))} for j, k in enumerate(kinds)]})
            out += batch("inside", ops, 4)
            for _ in range(70 * n):
                out.append({"fam": "built", "ops": [build(g.comp(kind, g.pick([0, 0.1, 0.4]))), {"op": "parts"}]})
            for _ in range(30 * n):
                out.append({"fam": "read", "ops": [parse(kind, g.join(g.w_comp(kind, g.pick([0, 0.1, 0.3]))), j=False), {"op": "parts"}]})
            for m in (16, 17, 33):
                c = g.comp(kind, 0, subs=False)
                for s in c["s"]:
                    if g.chance(0.6):
                        s[1] += [g.comp(g.pick(ALARMS) if s[0] == "VALARM" else s[0], 0.05) for _ in range(m)]
                out.append({"fam": "many", "ops": [build(c), {"op": "parts"}]})
            # Each of its lines, before each kind of component, with as little as can be in it.
            ops = []
            for name, p, v in g.w_every(kind):
                lines = ["BEGIN:" + kind] + g.minimal(kind, (name,)) + [g.w_line(name, p, v)]
                # As well with nothing in what is required.
                parts = []
                for k in [k for sub in SUBS[kind] for k in (ALARMS if sub == "VALARM" else [sub])]:
                    parts.append({"ty": wire_kind(k), "text": cps(g.join(g.block(k)))})
                    hollow = [l.split(":")[0] + ":" if l.startswith(("UID:", "DESCRIPTION:", "SUMMARY:", "TZID:")) else l for l in g.minimal(k)]
                    if g.chance(0.5) if kind == "VCALENDAR" else True:
                        parts.append({"ty": wire_kind(k), "text": cps(g.join(g.block(k, hollow)))})
                if g.chance(0.3):
                    g.r.shuffle(parts)
                ops.append({"op": "inside", "ty": kind, "head": cps(g.join(lines)), "tail": cps("END:%s\r\n" % kind), "parts": parts})
            out += batch("meaning", ops, 12)
        for name, kind, text in gen.corpus():
            if kind in SUBS:
                out.append({"fam": "corpus", "ops": [parse(kind, text, j=False), {"op": "parts"}]})
        return out


# -- C18 ---------------------------------------------------------------------------


def lives(kinds, start, depth, alt, deeper, more, only=()):
    """The model of the lives of components of these kinds."""
    q = lambda xs: "{%s}" % ", ".join('"%s"' % x for x in xs)
    return Model("MC_Life", {"Of": q(kinds), "From1": q(start), "Only": q(only)}, {"Depth": depth, "Alt": alt}, {"Depth": deeper, "Alt": more})


class C18(Iterating):
    models = [lives(["VEVENT"], ["min"], 2, 1, 2, 2), lives(["VTODO"], ["min"], 2, 1, 2, 3), lives(["VJOURNAL"], ["min"], 2, 1, 2, 3),
              lives(["VCALENDAR", "VTIMEZONE", "EMAIL", "STANDARD"], ["min", "full"], 2, 1, 2, 3),
              lives(["VEVENT"], ["full"], 1, 2, 2, 1), lives(["VTODO"], ["full"], 1, 2, 2, 1),
              lives([k for k in KINDS if k not in ("VEVENT", "VTODO")], ["full"], 1, 1, 2, 1),
              lives(["AUDIO", "DISPLAY", "DAYLIGHT", "VFREEBUSY"], ["min"], 2, 1, 3, 1),
              lives(["VEVENT"], ["recurring"], 3, 1, 3, 2, ["DTSTART", "RRULE", "EXDATE", "DTEND", "SUMMARY", "VALARM"]),
              lives(["VTODO", "VJOURNAL"], ["recurring"], 3, 1, 4, 1, ["DTSTART", "RRULE", "EXDATE", "DUE"])]

    MOVED = ["DTSTART", "DTEND", "DUE", "RRULE"]

    def life(self, g, log):
        """What is written after each change, and read again, is compared with what it was, but for what the change names."""
        ops, c = [], None
        changed = []  # Since it was last written.
        apart = []  # Since it was last read.

        def write():
            ops.append({"op": "write", "j": False, "beside": sorted(set(changed))})
            changed.clear()

        def note(names):
            changed.extend(names)
            apart.extend(names)

        for op in log:
            if op["op"] in ("build", "parse"):
                ops.append(op)
                c = op.get("c")
                if op["op"] == "build":
                    had = {"x": self.names(c["x"]), "i": self.names(c["i"])}
                else:
                    had = {"x": op.pop("x"), "i": op.pop("i")}
                    # Texts are only kept as they're read from the second time on.
                    ops += [{"op": "write", "j": False}, {"op": "reread"}]
                write()
            elif op["op"] == "set":
                ops.append(op)
                if op["part"] in "xi":
                    new = self.names(op["v"])
                    note(had[op["part"]] + new)
                    had[op["part"]] = new
                else:
                    note([op["name"]])
                write()
            elif op["op"] == "take":
                ops.append(op)
                note(self.MOVED)
                write()
            elif op["op"] == "cycle":
                ops.append({"op": "reread", "beside": sorted(set(apart))})
                apart.clear()
                write()
            elif op["op"] == "iter":
                ops.append(op)
        return ops

    def names(self, entries):
        return ["".join(map(chr, e[k])) for e in entries for k in "nk"]

    def from_model(self, model, out):
        g = Gen("life-%s" % self.seed)
        cases = []
        for log in self.part(out, 100, 900):
            ops = self.life(g, log + [{"op": "cycle"}])
            if log[0]["c"]["k"] in RECURRING:
                ops.append({"op": "iter", "n": 3, "w": ["all"], "full": True})
            cases.append({"fam": "life", "ops": ops})
        return cases

    def meanings(self, g, kind, n):
        """Sets each field to what code could give a meaning, and looks at what else it changes."""
        changes = []
        for name, ty, mult in FIELDS[kind]:
            if name not in ("ACTION", "RECURRENCE-ID", "DTSTART", "RRULE", "EXDATE", "DTEND", "DUE"):
                changes += [{"op": "set", "part": "f", "name": name, "v": [v]} for v in g.every(ty, kind, name)]
        for part in "xi":
            for name in gen.REAL_X if part == "x" else gen.REAL_I:
                for v in g.r.sample(gen.REAL["X"], min(len(gen.REAL["X"]), 2 * n)):
                    changes.append({"op": "set", "part": part, "name": part, "v": [{"n": cps(name), "k": cps(name), "p": [], "v": cps(v)}]})
        out = []
        for k in range(0, len(changes), 12):
            c = g.comp(kind, 0)
            c["x"] = c["i"] = []
            it = []
            if kind in RECURRING:
                r = self.rule(g, g.pick(FREQ[3:6]), g.pick([1, 2, 3]))
                r["count"] = [g.pick([2, 4])]
                c["f"]["DTSTART"], c["f"]["RRULE"] = [g.date(year=g.r.randrange(1990, 2030))], [r]
                c["f"]["EXDATE"] = [g.value("DOD", kind, "EXDATE")]
                it = [{"op": "iter", "n": 5, "w": ["all"], "full": g.chance(0.3)}]
            self.plain(c)
            log = [build(c)]
            for e in changes[k:k + 12]:
                log += [e] + it
            out.append({"fam": "meaning", "ops": self.life(g, log + [{"op": "cycle"}] + it)})
        return out

    def cases(self, g, n):
        out = []
        # An identifier of the recurrence, which isn't to be read: only what occurs matters.
        for kind in RECURRING:
            for k in range(4 * n):
                r = self.rule(g, g.pick(FREQ), g.pick([1, 2, 3]))
                s = self.start(g, r)
                it = {"op": "iter", "n": 3, "w": ["all"], "full": True}
                c = self.recurring(g, kind, s, r, rich=g.chance(0.3))
                at = {"op": "set", "part": "f", "name": "RECURRENCE-ID", "v": [s]}
                out.append({"fam": "identified", "ops": [build(c), at, it, {"op": "take", "n": g.pick([0, 1, 2])}, it, dict(at, v=[g.pick([s, g.date()])]), it,
                                                          dict(at, v=[]), it]})
        # What it holds gets long.
        for kind in KINDS:
            c, d = g.comp(kind, 1.0, subs=False), g.large(kind)
            self.plain(c)
            self.plain(d)
            log = [build(c)]
            names = [f[0] for f in FIELDS[kind] if d["f"][f[0]] and f[0] not in ("ACTION", "RECURRENCE-ID", "DTSTART", "RRULE")]
            for name in g.r.sample(names, min(len(names), 8)):
                log.append({"op": "set", "part": "f", "name": name, "v": d["f"][name]})
            texts = [f[0] for f in FIELDS[kind] if f[1] in ("TEXT", "URI") and f[0] != "ACTION"]
            for name in g.r.sample(texts, min(2, len(texts))) + ["x"]:
                t = cps(g.text(12) * 800)
                log.append({"op": "set", "part": "x", "name": "x", "v": [{"n": cps("X-A"), "k": cps("X-A"), "p": [], "v": t}]} if name == "x" else
                           {"op": "set", "part": "f", "name": name, "v": [{"p": [], "t": t}]})
            out.append({"fam": "large", "ops": self.life(g, log + [{"op": "cycle"}])})
        for kind in KINDS:
            out += self.meanings(g, kind, n)
            fs = [f for f in FIELDS[kind] if f[0] not in ("ACTION", "RECURRENCE-ID")]
            for m in range((11 if kind in RECURRING or kind in SUBS else 6) * n):
                c = g.comp(kind, g.pick([0, 0.1, 0.4, 0.9]))
                self.plain(c)
                if kind in RECURRING and g.chance(0.6):
                    r = self.rule(g)
                    c["f"]["DTSTART"], c["f"]["RRULE"] = [self.start(g, r)], [r]
                log = [build(c)]
                if g.chance(0.3):
                    lines = [l for l in g.w_comp(kind, g.pick([0, 0.2, 0.5])) if not l.startswith("RECURRENCE-ID")]
                    keys = [re.split("[:;]", l)[0] for l in lines]
                    log = [parse(kind, g.join(lines), j=False, x=keys, i=keys)]
                for _ in range(g.pick([3, 6, 10])):
                    x = g.r.random()
                    if x < 0.2:
                        log.append({"op": "cycle"})
                    elif x < 0.3 and kind in RECURRING:
                        log.append({"op": "take", "n": g.pick([0, 0, 1, 2, 3])})
                    elif x < 0.36 and kind in RECURRING:
                        log.append({"op": "iter", "n": 3, "w": ["all"], "full": g.chance(0.5)})
                    elif x < 0.46:
                        p = g.pick("xi")
                        log.append({"op": "set", "part": p, "name": p, "v": g.entries(p == "x")})
                    elif x < 0.6 and kind in SUBS:
                        sub = g.pick(SUBS[kind])
                        cs = [g.comp(g.pick(ALARMS) if sub == "VALARM" else sub, g.pick([0, 0.1]), depth=1) for _ in range(g.pick([0, 1, 2]))]
                        for y in cs:
                            self.plain(y)
                        log.append({"op": "set", "part": "s", "name": sub, "v": cs})
                    else:
                        name, ty, mult = g.pick(fs)
                        if name == "RRULE":
                            v = [self.rule(g)] if g.chance(0.7) else []
                        else:
                            k = 1 if mult == "req" else g.pick([0, 1, 1]) if mult == "opt" else g.pick([0, 1, 2, 3])
                            v = [g.value(ty, kind, name) for _ in range(k)]
                        log.append({"op": "set", "part": "f", "name": name, "v": v})
                out.append({"fam": "lives", "ops": self.life(g, log + [{"op": "cycle"}])})
        return out


# -- C19 ---------------------------------------------------------------------------


def equals(kinds, start, depth, alt, deeper, more, only=()):
    """The model of components of these kinds, copied and changed."""
    q = lambda xs: "{%s}" % ", ".join('"%s"' % x for x in xs)
    return Model("MC_Equal", {"Of": q(kinds), "From1": q(start), "Only": q(only)}, {"Depth": depth, "Alt": alt}, {"Depth": deeper, "Alt": more},
                 init="EqualInit", nxt="EqualNext", invariants=("EqualSafe",))


class C19(Family):
    models = [Model("MC_Alike"),
              equals(KINDS, ["full"], 1, 2, 1, 5),
              equals(["EMAIL", "VFREEBUSY", "VTIMEZONE"], ["full"], 2, 1, 2, 2),
              equals(["VEVENT"], ["full"], 2, 1, 3, 1, ["SUMMARY", "COMMENT", "UID", "VALARM"]),
              equals(["VTODO", "VJOURNAL"], ["min"], 2, 1, 2, 1)]

    ALIKE = {"Text": "TEXT", "Uri": "URI", "DateTime": "DT", "Date": "DOD", "Duration": "DUR", "Class": "CLASS", "Geo": "GEO", "U32": "U32",
             "Status": "STATUS", "TimeTransparency": "TRANSP", "Recur": "RRULE", "RequestStatus": "RSTATUS", "Period": "PERIOD",
             "StartEnd": "PERIOD", "StartDur": "PERIOD", "Offset": "OFFSET", "Trigger": "TRIGGER", "RDate": "RDATE"}

    def edit(self, c, op):
        if op["part"] == "f":
            return dict(c, f=dict(c["f"], **{op["name"]: op["v"]}))
        if op["part"] == "s":
            return dict(c, s=[[n, op["v"] if n == op["name"] else v] for n, v in c["s"]])
        return dict(c, **{op["part"]: op["v"]})

    def get(self, c, op):
        return c["f"][op["name"]] if op["part"] == "f" else dict(map(tuple, c["s"]))[op["name"]] if op["part"] == "s" else c[op["part"]]

    def history(self, log, r):
        """It's compared with its copy after each change, then each change is undone."""
        ops, c, mark, todo = [log[0], {"op": "mark"}, {"op": "same"}], log[0]["c"], log[0]["c"], {}
        for op in log[1:]:
            ops.append(op)
            if op["op"] == "set":
                c = self.edit(c, op)
                todo[(op["part"], op["name"])] = op
            else:
                mark, todo = c, {}
            ops.append({"op": "same"})
        todo = list(todo.values())
        r.shuffle(todo)
        for op in todo:
            ops += [dict(op, v=self.get(mark, op)), {"op": "same"}]
        return ops

    def from_model(self, model, out):
        if model.module == "MC_Alike":
            out = once(out)
            return batch("alike", [x for x in out if x["op"] == "alike"], 30) + batch("wrap", self.part([x for x in out if x["op"] == "wrap"], 800), 20)
        r = random.Random("equal-%s" % self.seed)
        return [{"fam": "model", "ops": self.history([log[0]] + [op for op in log[1:]], r)} for log in self.part(out, 350, 8000)]

    # Values which differ as little as they can.

    # What could be taken for the same text.
    PAIRS = [("mailto:a@b", "MAILTO:a@b"), ("http://a/", "HTTP://a/"), ("http://a", "http://a/"), ("http://A/", "http://a/"), ("<a>", "a"), ("'a'", "a"),
             ('"a"', "a"), ("(a)", "a"), ("a%20b", "a b"), ("a+b", "a b"), ("%41", "A"), ("%c3%a9", "%C3%A9"), ("\u00e9", "e\u0301"), ("\u212b", "\u00c5"),
             ("stra\u00dfe", "strasse"), ("\u03c3", "\u03c2"), ("a\r\n", "a\n"), ("a\n", "a"), ("a\r", "a"), ("\\n", "\n"), ("\\N", "\\n"), ("\\,", ","),
             ("\\;", ";"), ("\\\\", "\\"), ("", " "), ("\t", " "), ("\u00a0", " "), ("a\u200b", "a"), ("\ufeffa", "a"), ("\0", ""), ("1", "01"), ("1", "1.0"),
             ("a,b", "a, b"), ("a b", "a  b"), ("PUBLIC", "Public"), ("\u0130", "i"), ("a;", "a"), ("a,", "a"), ("a:", "a"), ("urn:uuid:AB", "urn:uuid:ab"),
             ("a@b.C", "a@b.c"), ("tel:+1-2", "tel:+12"), ("CID:a", "cid:a"), ("data:,a", "a"), ("\u201ca\u201d", '"a"'), ("-", "\u2212"), ("0", "-0"), ("null", ""), ("*", "a")]

    def near_text(self, g, t):
        s = list(t)
        x = g.r.random()
        if x < 0.12:
            return cps(g.wrapped("".join(map(chr, t))))
        if x < 0.2:
            u = "".join(map(chr, t))
            return cps(g.pick([u.upper(), u.lower(), u.strip(), u.title(), u.replace("\r\n", "\n"), u[::-1], u + u, u[:1].swapcase() + u[1:]]))
        k = g.r.randrange(len(s) + 1)
        x = g.r.random()
        if s and x < 0.25:
            del s[min(k, len(s) - 1)]
        elif s and x < 0.5:
            k = min(k, len(s) - 1)
            c = chr(s[k])
            s[k] = ord(c.swapcase()) if len(c.swapcase()) == 1 and c.swapcase() != c else (s[k] ^ 1 if s[k] < 128 else 97)
        elif x < 0.65:
            s.append(32)
        elif x < 0.75:
            s.insert(0, 32)
        else:
            s.insert(k, ord(g.pick(gen.STRUCT + gen.PLAIN + gen.WIDE)))
        return s

    def near_params(self, g, p):
        p = {"".join(map(chr, k)): "".join(map(chr, v)) for k, v in p}
        ks = sorted(p)
        x = g.r.random()
        if ks and x < 0.25:
            del p[g.pick(ks)]
        elif ks and x < 0.6:
            k = g.pick(ks)
            p[k] = "".join(map(chr, self.near_text(g, cps(p[k]))))
        elif ks and x < 0.75:
            k = g.pick(ks)
            v = p.pop(k)
            p[k.swapcase() if k.swapcase() != k else k + "A"] = v
        else:
            p[g.pick(["X-P", "LANGUAGE", "A", "zz"])] = g.pick(["", "a", "fr"])
        return g.kv(p)

    def near(self, g, ty, v):
        v = copy.deepcopy(v)
        x = g.r.random()
        if ty in ("TEXT", "URI"):
            return dict(v, t=self.near_text(g, v["t"])) if x < 0.5 else dict(v, p=self.near_params(g, v["p"]))
        if ty in ("DT", "DOD"):
            if x < 0.3 and v[0]:
                return [3 - v[0]] + v[1:]
            if x < 0.5 and ty == "DOD":
                return [0] + v[1:4] if v[0] else [1] + v[1:] + [0, 0, 0]
            return self.soon(g, v)
        if ty == "DUR":
            if x < 0.4 and (v[1] or v[2]):
                return [1 - v[0]] + v[1:]
            v[1 if x < 0.7 else 2] += 1
            return v if v[2] < 86400 else g.length()
        if ty == "PERIOD":
            if x < 0.3:
                # Another one of the same length.
                if v[0] == "se":
                    try:
                        a, b = (datetime.datetime(*d[1:]) for d in v[1:])
                        n = int((b - a).total_seconds())
                        return ["sd", v[1], [0, n // 86400, n % 86400]] if n >= 0 else g.period()
                    except ValueError:
                        return g.period()
            if x < 0.7:
                v[1] = self.soon(g, v[1])
                return v
            v[2] = self.soon(g, v[2]) if v[0] == "se" else self.near(g, "DUR", v[2])
            return v if v[0] == "se" or not v[2][0] else g.period()
        if ty == "RRULE":
            k = g.pick(["freq", "until", "count", "interval", "by", "byday", "wkst"])
            if k == "by":
                n = g.r.randrange(len(BY))
                v["by"][n] = v["by"][n][::-1] if len(set(v["by"][n])) > 1 and x < 0.4 else v["by"][n][1:] if v["by"][n] else [g.pick([1, 2])]
            elif k == "byday":
                v[k] = v[k][::-1] if len(v[k]) > 1 and x < 0.4 else v[k][1:] if v[k] else [[[], g.pick(DAYS)]]
            elif k == "interval":
                v[k] = (v[k] + 1) % 256
            elif k == "freq":
                v[k] = g.pick(FREQ)
            elif k == "wkst":
                v[k] = [] if v[k] else [g.pick(DAYS)]
            elif k == "count":
                v[k] = [] if v[k] and x < 0.5 else [(v[k] or [0])[0] ^ 1]
            else:
                v[k] = [] if v[k] and x < 0.5 else [self.soon(g, v[k][0])] if v[k] else [g.date()]
            return v
        if ty == "RSTATUS":
            if x < 0.4:
                return dict(v, desc=self.near_text(g, v["desc"]))
            if x < 0.8:
                return dict(v, ext=[] if v["ext"] and x < 0.6 else [self.near_text(g, (v["ext"] or [[]])[0])])
            return dict(v, code=cps(g.pick(["2", "2.5", "3.1"])))
        if ty == "GEO":
            k = g.r.randrange(2)
            if x < 0.5 and len(v[k]) > 1 and 49 <= v[k][-1] <= 56:
                v[k][-1] += g.pick([1, -1]) if v[k][-1] > 49 else 1
                return v
            return v[::-1] if x < 0.6 else [cps(g.flt()), v[1]] if x < 0.8 else [v[0], cps(g.flt())]
        if ty == "CLASS" and v[0] == "CUSTOM":
            return ["CUSTOM", self.near_text(g, v[1])]
        if ty == "CLASS" and x < 0.5:
            return ["CUSTOM", cps(g.pick([v[0], v[0].lower(), v[0].title(), v[0] + " "]))]
        if ty == "TRIGGER":
            return [v[0], self.near(g, "DUR" if v[0] == "dur" else "DT", v[1])]
        if ty == "RDATE":
            n = len(v[1])
            if n > 1 and x < 0.3:
                return [v[0], v[1][::-1]]
            if n > 1 and x < 0.5:
                return [v[0], v[1][1:]]
            k = g.r.randrange(n)
            v[1][k] = self.near(g, "PERIOD" if v[0] == "period" else "DOD" if v[1][k][0] == 0 else "DT", v[1][k])
            return v
        return g.value(ty)

    def variants(self, g, c, p=1.0):
        """Its lists hold values which nearly are the same, or are."""
        for name, ty, mult in FIELDS[c["k"]]:
            if mult in ("many", "append") and g.chance(p):
                vs = [g.value(ty, c["k"], name)]
                for _ in range(g.pick([1, 2, 3, 5])):
                    v = g.pick(vs)
                    vs.append(copy.deepcopy(v) if g.chance(0.3) else self.near(g, ty, v))
                c["f"][name] = vs
        return c

    def soon(self, g, d):
        try:
            return g.shift(d, g.pick([0, 0, 1, -1]), 0 if d[0] == 0 else g.pick([1, -1, 60, 3600])) if d[1] > 1 else g.date((d[0],))
        except (OverflowError, ValueError):
            return g.date((d[0],))

    def change(self, g, c, depth=0):
        """One part of a component is changed, as little as can be."""
        kind = c["k"]
        where = ["f"] * 8 + ["x", "i"] + ["s"] * (4 if any(v for _, v in c["s"]) else 0)
        part = g.pick(where)
        if part == "f":
            held = [x for x in FIELDS[kind] if c["f"][x[0]]]
            name, ty, mult = g.pick(held if held and g.chance(0.7) else FIELDS[kind])
            vs = copy.deepcopy(c["f"][name])
            x = g.r.random()
            many = mult in ("many", "append")
            if not vs:
                vs = [g.value(ty, kind, name)]
            elif many and len(vs) > 1 and x < 0.25:
                vs = vs[::-1] if x < 0.12 else vs[1:] if x < 0.2 else vs[:-1]
            elif many and x < 0.4:
                vs.insert(g.r.randrange(len(vs) + 1), copy.deepcopy(g.pick(vs)))
            elif mult != "req" and x < 0.5:
                vs = []
            else:
                k = g.r.randrange(len(vs))
                vs[k] = self.near(g, ty, vs[k])
            return {"op": "set", "part": "f", "name": name, "v": vs}
        if part in "xi":
            es = copy.deepcopy(c[part])
            x = g.r.random()
            if not es or x < 0.2:
                es = g.entries(part == "x", kind=kind)
            elif x < 0.35:
                del es[g.r.randrange(len(es))]
            else:
                e = g.pick(es)
                k = g.pick(["k", "p", "v"])
                e[k] = self.near_params(g, e[k]) if k == "p" else self.near_text(g, e[k])
            return {"op": "set", "part": part, "name": part, "v": es}
        name, cs = g.pick([s for s in c["s"] if s[1]])
        cs = copy.deepcopy(cs)
        x = g.r.random()
        if len(cs) > 1 and x < 0.3:
            cs = cs[::-1]
        elif x < 0.2:
            cs = cs[1:]
        elif x < 0.35:
            cs.append(copy.deepcopy(cs[0]))
        else:
            k = g.r.randrange(len(cs))
            cs[k] = self.edit(cs[k], self.change(g, cs[k], depth + 1))
        return {"op": "set", "part": "s", "name": name, "v": cs}

    def cases(self, g, n):
        out = []
        for kind in KINDS:
            for _ in range(22 * n):
                c = self.variants(g, g.comp(kind, g.pick([0.05, 0.2, 0.5])), g.pick([0, 0.2]))
                log = [build(c)]
                for _ in range(g.pick([1, 2, 4, 8])):
                    if g.chance(0.15):
                        log.append({"op": "mark"})
                    log.append(self.change(g, c))
                    c = self.edit(c, log[-1])
                out.append({"fam": "near", "ops": self.history(log, g.r)})
            for _ in range(6 * n):
                # What is read twice is the same, and so is what is read with its lines in another order where it can be.
                t = g.join(g.w_comp(kind, g.pick([0.1, 0.3])))
                out.append({"fam": "read", "ops": [parse(kind, t, j=False), {"op": "mark"}, parse(kind, t, j=False), {"op": "same"}]})
            for _ in range(n):
                c = g.large(kind)
                log = [build(c)]
                for _ in range(3):
                    log.append(self.change(g, c))
                    c = self.edit(c, log[-1])
                out.append({"fam": "large", "ops": self.history(log, g.r)})
            for _ in range(2):
                # Copies of copies, through writing and reading.
                c = g.comp(kind, 0.3)
                out.append({"fam": "cycle", "ops": [build(c), {"op": "mark"}, {"op": "write", "j": False}, {"op": "same"}, {"op": "mark"}, {"op": "same"}]})
        for kind in gen.ALARMS:
            for _ in range(14 * n):
                c = self.variants(g, g.comp(kind, g.pick([0, 0.2, 0.6])), g.pick([0, 1]))
                if g.chance(0.5):
                    c["f"]["ACTION"] = [{"p": g.kv(g.params()), "t": cps(g.pick(["", "AUDIO", "DISPLAY", "EMAIL", "x", g.text()]))}]
                ops = [build(c), {"op": "mark"}, {"op": "same"}, {"op": "alarm"}]
                for _ in range(g.pick([0, 1, 3])):
                    ops += [{"op": "mark"}, self.change(g, c), {"op": "same"}]
                    c = self.edit(c, ops[-2])
                out.append({"fam": "alarm", "ops": ops + [{"op": "write"}]})
        out += batch("new", [{"op": "new", "ty": k} for k in KINDS], 3)
        ops = []
        for name, ty in self.ALIKE.items():
            for _ in range(45 * n):
                v = g.value(ty)
                while name in ("StartEnd", "StartDur") and v[0] != {"StartEnd": "se", "StartDur": "sd"}[name]:
                    v = g.value(ty)
                w = self.near(g, ty, v) if g.chance(0.8) else g.value(ty)
                if name in ("StartEnd", "StartDur") and w[0] != v[0]:
                    continue
                ops.append({"op": "alike", "ty": name, "a": v, "b": w if g.chance(0.9) else v})
        for a, b in self.PAIRS:
            for name in ("Text", "Uri"):
                p = g.kv(g.params())
                ops.append({"op": "alike", "ty": name, "a": {"p": p, "t": cps(a)}, "b": {"p": p, "t": cps(b)}})
                ops.append({"op": "alike", "ty": name, "a": {"p": g.kv({"X-P": a}), "t": cps("a")}, "b": {"p": g.kv({"X-P": b}), "t": cps("a")}})
            ops.append({"op": "alike", "ty": "Class", "a": ["CUSTOM", cps(a)], "b": ["CUSTOM", cps(b)]})
        for k in ("PUBLIC", "PRIVATE", "CONFIDENTIAL"):
            ops += [{"op": "alike", "ty": "Class", "a": [k, []], "b": ["CUSTOM", cps(t)]} for t in (k, k.lower(), k.title())]
        for name, vs in (("Freq", FREQ), ("Weekday", DAYS)):
            ops += [{"op": "alike", "ty": name, "a": a, "b": b} for a in vs for b in vs]
        for _ in range(60 * n):
            a, b = ([[] if g.chance(0.4) else [g.pick([1, 2, -1, -2, 53])], g.pick(DAYS[:3])] for _ in range(2))
            ops.append({"op": "alike", "ty": "WeekdayNum", "a": a, "b": b})
        out += batch("alike", ops, 20)
        ops = []
        for name, ty in self.ALIKE.items():
            for _ in range(12 * n):
                vs = [g.value(ty) for _ in range(g.pick([0, 1, 2, 3, 5]))]
                if name in ("StartEnd", "StartDur"):
                    vs = [v for v in vs if v[0] == {"StartEnd": "se", "StartDur": "sd"}[name]]
                if ty in ("TEXT", "URI"):
                    # With long parameters, or many of them.
                    for v in vs:
                        if g.chance(0.2):
                            v["p"] = g.kv({"X-%d" % k: g.long_text() for k in range(g.pick([1, 1, 3, 12]))})
                ops.append({"op": "wrap", "ty": name, "vs": vs})
        for name, n_vs in (("Text", 40), ("U32", 100), ("Date", 70), ("String", 300)):
            vs = [cps(g.text()) if name == "String" else g.value(self.ALIKE[name]) for _ in range(n_vs)]
            ops.append({"op": "wrap", "ty": name, "vs": vs})
        for _ in range(20 * n):
            ops.append({"op": "wrap", "ty": "String", "vs": [cps(g.text(breaks=True)) for _ in range(g.pick([0, 1, 2, 4]))]})
            ops.append({"op": "wrap", "ty": "Weekday", "vs": [g.pick(DAYS) for _ in range(g.pick([0, 1, 2, 4]))]})
            ops.append({"op": "wrap", "ty": "U8", "vs": [g.dig(g.r.randrange(256)) for _ in range(g.pick([0, 1, 2, 4]))]})
        out += batch("wrap", ops, 20)
        ops = []
        known = sorted({t for p in self.PAIRS for t in p} | {a + "a" + b for a, b in gen.AROUND} | {"a" + b for _, b in gen.AROUND} | {a + "a" for a, _ in gen.AROUND})
        for ty, hows in (("Text", ["from", "into", "string", "line"]), ("Uri", ["from", "into", "string", "line"]), ("Line", ["into", "string"])):
            for how in hows:
                for t in known:
                    op = {"op": "from", "ty": ty, "how": how, "t": cps(t)}
                    if how == "line":
                        op["c"] = g.comp("VEVENT", 0, subs=False)
                        op["c"]["x"] = [{"n": cps("X-A"), "k": cps("X-A"), "p": [], "v": cps(t)}]
                    ops.append(op)
                for _ in range(30 * n):
                    t = g.pick([g.text(breaks=True), g.real("SUMMARY"), g.esc(g.text(breaks=True)), g.long_text(breaks=True), "MAILTO:A@B", g.pick(g.pick(self.PAIRS))])
                    if g.chance(0.3):
                        t = g.wrapped(t)
                    op = {"op": "from", "ty": ty, "how": how, "t": cps(t)}
                    if how == "line":
                        c = g.comp("VEVENT", 0, subs=False)
                        c["x"] = [{"n": cps("X-A"), "k": cps(g.name(True)), "p": g.kv(g.params(breaks=True)), "v": cps(t)}]
                        op["c"] = c
                    ops.append(op)
        out += batch("from", ops, 15)
        return out


FAMILIES = {k: v() for k, v in list(globals().items()) if isinstance(v, type) and issubclass(v, Family) and len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
