"""Generators of values, texts and components, for the cases run on the real code.

Nothing here knows what the outcome of a case must be: only the specification does. The shape of
the components comes from the specification itself (spec/Schema.tla)."""

import datetime
import os
import random
import re

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "..", "spec")
CORPUS = os.path.join(HERE, "..", "corpus")


def cps(s):
    return [ord(c) for c in s]


def _schema():
    text = open(os.path.join(SPEC, "Schema.tla")).read()
    field = re.compile(r'P\("([A-Z-]+)", "([A-Z0-9]+)", "([a-z]+)"\)')
    observance = text.split("Observance == <<")[1].split(">>")[0]
    fields = {}
    body = text.split("Fields == [")[1].split("FieldNames")[0]
    for name, rest in re.findall(r"([A-Z]+) \|-> (<<.*?>>|Observance)", body, re.S):
        src = observance if rest == "Observance" else rest
        fields[name] = field.findall(src)
    return fields


FIELDS = _schema()
SUBS = {
    "VCALENDAR": ["VALARM", "VEVENT", "VFREEBUSY", "VJOURNAL", "VTIMEZONE", "VTODO"],
    "VEVENT": ["VALARM"],
    "VTIMEZONE": ["STANDARD", "DAYLIGHT"],
}
ALARMS = ["AUDIO", "DISPLAY", "EMAIL"]
KINDS = list(FIELDS)
NAMES = sorted({f[0] for k in KINDS for f in FIELDS[k]})


def wire_kind(kind):
    return "VALARM" if kind in ALARMS else kind


MINIMAL = {
    "VCALENDAR": [("PRODID", "p"), ("VERSION", "2.0")],
    "VEVENT": [("DTSTAMP", "20240101T000000"), ("UID", "u"), ("DTSTART", "20240102T030405")],
    "VTODO": [("DTSTAMP", "20240101T000000"), ("UID", "u")],
    "VJOURNAL": [("DTSTAMP", "20240101T000000"), ("UID", "u"), ("DTSTART", "20240102")],
    "VFREEBUSY": [("DTSTAMP", "20240101T000000"), ("UID", "u")],
    "VTIMEZONE": [("TZID", "Z")],
    "STANDARD": [("DTSTART", "19701025T030000"), ("TZOFFSETTO", "+0100"), ("TZOFFSETFROM", "+0200")],
    "DAYLIGHT": [("DTSTART", "19700329T020000"), ("TZOFFSETTO", "+0200"), ("TZOFFSETFROM", "+0100")],
    "AUDIO": [("ACTION", "AUDIO"), ("TRIGGER", "-PT15M")],
    "DISPLAY": [("ACTION", "DISPLAY"), ("TRIGGER", "-PT15M"), ("DESCRIPTION", "d")],
    "EMAIL": [("ACTION", "EMAIL"), ("TRIGGER", "-PT15M"), ("DESCRIPTION", "d"), ("SUMMARY", "s")],
}

AROUND = ["<>", '""', "''", "()", "[]", "{}", "  ", "\t\t", "\n\n", "\r\r", "``", "\u00a0\u00a0", "\ufeff ", "\0\0", ",,", ";;", "::", "..", "\\\\", "//"]

STATUS = ["TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "DRAFT", "FINAL"]
FREQ = ["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"]
DAYS = ["SU", "MO", "TU", "WE", "TH", "FR", "SA"]
TRANSP = ["OPAQUE", "TRANSPARENT"]
CLASS = ["PUBLIC", "PRIVATE", "CONFIDENTIAL"]
BY = ["BYSECOND", "BYMINUTE", "BYHOUR", "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO", "BYMONTH", "BYSETPOS"]
BYRANGE = {
    "BYSECOND": (0, 60), "BYMINUTE": (0, 59), "BYHOUR": (0, 23), "BYMONTHDAY": (-31, 31),
    "BYYEARDAY": (-128, 127), "BYWEEKNO": (-53, 53), "BYMONTH": (1, 12), "BYSETPOS": (-128, 127),
}

# Texts met in calendars, which code could give a meaning.
REAL = {
    "METHOD": ["PUBLISH", "REQUEST", "REPLY", "ADD", "CANCEL", "REFRESH", "COUNTER", "DECLINECOUNTER", "publish"],
    "CALSCALE": ["GREGORIAN", "CHINESE", "gregorian"],
    "VERSION": ["2.0", "1.0", "2.1", "2.0;2.1"],
    "PRODID": ["-//Apple Inc.//iCal 5.0//EN", "-//Google Inc//Google Calendar 70.9054//EN", "ikal"],
    "TZID": ["Europe/Paris", "UTC", "America/New_York", "/citadel.org/20210210_1/Europe/London", "GMT", "Etc/UTC"],
    "TZNAME": ["CET", "CEST", "EST", "UTC", "GMT+1"],
    "TZURL": ["http://tzurl.org/zoneinfo/Europe/Paris"],
    "UID": ["19970610T172345Z-AF23B2@example.com", "uid1@example.com", "550e8400-e29b-41d4-a716-446655440000", ""],
    "ORGANIZER": ["mailto:a@example.com", "MAILTO:A@EXAMPLE.COM", "invalid:nomail"],
    "ATTENDEE": ["mailto:a@example.com", "mailto:b@example.com", "MAILTO:B@EXAMPLE.COM", "tel:+33123456789"],
    "ATTACH": ["cid:1@example.com", "http://example.com/a.pdf", "VGhlIHF1aWNrIGJyb3duIGZveA==", "Basso", "file:///a%20b"],
    "URL": ["http://example.com/?a=b&c=d", "https://example.com/a;b,c", "geo:48.8,2.3"],
    "LOCATION": ["Paris", "1 rue de la Paix\\, 75002 Paris", "https://meet.example.com/x", "TBD"],
    "SUMMARY": ["Meeting", "Meeting (cancelled)", "Busy", "(No title)", "CANCELLED: Meeting", " x ", "Begin: end", "END:VEVENT"],
    "DESCRIPTION": ["a\\nb", "<html><body>a</body></html>", "BEGIN:VEVENT", "This is an event reminder", "http://x"],
    "COMMENT": ["a\\nb", "ok", "RRULE:FREQ=DAILY", ""],
    "CONTACT": ["Jim Dolittle\\, ABC Industries\\, +1-919-555-1234"],
    "CATEGORIES": ["WORK", "work", "BIRTHDAY", "HOLIDAY", "ANNIVERSARY", "A B"],
    "RESOURCES": ["PROJECTOR", "EASEL", "ROOM 1"],
    "RELATED-TO": ["uid1@example.com", "jsmith.part7.19960817T083000.xyzMail@example.com"],
    "X": ["TRUE", "FALSE", "BUSY", "FREE", "0", "1", "PT1H", "Europe/Paris", "#FF0000", "-PT15M", "20240101T000000Z"],
}
REAL_X = ["X-WR-CALNAME", "X-WR-TIMEZONE", "X-WR-CALDESC", "X-PUBLISHED-TTL", "X-APPLE-TRAVEL-ADVISORY-BEHAVIOR",
          "X-MICROSOFT-CDO-ALLDAYEVENT", "X-MICROSOFT-CDO-BUSYSTATUS", "X-MOZ-LASTACK", "X-MOZ-GENERATION",
          "X-LIC-LOCATION", "X-ALT-DESC", "X-APPLE-STRUCTURED-LOCATION", "X-WR-ALARMUID", "X-"]
REAL_I = ["REFRESH-INTERVAL", "COLOR", "NAME", "IMAGE", "CONFERENCE", "SOURCE", "ACKNOWLEDGED", "PROXIMITY", "EXRULE",
          "TZID-ALIAS-OF", "BUSYTYPE", "STRUCTURED-DATA", "XPROP", "x-lower"]
REAL_P = {
    "TZID": ["Europe/Paris", "UTC"], "CN": ["John Smith", "Smith, John", "a: b", "a;b"], "ROLE": ["REQ-PARTICIPANT", "CHAIR"],
    "PARTSTAT": ["NEEDS-ACTION", "ACCEPTED", "DECLINED"], "RSVP": ["TRUE", "FALSE"], "CUTYPE": ["INDIVIDUAL", "ROOM"],
    "DELEGATED-TO": ["mailto:c@example.com"], "SENT-BY": ["mailto:d@example.com"], "LANGUAGE": ["fr", "en-US"],
    "ALTREP": ["CID:part3.msg.970415T083000@example.com", "http://a/b;c"], "ENCODING": ["BASE64", "8BIT", "QUOTED-PRINTABLE"],
    "FMTTYPE": ["text/plain", "audio/basic"], "RANGE": ["THISANDFUTURE"], "RELATED": ["START", "END"],
    "RELTYPE": ["PARENT", "CHILD", "SIBLING"], "FBTYPE": ["FREE", "BUSY"], "CHARSET": ["UTF-8"], "VALUE": ["TEXT", "URI", "BINARY", "DATE"],
}

# Characters which mean something somewhere, and some of each width.
PLAIN = list("abcXYZ019 .-_/@()")
STRUCT = list(",;:\\\"'=")
BREAKS = ["\n", "\r", "\r\n"]
WIDE = ["é", "ß", "ж", "€", "漢", "😀", "\u0301", "\u2028", "\u00a0", "\u0085", "\ufeff", "\t", "\x00", "\x7f", "\x0b"]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def chance(self, p):
        return self.r.random() < p

    # -- texts ----------------------------------------------------------

    def text(self, n=None, breaks=False, wide=True, struct=True):
        """Any characters."""
        r = self.r
        if n is None:
            n = r.choice([0, 1, 2, 3, 5, 8, 12, 20])
        out = []
        for _ in range(n):
            x = r.random()
            if breaks and x < 0.1:
                out.append(self.pick(BREAKS))
            elif struct and x < 0.35:
                out.append(self.pick(STRUCT))
            elif wide and x < 0.5:
                out.append(self.pick(WIDE))
            else:
                out.append(self.pick(PLAIN))
        return "".join(out)

    def wrapped(self, t):
        """Between characters which are often taken away."""
        a, b = self.pick(AROUND)
        return self.pick([a + t + b, a + t, t + b])

    def line_text(self, n=None):
        """A text which fits on a line: no break."""
        return self.text(n, breaks=False)

    def long_text(self, breaks=False, ascii=False):
        """Around the places where lines are folded."""
        n = self.r.choice([55, 60, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 80, 140, 148, 150, 152, 225, 300])
        n += self.r.randrange(-3, 4)
        if self.chance(0.4):
            c = self.pick(["a", "é", "€", "😀", ",", "\\", "\r\n" if breaks else ";"])
            pre = "x" * self.r.randrange(0, 5)
            return pre + c * (n // len(c.encode()) + 1)
        return self.text(n, breaks=breaks, wide=not ascii)

    def real(self, name):
        """Sometimes, a text which is usual there."""
        if self.chance(0.4 if name in ("METHOD", "CALSCALE", "VERSION") else 0.75):
            return ""
        if self.chance(0.2):
            # One usual elsewhere, or nearly.
            return self.spoilt(self.pick(REAL[self.pick(list(REAL))]))
        return self.pick(REAL.get(name) or REAL["X"])

    def spoilt(self, s):
        """A text, with some character which means something."""
        for _ in range(self.pick([0, 1, 1, 2])):
            k = self.pick([0, len(s), self.r.randrange(len(s) + 1)])
            s = s[:k] + self.pick(STRUCT) + s[k:]
        return s

    def esc(self, s):
        """The escaped form of a text."""
        return s.replace("\\", "\\\\").replace(";", "\\;").replace(",", "\\,").replace("\r\n", "\\n").replace("\n", "\\n").replace("\r", "\\n")

    def very_long(self, breaks=False):
        """A text on tens of lines."""
        n = self.pick([600, 1000, 1490, 1500, 2100, 4000]) + self.r.randrange(200)
        if self.chance(0.4):
            return self.pick(["", "x", "xy"]) + self.pick(["a", "é", "€", "😀", ",", "\\"]) * n
        return self.text(n, breaks=breaks)

    def name(self, x=False):
        if self.chance(0.15):
            return self.pick(REAL_X if x else REAL_I)
        if x and self.chance(0.06):
            return "X-" + self.pick(NAMES)
        n = "".join(self.pick(list("ABCXYZ019-")) for _ in range(self.r.randrange(1, 8)))
        if self.chance(0.1):
            n = n.lower()
        if x:
            return "X-" + n
        return "Q" + n

    def params(self, n=None, breaks=False):
        if n is None:
            n = self.r.choice([0, 0, 0, 1, 1, 2, 3])
        out = {}
        for _ in range(n):
            if self.chance(0.3):
                k = self.pick(list(REAL_P))
                out[k] = self.pick(REAL_P[k])
                continue
            k = self.pick(["TZID", "CN", "ROLE", "LANGUAGE", "ALTREP", "X-P", "VALUE", "a", "A1"])
            out[k] = self.param_text(breaks)
        return out

    def param_text(self, breaks=False):
        x = self.r.random()
        if x < 0.1:
            return ""
        if x < 0.5:
            return self.pick(["Europe/Paris", "fr", "REQ-PARTICIPANT", "a b", "1"])
        s = self.text(self.r.randrange(1, 10), breaks=breaks)
        return s

    # -- numbers and dates ----------------------------------------------

    def year(self):
        x = self.r.random()
        if x < 0.5:
            return self.r.randrange(1960, 2060)
        if x < 0.8:
            return self.pick([1, 2, 4, 99, 100, 400, 1599, 1600, 1899, 1900, 1901, 1904, 1969, 1970, 1999,
                              2000, 2001, 2004, 2023, 2024, 2037, 2038, 2096, 2100, 2104, 2400, 4000, 9000, 9998])
        return self.r.randrange(1, 9000)

    def ymd(self, year=None):
        y = year or self.year()
        x = self.r.random()
        if x < 0.35:
            m, d = self.pick([(1, 31), (2, 28), (2, 29), (3, 1), (1, 29), (1, 30), (12, 31), (1, 1), (4, 30),
                              (3, 31), (8, 31), (5, 31), (10, 31), (7, 31), (6, 30)])
        else:
            m, d = self.r.randrange(1, 13), self.r.randrange(1, 29)
        if (m, d) == (2, 29) and not (y % 4 == 0 and (y % 100 or y % 400 == 0)):
            d = 28
        return [y, m, d]

    def hms(self):
        if self.chance(0.3):
            return self.pick([[0, 0, 0], [23, 59, 59], [0, 0, 1], [12, 0, 0], [23, 0, 0], [0, 59, 59]])
        return [self.r.randrange(24), self.r.randrange(60), self.r.randrange(60)]

    def date(self, kinds=(0, 1, 2), year=None):
        k = self.pick(list(kinds))
        d = self.ymd(year)
        return [k] + d + (self.hms() if k else [])

    def length(self, neg=True, days=None):
        sec = self.pick([0, 1, 59, 60, 61, 3599, 3600, 86399, self.r.randrange(86400)])
        if days is None:
            days = self.pick([0, 0, 0, 1, 2, 6, 7, 8, 14, 30, 365, self.r.randrange(10000)])
        n = 1 if neg and (days or sec) and self.chance(0.3) else 0
        return [n, days, sec]

    def small(self, hi):
        return self.pick([0, 1, 2, 9, 10, hi - 1, hi, self.r.randrange(hi + 1)])

    def dig(self, n):
        return cps(str(n))

    # -- abstract values, by type of the schema --------------------------

    def value(self, ty, kind="", name="", tg=None):
        """An abstract value; tg gives the texts."""
        r = self.r
        if tg is None:
            tg = lambda: self.real(name) or self.text(breaks=True)
        if name == "ACTION":
            return {"p": [], "t": cps(kind)}
        if ty in ("TEXT", "URI"):
            return {"p": self.kv(self.params(breaks=True)), "t": cps(tg())}
        if ty == "DT":
            return self.date((1, 2))
        if ty == "DOD":
            return self.date()
        if ty == "DUR":
            return self.length()
        if ty == "CLASS":
            return self.pick([["PUBLIC", []], ["PRIVATE", []], ["CONFIDENTIAL", []],
                              ["CUSTOM", cps(self.pick(["X-SECRET", "x-secret", "Custom", "A", "CONFIDENTIALS"]))]])
        if ty == "GEO":
            return [cps(self.flt()), cps(self.flt())]
        if ty == "PRIO":
            return self.dig(r.randrange(10))
        if ty == "PERCENT":
            return self.dig(self.small(100))
        if ty == "U32":
            return self.dig(self.pick([0, 1, 9, 10, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, r.randrange(2**32)]))
        if ty == "STATUS":
            return self.pick(STATUS)
        if ty == "TRANSP":
            return self.pick(TRANSP)
        if ty == "RRULE":
            return self.rule()
        if ty == "RSTATUS":
            return {"code": cps(self.pick(["2", "2.8", "3.1", "1", "0", "10.25", "3.7", "2.01", "100", "0.5"])),
                    "desc": cps(tg()), "ext": [cps(tg())] if self.chance(0.5) else []}
        if ty == "PERIOD":
            return self.period()
        if ty == "OFFSET":
            s = r.randrange(-86340 // 60, 86340 // 60 + 1) * 60
            return self.pick([0, 3600, -3600, 5400, -12600, 20700, 50400, -43200, s, 86340, -86340, 60, -60])
        if ty == "TRIGGER":
            return ["dt", self.date((1, 2))] if self.chance(0.4) else ["dur", self.length()]
        if ty == "RDATE":
            n = r.choice([1, 1, 2, 3])
            if self.chance(0.4):
                return ["period", [self.period() for _ in range(n)]]
            # The items of a line are all dates or all date-times.
            if self.chance(0.4):
                return ["date", [self.date((0,)) for _ in range(n)]]
            return ["date", [self.date((1, 2)) for _ in range(n)]]
        raise KeyError(ty)

    def every(self, ty, kind, name):
        """The values which code could give a meaning, or some."""
        if ty in ("TEXT", "URI"):
            out = [{"p": [], "t": cps(t)} for t in REAL.get(name, REAL["X"]) + [""]]
            return out + [{"p": self.kv({k: self.pick(REAL_P[k])}), "t": cps(self.pick(REAL.get(name, REAL["X"])))} for k in REAL_P]
        if ty == "STATUS":
            return STATUS[:]
        if ty == "TRANSP":
            return TRANSP[:]
        if ty == "CLASS":
            return [[c, []] for c in CLASS] + [["CUSTOM", cps("X-A")]]
        if ty in ("PRIO", "PERCENT"):
            return [self.dig(n) for n in (range(10) if ty == "PRIO" else (0, 1, 50, 99, 100))]
        if ty == "U32":
            return [self.dig(n) for n in (0, 1, 2, 2**31, 2**32 - 1)]
        if ty == "RRULE":
            return [self.rule(f) for f in FREQ]
        return [self.value(ty, kind, name) for _ in range(6)]

    def w_every(self, kind):
        """Lines which code could give a meaning: (key, parameters, value)."""
        for name, ty, mult in FIELDS[kind]:
            if name == "ACTION":
                continue
            if ty in ("TEXT", "URI"):
                ts = REAL.get(name, REAL["X"])
                for t in ts:
                    yield name, {}, t
                for k in REAL_P:
                    yield name, {k: self.pick(REAL_P[k])}, self.pick(ts)
            elif ty in ("STATUS", "TRANSP", "CLASS"):
                for t in {"STATUS": STATUS, "TRANSP": TRANSP, "CLASS": CLASS}[ty]:
                    yield name, {}, t
            else:
                for _ in range(4):
                    yield (name,) + self.wire(ty, mult, kind, name)
        for name in REAL_X + REAL_I:
            for t in [self.pick(REAL["X"]) for _ in range(4)]:
                yield name, {}, t

    def kv(self, params):
        return [[cps(k), cps(params[k])] for k in sorted(params, key=lambda s: s.encode())]

    def flt(self):
        if self.chance(0.6):
            return self.pick(["0", "1", "-1", "37.38608", "-122.083", "48.8566", "2.35222", "-0.5", "180", "-90",
                              "0.001", "12.5", "99999", "0.1"])
        # Any which has few enough digits to be exact.
        n = str(self.r.randrange(1, 10 ** self.r.randrange(1, 7))).rstrip("0")
        e = self.r.randrange(-12, 12)
        if e >= 0:
            n += "0" * e
        else:
            n = n.rjust(1 - e, "0")
            n = n[:e] + "." + n[e:]
        return self.pick(["", "-"]) + n

    def period(self):
        k = self.pick([1, 2])
        a = self.date((k,))
        if self.chance(0.5):
            return ["sd", a, self.length(neg=False)]
        if self.chance(0.1):
            # Hardly a period, but a value.
            return ["se", self.later(a), a]
        return ["se", a, self.later(a)]

    def shift(self, d, days, secs):
        """A date later or sooner, as a list."""
        x = datetime.datetime(*d[1:]) + datetime.timedelta(days=days, seconds=secs)
        if d[0] == 0:
            return [0, x.year, x.month, x.day]
        return [d[0], x.year, x.month, x.day, x.hour, x.minute, x.second]

    def later(self, d):
        try:
            return self.shift(d, self.pick([0, 0, 1, 3, 40]), self.r.randrange(1, 86400))
        except OverflowError:
            return d

    def rule(self, freq=None, until=None, count=None, interval=None, by=True):
        r = self.r
        out = {"freq": freq or self.pick(FREQ), "until": [], "count": [], "interval": 1,
               "by": [[] for _ in BY], "byday": [], "wkst": []}
        x = r.random()
        if x < 0.3:
            out["until"] = [self.date()]
        elif x < 0.6:
            out["count"] = [self.pick([0, 1, 2, 10, 127, 128, 255, r.randrange(256)])]
        elif x < 0.7:
            out["until"] = [self.date()]
            out["count"] = [self.pick([0, 1, 2, 10, 127, 128, 255, r.randrange(256)])]
        if self.chance(0.5):
            out["interval"] = self.pick([0, 1, 2, 3, 10, 127, 128, 255])
        if by:
            for k, b in enumerate(BY):
                if self.chance(0.15):
                    lo, hi = BYRANGE[b]
                    out["by"][k] = [r.randrange(lo, hi + 1) for _ in range(r.choice([1, 2, 3]))]
            if self.chance(0.3):
                out["byday"] = [[[] if self.chance(0.5) else [self.pick([1, 2, -1, -2, 5, 53, -53, 10])], self.pick(DAYS)]
                                for _ in range(r.choice([1, 2, 3, 7]))]
            if self.chance(0.2):
                out["wkst"] = [self.pick(DAYS)]
        if count is not None:
            out["count"] = count
        if until is not None:
            out["until"] = until
        if interval is not None:
            out["interval"] = interval
        return out

    # -- abstract components ----------------------------------------------

    def entries(self, x, tg=None, n=None, kind=None):
        out = {}
        own = {f[0] for f in FIELDS.get(kind, [])}
        foreign = sorted({f[0] for k in KINDS for f in FIELDS[k]} - own) if kind and not x else []
        for _ in range(n if n is not None else self.r.choice([0, 0, 1, 2])):
            nm = self.pick(foreign) if foreign and self.chance(0.15) else self.name(x)
            # It may have been read under another name.
            key = nm if self.chance(0.85) else self.pick(["", self.name(x), nm + "-", "SUMMARY", "X-A"])
            out[nm] = {"n": cps(nm), "k": cps(key), "p": self.kv(self.params(breaks=True)),
                       "v": cps((tg or (lambda: self.real("") or self.text(breaks=True)))())}
        return [out[k] for k in sorted(out)]

    def comp(self, kind, density=0.3, tg=None, only=None, subs=True, depth=0):
        f = {}
        for name, ty, mult in FIELDS[kind]:
            n = 0
            if mult == "req":
                n = 1
            elif only is not None:
                n = 0 if name not in only else (1 if mult == "opt" else self.r.choice([1, 2, 3]))
            elif self.chance(density):
                n = 1 if mult == "opt" else self.r.choice([1, 1, 2, 3])
            f[name] = [self.value(ty, kind, name, tg) for _ in range(n)]
        c = {"k": kind, "f": f, "x": [], "i": [], "s": [[k, []] for k in SUBS.get(kind, [])]}
        if only is None:
            c["x"] = self.entries(True, tg)
            c["i"] = self.entries(False, tg, kind=kind)
            if c["x"] and self.chance(0.2):
                # The same name without its prefix.
                nm = "".join(map(chr, self.pick(c["x"])["n"]))[2:]
                if re.fullmatch("[A-Z0-9][A-Z0-9-]*", nm) and not nm.startswith("X-") and nm not in NAMES and nm not in ("BEGIN", "END"):
                    e = {"n": cps(nm), "k": cps(nm), "p": self.kv(self.params(breaks=True)), "v": cps(self.text(breaks=True))}
                    c["i"] = sorted([x for x in c["i"] if x["n"] != e["n"]] + [e], key=lambda x: x["n"])
        if subs:
            for s in c["s"]:
                n = self.r.choice([0, 0, 1, 2]) if depth == 0 else self.r.choice([0, 0, 1])
                for _ in range(n):
                    k = self.pick(ALARMS) if s[0] == "VALARM" else s[0]
                    s[1].append(self.comp(k, density * 0.7, tg, only, True, depth + 1))
        return c

    def full_rule(self):
        """All of its parts, with all of their values, or nearly."""
        out = self.rule(by=False)
        for k, b in enumerate(BY):
            lo, hi = BYRANGE[b]
            out["by"][k] = [x for x in range(lo, hi + 1) if self.chance(0.97)]
            if self.chance(0.3):
                self.r.shuffle(out["by"][k])
        out["byday"] = [[[] if not o else [o], d] for o in (0, 1, 2, 3, 4, 5, -1, -2, -5, 53, -53) for d in DAYS]
        out["wkst"] = [self.pick(DAYS)]
        return out

    def large(self, kind):
        """A component in which everything is long."""
        c = self.comp(kind, 1.0, subs=False)
        small = lambda: self.text(3)
        for name, ty, mult in FIELDS[kind]:
            x = self.r.random()
            if mult in ("many", "append") and x < 0.4:
                c["f"][name] = [self.value(ty, kind, name, small) for _ in range(self.pick([20, 70, 130]))]
            elif ty in ("TEXT", "URI") and name != "ACTION" and x < 0.3:
                c["f"][name][0]["t"] = cps(self.text(12) * self.pick([100, 400, 900]))
            elif ty in ("TEXT", "URI") and name != "ACTION" and x < 0.4:
                c["f"][name][0]["p"] = self.kv({"X-%s%d" % ("A" * self.pick([1, 30, 70]), k): self.param_text() for k in range(self.pick([13, 17, 40, 130]))})
            elif ty == "RRULE":
                c["f"][name] = [self.full_rule()]
        for part in "xi":
            if self.chance(0.5):
                head = "X-" if part == "x" else "Q"
                names = sorted({head + "N" * self.pick([1, 1, 30, 70, 300]) + str(k) for k in range(self.pick([3, 40, 100]))})
                c[part] = [{"n": cps(m), "k": cps(m), "p": [], "v": cps(small())} for m in names]
        return c

    # -- texts of values, by type -----------------------------------------

    def w_date(self, d):
        s = "%04d%02d%02d" % tuple(d[1:4])
        if d[0]:
            s += "T%02d%02d%02d" % tuple(d[4:7])
        if d[0] == 2:
            s += "Z"
        return s

    def w_dur(self):
        r = self.r
        sign = self.pick(["", "", "", "-", "+"])
        n = lambda: str(self.pick([0, 1, 2, 5, 7, 10, 15, 23, 24, 30, 36, 59, 60, 90, 99, 100, 1000, r.randrange(100000)]))
        x = r.random()
        if x < 0.2:
            return sign + "P" + n() + "W"
        out = sign + "P"
        if x < 0.6:
            out += n() + "D"
            if x < 0.35:
                return out
        t = self.pick(["H", "HM", "HMS", "M", "MS", "S", "HS"])
        return out + "T" + "".join(n() + u for u in t)

    def w_rule(self, v=None):
        v = v or self.rule()
        parts = []
        if v["until"]:
            parts.append("UNTIL=" + self.w_date(v["until"][0]))
        if v["count"]:
            parts.append("COUNT=%d" % v["count"][0])
        if v["interval"] != 1 or self.chance(0.3):
            parts.append("INTERVAL=%d" % v["interval"])
        for k, b in enumerate(BY):
            if v["by"][k]:
                plus = lambda n: ("+" if n > 0 and self.chance(0.2) and BYRANGE[b][0] < 0 else "") + str(n)
                parts.append(b + "=" + ",".join(plus(n) for n in v["by"][k]))
        if v["byday"]:
            parts.append("BYDAY=" + ",".join(("" if not o else ("%+d" if self.chance(0.3) else "%d") % o[0]) + d for o, d in v["byday"]))
        if v["wkst"]:
            parts.append("WKST=" + v["wkst"][0])
        f = "FREQ=" + v["freq"]
        if self.chance(0.7):
            return ";".join([f] + parts)
        parts.append(f)
        self.r.shuffle(parts)
        return ";".join(parts)

    def w_period(self):
        a = self.date((1, 2))
        if self.chance(0.5):
            return self.w_date(a) + "/" + self.w_dur().lstrip("+-")
        if self.chance(0.05):
            return self.w_date(self.later(a)) + "/" + self.w_date(a)
        return self.w_date(a) + "/" + self.w_date(self.later(a))

    def w_list(self, f, n=None):
        return ",".join(f() for _ in range(n or self.r.choice([1, 1, 2, 3])))

    def wire(self, ty, mult, kind="", name=""):
        """(params, value) of a line, most of the time valid."""
        p = {}
        if name == "ACTION":
            return p, kind
        if ty in ("TEXT", "URI"):
            p = self.params()
            real = self.real(name)
            if real:
                v = real
            elif ty == "URI":
                v = self.pick(["mailto:a@b.c", "http://x/y;z?a=1,2", "urn:uuid:1", self.line_text()])
            elif self.chance(0.5):
                v = self.esc(self.text(breaks=True))
            else:
                v = self.line_text()
        elif ty == "DT":
            v = self.w_date(self.date((1, 2)))
        elif ty == "DOD":
            if mult == "append":
                v = self.w_list(lambda: self.w_date(self.date()))
            else:
                v = self.w_date(self.date())
            if self.chance(0.3):
                p = {"VALUE": "DATE" if len(v) == 8 else "DATE-TIME"}
            elif self.chance(0.2):
                p = {"TZID": "Europe/Paris"}
        elif ty == "DUR":
            v = self.w_dur()
        elif ty == "CLASS":
            v = self.pick(CLASS + ["X-FOO", "CUSTOM", "PUBLICS", "x"])
        elif ty == "GEO":
            v = self.flt() + ";" + self.flt()
        elif ty == "PRIO":
            v = str(self.r.randrange(10))
        elif ty == "PERCENT":
            v = str(self.small(100))
        elif ty == "U32":
            v = str(self.pick([0, 1, 255, 256, 2**32 - 1, 2**31, self.r.randrange(2**32)]))
        elif ty == "STATUS":
            v = self.pick(STATUS)
        elif ty == "TRANSP":
            v = self.pick(TRANSP)
        elif ty == "RRULE":
            v = self.w_rule()
        elif ty == "RSTATUS":
            v = self.pick(["2.0", "3.1", "2.8", "1.25", "4.0", "3.7", "10.5"]) + ";" + self.esc(self.text())
            if self.chance(0.5):
                v += ";" + self.pick([self.esc(self.text()), self.line_text()])
        elif ty == "PERIOD":
            v = self.w_list(self.w_period)
        elif ty == "OFFSET":
            v = self.pick("+-") + "%02d%02d" % (self.r.randrange(24), self.r.randrange(60))
            if v == "-0000":
                v = "+0000"
        elif ty == "TRIGGER":
            if self.chance(0.4):
                v, p = self.w_date(self.date((1, 2))), {"VALUE": "DATE-TIME"}
            else:
                v, p = self.w_dur(), self.pick([{}, {"VALUE": "DURATION"}, {"RELATED": "END"}])
        elif ty == "RDATE":
            if self.chance(0.4):
                v, p = self.w_list(self.w_period), {"VALUE": "PERIOD"}
            elif self.chance(0.5):
                v, p = self.w_list(lambda: self.w_date(self.date((0,)))), {"VALUE": "DATE"}
            else:
                v = self.w_list(lambda: self.w_date(self.date((1, 2))))
                p = self.pick([{}, {"VALUE": "DATE-TIME"}, {"TZID": "Europe/Paris"}])
        else:
            raise KeyError(ty)
        return p, v

    MUT = list("0123456789+-/.,;:=TZPWDHMSY EeXtzp\"\\") + ["é", "٣", "１"]

    def mutate(self, s, alphabet=None, n=None):
        """A text close to another one."""
        alphabet = alphabet or self.MUT
        for _ in range(n or self.r.choice([1, 1, 1, 2, 3])):
            x = self.r.randrange(8)
            k = self.r.randrange(len(s) + 1)
            if x == 0:
                s = s[:k] + s[k + 1:]
            elif x == 1:
                s = s[:k] + self.pick(alphabet) + s[k:]
            elif x == 2:
                s = s[:k] + self.pick(alphabet) + s[k + 1:]
            elif x == 3:
                s = s + self.pick(alphabet)
            elif x == 4:
                s = self.pick(alphabet) + s
            elif x == 5:
                s = s[:k]
            elif x == 6:
                j = self.r.randrange(len(s) + 1)
                s = s[:k] + s[min(j, k):max(j, k)] + s[k:]
            elif x == 7:
                m = list(re.finditer(r"\d+", s))
                if m:
                    g = self.pick(m)
                    num = self.pick(["0", "00", "1", "99", "100", "127", "128", "255", "256", "366", "32768", "65536", "2147483648",
                                     "4294967296", "9223372036854775808", "99999999999999999999", "13", "24", "60", "61", "32"])
                    s = s[:g.start()] + num + s[g.end():]
        return s

    # -- texts of components ----------------------------------------------

    def w_params(self, p):
        out = ""
        for k, v in p.items():
            v = v.replace('"', "'").replace("\r", "").replace("\n", "")
            if re.search("[:;,]", v) or (v and self.chance(0.2)):
                v = '"' + v + '"'
            out += ";" + k + "=" + v
        return out

    def w_line(self, key, p, v):
        return key + self.w_params(p) + ":" + v

    def fold(self, line, prob=0.03):
        """Folds anywhere."""
        out = line[:1]
        for c in line[1:]:
            if self.chance(prob):
                out += "\r\n "
            out += c
        return out

    def block(self, kind, lines=None, subs=()):
        """Lines of a component; lines are already written."""
        k = wire_kind(kind)
        if lines is None:
            lines = [n + ":" + v for n, v in MINIMAL[kind]]
        out = ["BEGIN:" + k] + list(lines)
        for s in subs:
            out += s
        return out + ["END:" + k]

    def minimal(self, kind, but=()):
        return [n + ":" + v for n, v in MINIMAL[kind] if n not in but]

    def join(self, lines, lf=False, fold=0.0):
        """The text; some of the property lines may end with LF."""
        out = []
        for l in lines:
            if fold:
                l = self.fold(l, fold)
            edge = l.startswith("BEGIN:") or l.startswith("END:")
            out.append(l + ("\n" if lf and not edge and self.chance(0.4) else "\r\n"))
        return "".join(out)

    def parents(self, kind):
        return [k for k in SUBS if wire_kind(kind) in SUBS[k]]

    def nest(self, kind, block, deep=None):
        """The block in its parents: (type to read, lines)."""
        ps = self.parents(kind)
        ty = kind
        while ps and (deep if deep is not None else self.chance(0.5)):
            up = self.pick(ps)
            others = [self.block(k if k != "VALARM" else self.pick(ALARMS)) for k in
                      [self.pick(SUBS[up]) for _ in range(self.r.choice([0, 0, 1, 2]))]]
            subs = others + [block]
            self.r.shuffle(subs)
            block = self.block(up, None, subs)
            ty = up
            ps = self.parents(up)
        if ty in ALARMS and self.chance(0.5):
            ty = "VALARM"
        return ty, block

    def w_comp(self, kind, density=0.25, subs=True, depth=0):
        """Lines of a random component."""
        lines = []
        for name, ty, mult in FIELDS[kind]:
            n = 1 if mult == "req" else 0
            if not n and self.chance(density):
                n = self.r.choice([1, 1, 2, 3]) if mult in ("many", "append") else 1
            for _ in range(n):
                p, v = self.wire(ty, mult, kind, name)
                lines.append(self.w_line(name, p, v))
        for x in (True, False):
            for _ in range(self.r.choice([0, 0, 1, 2])):
                lines.append(self.w_line(self.name(x), self.params(), self.line_text()))
        self.r.shuffle(lines)
        blocks = []
        if subs:
            for k in SUBS.get(kind, []):
                for _ in range(self.r.choice([0, 0, 1, 2]) if depth == 0 else self.r.choice([0, 1])):
                    kk = self.pick(ALARMS) if k == "VALARM" else k
                    blocks.append(self.w_comp(kk, density * 0.7, True, depth + 1))
            self.r.shuffle(blocks)
        return self.block(kind, lines, blocks)


def corpus(seconds=True):
    """The texts of the repository's own tests; those with seconds in an offset are left out without seconds."""
    out = []
    for f in sorted(os.listdir(CORPUS)):
        kind = {"todos": "VTODO", "journals": "VJOURNAL", "freebusy": "VFREEBUSY", "events": "VEVENT",
                "timezones": "VTIMEZONE", "alarms": "VALARM", "calendars": "VCALENDAR"}[f.split("_")[0]]
        text = open(os.path.join(CORPUS, f), newline="").read()
        if seconds or not re.search(r"TZOFFSET(FROM|TO):[+-]\d{6}", text):
            out.append((f, kind, text))
    return out
