"""The changes of the offset of a time zone, as the specification has them."""

import datetime
import functools
import json
import zoneinfo

UTC = datetime.timezone.utc
# Where the years between two others matter too.
FIRST, LAST = 1900, 2110

ZONES = ["UTC", "Europe/Paris", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "America/St_Johns", "Pacific/Apia",
         "Africa/Casablanca", "Asia/Kathmandu", "America/Sao_Paulo", "Pacific/Chatham", "Pacific/Kiritimati", "Etc/GMT+12", "Europe/Dublin"]


def _offset(z, t):
    return int(t.astimezone(z).utcoffset().total_seconds())


@functools.cache
def _changes(zone, year):
    """Those of a year: [(instant, offset from then on)]."""
    z = zoneinfo.ZoneInfo(zone)
    t = datetime.datetime(year, 1, 1, tzinfo=UTC) - datetime.timedelta(seconds=1)
    off = _offset(z, t)
    out = []
    end = datetime.datetime(year, 12, 31, 23, 59, 59, tzinfo=UTC)
    step = datetime.timedelta(hours=12)
    while t < end:
        u = min(t + step, end)
        new = _offset(z, u)
        if new != off:
            lo, hi = t, u
            while hi - lo > datetime.timedelta(seconds=1):
                mid = (lo + (hi - lo) / 2).replace(microsecond=0)
                if _offset(z, mid) == off:
                    lo = mid
                else:
                    hi = mid
            out.append((hi, new))
            off = new
        t = u
    return out


def changes(zone, years):
    return [c for y in years for c in _changes(zone, y)]


def fields(t):
    return [2, t.year, t.month, t.day, t.hour, t.minute, t.second]


def table(zone, years):
    """The changes around these years; those between are only all there if they're usual ones."""
    usual = [y for y in years if FIRST <= y < LAST]
    some = set(range(min(usual) - 1, max(usual) + 2)) if usual else set()
    some |= {min(max(y + d, 2), 9998) for y in years for d in (-1, 0, 1)}
    z = zoneinfo.ZoneInfo(zone)
    out = []
    for y in sorted(some):
        t = datetime.datetime(y, 1, 1, tzinfo=UTC)
        o = _offset(z, t)
        if not out or out[-1][1] != o:
            out.append([fields(t), o])
        for t, o in _changes(zone, y):
            if fields(t) != out[-1][0]:
                out.append([fields(t), o])
    return out


def offset(zone, d):
    """The offset in effect at an instant."""
    return _offset(zoneinfo.ZoneInfo(zone), datetime.datetime(*d[1:], tzinfo=UTC))


def years_of(x, out=None):
    """The years of all the dates in a value."""
    out = set() if out is None else out
    if isinstance(x, dict):
        for v in x.values():
            years_of(v, out)
    elif isinstance(x, (list, tuple)):
        if len(x) in (4, 7) and all(isinstance(v, int) for v in x) and x[0] in (0, 1, 2) and x[1] > 31:
            out.add(x[1])
        else:
            for v in x:
                years_of(v, out)
    return out


def tables(path, per_zone):
    """The changes of the zones about a year of each, as the models read them: name -> changes."""
    about = {"Pacific/Apia": 2011, "Pacific/Kiritimati": 1995, "Asia/Kathmandu": 1986, "America/Sao_Paulo": 2018}
    out = {}
    for z in ZONES[1:]:
        t = table(z, {about.get(z, 2024)})
        out[z] = t[:1 + per_zone]
    with open(path, "w") as f:
        f.write(json.dumps(out) + "\n")
    return path
