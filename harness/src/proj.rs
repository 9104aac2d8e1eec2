//! Projection of the public types of ikal to JSON, and back.
//!
//! The abstract values are those of `spec/Values.tla`: texts are sequences of code points, dates
//! are sequences of numbers, a field is always the sequence of its values.

use chrono::{Datelike as _, NaiveDate, NaiveDateTime, TimeDelta, Timelike as _};
use serde_json::{Value, json};
use std::collections::BTreeMap;

pub fn enc(s: &str) -> Value {
    Value::Array(s.chars().map(|c| Value::from(c as u32)).collect())
}

pub fn dec(v: &Value) -> String {
    v.as_array()
        .expect("text")
        .iter()
        .map(|x| char::from_u32(x.as_u64().expect("code point") as u32).expect("char"))
        .collect()
}

fn int(v: &Value) -> i64 {
    v.as_i64().expect("int")
}

pub trait P: Sized {
    fn p(&self) -> Value;
    fn b(v: &Value) -> Self;

    /// Changes a part of a component: a property, the extensions, the others or some components.
    fn set(&mut self, _part: &str, _name: &str, _v: &Value) {
        panic!("not a component");
    }

    /// A component without its components.
    fn bare(&self) -> Self {
        panic!("not a component");
    }

    /// The components of a component, by list, each one written and read alone.
    fn parts(&self) -> Value {
        json!([])
    }
}

fn part<T>(x: &T) -> Value
where
    T: P + ikal::ser::Serialize + std::str::FromStr,
{
    match ikal::ser::ical(x) {
        Ok(text) => match text.parse::<T>() {
            Ok(c) => json!({"st": "ok", "text": enc(&text), "c": c.p()}),
            Err(_) => json!({"st": "unread", "text": enc(&text)}),
        },
        Err(_) => json!({"st": "err"}),
    }
}

fn bentries<T: From<String>>(v: &Value, fill: fn(&mut T, String, BTreeMap<String, String>)) -> BTreeMap<String, T> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| {
            let mut line = T::from(dec(&x["v"]));
            fill(&mut line, dec(&x["k"]), bparams(&x["p"]));
            (dec(&x["n"]), line)
        })
        .collect()
}

pub fn plist<T: P>(v: &[T]) -> Value {
    Value::Array(v.iter().map(P::p).collect())
}

pub fn blist<T: P>(v: &Value) -> Vec<T> {
    v.as_array().expect("list").iter().map(P::b).collect()
}

pub fn popt<T: P>(v: &Option<T>) -> Value {
    Value::Array(v.iter().map(P::p).collect())
}

pub fn bopt<T: P>(v: &Value) -> Option<T> {
    v.as_array().expect("option").first().map(P::b)
}

pub fn pparams(p: &BTreeMap<String, String>) -> Value {
    Value::Array(p.iter().map(|(k, v)| json!([enc(k), enc(v)])).collect())
}

pub fn bparams(v: &Value) -> BTreeMap<String, String> {
    v.as_array()
        .expect("params")
        .iter()
        .map(|x| (dec(&x[0]), dec(&x[1])))
        .collect()
}

impl P for ikal::Text {
    fn p(&self) -> Value {
        json!({"p": pparams(&self.params), "t": enc(&self.text)})
    }
    fn b(v: &Value) -> Self {
        Self {
            params: bparams(&v["p"]),
            text: dec(&v["t"]),
        }
    }
}

impl P for ikal::Uri {
    fn p(&self) -> Value {
        json!({"p": pparams(&self.params), "t": enc(&self.uri)})
    }
    fn b(v: &Value) -> Self {
        Self {
            params: bparams(&v["p"]),
            uri: dec(&v["t"]),
        }
    }
}

pub fn pnd(d: &NaiveDate) -> Value {
    json!([0, d.year(), d.month(), d.day()])
}

pub fn pndt(kind: u8, d: &NaiveDateTime) -> Value {
    let mut v = vec![
        Value::from(kind),
        d.year().into(),
        d.month().into(),
        d.day().into(),
        d.hour().into(),
        d.minute().into(),
        d.second().into(),
    ];

    if d.nanosecond() != 0 {
        v.push(d.nanosecond().into());
    }

    Value::Array(v)
}

pub fn bnd(v: &Value) -> NaiveDate {
    NaiveDate::from_ymd_opt(int(&v[1]) as i32, int(&v[2]) as u32, int(&v[3]) as u32).expect("date")
}

pub fn bndt(v: &Value) -> NaiveDateTime {
    bnd(v)
        .and_hms_opt(int(&v[4]) as u32, int(&v[5]) as u32, int(&v[6]) as u32)
        .expect("time")
}

impl P for ikal::DateTime {
    fn p(&self) -> Value {
        match self {
            Self::Naive(d) => pndt(1, d),
            Self::Local(d) => pndt(2, &d.naive_utc()),
        }
    }
    fn b(v: &Value) -> Self {
        let d = bndt(v);

        match int(&v[0]) {
            1 => Self::Naive(d),
            2 => Self::Local(d.and_utc().with_timezone(&chrono::Local)),
            x => panic!("date-time kind {x}"),
        }
    }
}

impl P for ikal::Date {
    fn p(&self) -> Value {
        match self {
            Self::Date(d) => pnd(d),
            Self::DateTime(d) => d.p(),
        }
    }
    fn b(v: &Value) -> Self {
        match int(&v[0]) {
            0 => Self::Date(bnd(v)),
            _ => Self::DateTime(P::b(v)),
        }
    }
}

impl P for TimeDelta {
    fn p(&self) -> Value {
        let secs = self.num_seconds();
        let nanos = self.subsec_nanos();
        let neg = secs < 0 || nanos < 0;
        let abs = secs.unsigned_abs();
        let days = std::cmp::min(abs / 86400, 2_000_000_000);

        let mut v = vec![
            Value::from(u8::from(neg)),
            days.into(),
            (abs % 86400).into(),
        ];

        if nanos != 0 {
            v.push(nanos.into());
        }

        Value::Array(v)
    }
    fn b(v: &Value) -> Self {
        let d = Self::days(int(&v[1])) + Self::seconds(int(&v[2]));

        if int(&v[0]) == 1 { -d } else { d }
    }
}

impl P for chrono::FixedOffset {
    fn p(&self) -> Value {
        self.local_minus_utc().into()
    }
    fn b(v: &Value) -> Self {
        Self::east_opt(int(v) as i32).expect("offset")
    }
}

macro_rules! number {
    ($($ty:ty),*) => { $(
        impl P for $ty {
            fn p(&self) -> Value {
                enc(&self.to_string())
            }
            fn b(v: &Value) -> Self {
                dec(v).parse().expect("number")
            }
        }
    )* };
}

number!(u8, u32);

impl P for i8 {
    fn p(&self) -> Value {
        (*self).into()
    }
    fn b(v: &Value) -> Self {
        int(v) as i8
    }
}

impl P for String {
    fn p(&self) -> Value {
        enc(self)
    }
    fn b(v: &Value) -> Self {
        dec(v)
    }
}

macro_rules! names {
    ($ty:ty, $( $name:literal => $variant:path ),* $(,)?) => {
        impl P for $ty {
            fn p(&self) -> Value {
                $( if *self == $variant { return $name.into(); } )*
                "?".into()
            }
            fn b(v: &Value) -> Self {
                match v.as_str().expect("name") {
                    $( $name => $variant, )*
                    x => panic!("name {x}"),
                }
            }
        }
    };
}

names!(
    ikal::Status,
    "TENTATIVE" => ikal::Status::Tentative,
    "CONFIRMED" => ikal::Status::Confirmed,
    "CANCELLED" => ikal::Status::Cancelled,
    "NEEDS-ACTION" => ikal::Status::NeedsAction,
    "COMPLETED" => ikal::Status::Completed,
    "IN-PROCESS" => ikal::Status::InProcess,
    "DRAFT" => ikal::Status::Draft,
    "FINAL" => ikal::Status::Final,
);

names!(
    ikal::TimeTransparency,
    "OPAQUE" => ikal::TimeTransparency::Opaque,
    "TRANSPARENT" => ikal::TimeTransparency::Transparent,
);

names!(
    ikal::Freq,
    "SECONDLY" => ikal::Freq::Secondly,
    "MINUTELY" => ikal::Freq::Minutely,
    "HOURLY" => ikal::Freq::Hourly,
    "DAILY" => ikal::Freq::Daily,
    "WEEKLY" => ikal::Freq::Weekly,
    "MONTHLY" => ikal::Freq::Monthly,
    "YEARLY" => ikal::Freq::Yearly,
);

names!(
    ikal::Weekday,
    "SU" => ikal::Weekday::Sunday,
    "MO" => ikal::Weekday::Monday,
    "TU" => ikal::Weekday::Tuesday,
    "WE" => ikal::Weekday::Wenesday,
    "TH" => ikal::Weekday::Thurday,
    "FR" => ikal::Weekday::Friday,
    "SA" => ikal::Weekday::Saturday,
);

impl P for ikal::Class {
    fn p(&self) -> Value {
        match self {
            Self::Public => json!(["PUBLIC", []]),
            Self::Private => json!(["PRIVATE", []]),
            Self::Confidential => json!(["CONFIDENTIAL", []]),
            Self::Custom(s) => json!(["CUSTOM", enc(s)]),
        }
    }
    fn b(v: &Value) -> Self {
        match v[0].as_str().expect("class") {
            "PUBLIC" => Self::Public,
            "PRIVATE" => Self::Private,
            "CONFIDENTIAL" => Self::Confidential,
            _ => Self::Custom(dec(&v[1])),
        }
    }
}

impl P for ikal::WeekdayNum {
    fn p(&self) -> Value {
        json!([popt(&self.ord), self.weekday.p()])
    }
    fn b(v: &Value) -> Self {
        Self {
            ord: bopt(&v[0]),
            weekday: P::b(&v[1]),
        }
    }
}

impl P for ikal::Recur {
    fn p(&self) -> Value {
        json!({
            "freq": self.freq.p(),
            "until": popt(&self.until),
            "count": self.count.iter().collect::<Vec<_>>(),
            "interval": self.interval,
            "by": [
                plist(&self.by_second),
                plist(&self.by_minute),
                plist(&self.by_hour),
                plist(&self.by_monthday),
                plist(&self.by_yearday),
                plist(&self.by_weekno),
                plist(&self.by_month),
                plist(&self.by_setpos),
            ],
            "byday": plist(&self.by_day),
            "wkst": popt(&self.wkst),
        })
    }
    fn b(v: &Value) -> Self {
        let by = &v["by"];

        Self {
            freq: P::b(&v["freq"]),
            until: bopt(&v["until"]),
            count: v["count"].as_array().unwrap().first().map(|x| int(x) as u8),
            interval: int(&v["interval"]) as u8,
            by_second: blist(&by[0]),
            by_minute: blist(&by[1]),
            by_hour: blist(&by[2]),
            by_monthday: blist(&by[3]),
            by_yearday: blist(&by[4]),
            by_weekno: blist(&by[5]),
            by_month: blist(&by[6]),
            by_setpos: blist(&by[7]),
            by_day: blist(&v["byday"]),
            wkst: bopt(&v["wkst"]),
        }
    }
}

impl P for ikal::Geo {
    fn p(&self) -> Value {
        json!([enc(&self.lat.to_string()), enc(&self.lon.to_string())])
    }
    fn b(v: &Value) -> Self {
        Self {
            lat: dec(&v[0]).parse().expect("lat"),
            lon: dec(&v[1]).parse().expect("lon"),
        }
    }
}

impl P for ikal::RequestStatus {
    fn p(&self) -> Value {
        json!({
            "code": enc(&self.statcode.to_string()),
            "desc": enc(&self.statdesc),
            "ext": popt(&self.extdata),
        })
    }
    fn b(v: &Value) -> Self {
        Self {
            statcode: dec(&v["code"]).parse().expect("code"),
            statdesc: dec(&v["desc"]),
            extdata: bopt(&v["ext"]),
        }
    }
}

impl P for ikal::period::StartEnd {
    fn p(&self) -> Value {
        json!(["se", self.start.p(), self.end.p()])
    }
    fn b(v: &Value) -> Self {
        Self {
            start: P::b(&v[1]),
            end: P::b(&v[2]),
        }
    }
}

impl P for ikal::period::StartDur {
    fn p(&self) -> Value {
        json!(["sd", self.start.p(), self.duration.p()])
    }
    fn b(v: &Value) -> Self {
        Self {
            start: P::b(&v[1]),
            duration: P::b(&v[2]),
        }
    }
}

impl P for ikal::Period {
    fn p(&self) -> Value {
        match self {
            Self::StartEnd(x) => x.p(),
            Self::StartDur(x) => x.p(),
        }
    }
    fn b(v: &Value) -> Self {
        match v[0].as_str().expect("period") {
            "se" => Self::StartEnd(P::b(v)),
            _ => Self::StartDur(P::b(v)),
        }
    }
}

impl P for ikal::RDate {
    fn p(&self) -> Value {
        match self {
            Self::Date(x) => json!(["date", plist(x)]),
            Self::Period(x) => json!(["period", plist(x)]),
        }
    }
    fn b(v: &Value) -> Self {
        match v[0].as_str().expect("rdate") {
            "date" => Self::Date(blist(&v[1])),
            _ => Self::Period(blist(&v[1])),
        }
    }
}

impl P for ikal::Trigger {
    fn p(&self) -> Value {
        match self {
            Self::DateTime(x) => json!(["dt", x.p()]),
            Self::Duration(x) => json!(["dur", x.p()]),
        }
    }
    fn b(v: &Value) -> Self {
        match v[0].as_str().expect("trigger") {
            "dt" => Self::DateTime(P::b(&v[1])),
            _ => Self::Duration(P::b(&v[1])),
        }
    }
}

macro_rules! pfield {
    (req, $v:expr) => { json!([$v.p()]) };
    (opt, $v:expr) => { popt(&$v) };
    (list, $v:expr) => { plist(&$v) };
}

macro_rules! bfield {
    (req, $v:expr) => { P::b(&$v[0]) };
    (opt, $v:expr) => { bopt(&$v) };
    (list, $v:expr) => { blist(&$v) };
}

macro_rules! component {
    ($ty:ty, $tag:literal, { $( $mode:ident $field:ident $name:literal, )* }, { $( $sub:ident $kind:literal, )* }) => {
        impl P for $ty {
            fn p(&self) -> Value {
                let mut f = serde_json::Map::new();
                $( f.insert($name.to_string(), pfield!($mode, self.$field)); )*

                json!({
                    "k": $tag,
                    "f": f,
                    "x": self.x_prop.iter().map(|(n, v)| json!({
                        "n": enc(n), "k": enc(&v.key), "p": pparams(&v.params), "v": enc(&v.value)
                    })).collect::<Vec<_>>(),
                    "i": self.iana_prop.iter().map(|(n, v)| json!({
                        "n": enc(n), "k": enc(&v.key), "p": pparams(&v.params), "v": enc(&v.value)
                    })).collect::<Vec<_>>(),
                    "s": [ $( [$kind, plist(&self.$sub)], )* ],
                })
            }
            fn b(v: &Value) -> Self {
                let f = &v["f"];
                let mut c = Self::default();
                $( c.$field = bfield!($mode, f[$name]); )*

                c.x_prop = bentries(&v["x"], |l, k, p| { l.key = k; l.params = p; });
                c.iana_prop = bentries(&v["i"], |l, k, p| { l.key = k; l.params = p; });

                #[allow(unused_mut, unused_variables)]
                let mut subs = v["s"].as_array().unwrap().iter();
                $( c.$sub = blist(&subs.next().unwrap()[1]); )*

                c
            }
            fn set(&mut self, part: &str, name: &str, v: &Value) {
                match (part, name) {
                    $( ("f", $name) => self.$field = bfield!($mode, v), )*
                    $( ("s", $kind) => self.$sub = blist(v), )*
                    ("x", _) => self.x_prop = bentries(v, |l, k, p| { l.key = k; l.params = p; }),
                    ("i", _) => self.iana_prop = bentries(v, |l, k, p| { l.key = k; l.params = p; }),
                    x => panic!("unknown part {x:?}"),
                }
            }
            #[allow(unused_mut)]
            fn bare(&self) -> Self {
                let mut c = self.clone();
                $( c.$sub = Vec::new(); )*
                c
            }
            fn parts(&self) -> Value {
                json!([ $( [$kind, self.$sub.iter().map(part).collect::<Vec<_>>()], )* ])
            }
        }
    };
}

component!(ikal::VCalendar, "VCALENDAR", {
    req prodid "PRODID",
    req version "VERSION",
    opt calscale "CALSCALE",
    opt method "METHOD",
}, {
    alarms "VALARM",
    events "VEVENT",
    freebusy "VFREEBUSY",
    journals "VJOURNAL",
    timezones "VTIMEZONE",
    todo "VTODO",
});

component!(ikal::VEvent, "VEVENT", {
    req dtstamp "DTSTAMP",
    req uid "UID",
    req dtstart "DTSTART",
    opt class "CLASS",
    opt created "CREATED",
    opt description "DESCRIPTION",
    opt geo "GEO",
    opt last_modified "LAST-MODIFIED",
    opt location "LOCATION",
    opt organizer "ORGANIZER",
    opt priority "PRIORITY",
    opt sequence "SEQUENCE",
    opt status "STATUS",
    opt summary "SUMMARY",
    opt transp "TRANSP",
    opt url "URL",
    opt recurid "RECURRENCE-ID",
    opt rrule "RRULE",
    opt dtend "DTEND",
    opt duration "DURATION",
    list attach "ATTACH",
    list attendee "ATTENDEE",
    list categories "CATEGORIES",
    list comment "COMMENT",
    list contact "CONTACT",
    list exdate "EXDATE",
    list rstatus "REQUEST-STATUS",
    list related_to "RELATED-TO",
    list resources "RESOURCES",
    list rdate "RDATE",
}, {
    alarms "VALARM",
});

component!(ikal::VTodo, "VTODO", {
    req dtstamp "DTSTAMP",
    req uid "UID",
    opt class "CLASS",
    opt completed "COMPLETED",
    opt created "CREATED",
    opt dtstart "DTSTART",
    opt geo "GEO",
    opt last_modified "LAST-MODIFIED",
    opt location "LOCATION",
    opt organizer "ORGANIZER",
    opt percent_complete "PERCENT-COMPLETE",
    opt priority "PRIORITY",
    opt recurid "RECURRENCE-ID",
    opt sequence "SEQUENCE",
    opt status "STATUS",
    opt summary "SUMMARY",
    opt url "URL",
    opt rrule "RRULE",
    opt due "DUE",
    opt duration "DURATION",
    list attach "ATTACH",
    list attendee "ATTENDEE",
    list categories "CATEGORIES",
    list comment "COMMENT",
    list contact "CONTACT",
    list exdate "EXDATE",
    list rstatus "REQUEST-STATUS",
    list related_to "RELATED-TO",
    list resources "RESOURCES",
    list rdate "RDATE",
}, {});

component!(ikal::VJournal, "VJOURNAL", {
    req dtstamp "DTSTAMP",
    req uid "UID",
    opt class "CLASS",
    opt created "CREATED",
    req dtstart "DTSTART",
    opt last_modified "LAST-MODIFIED",
    opt organizer "ORGANIZER",
    opt recurid "RECURRENCE-ID",
    opt sequence "SEQUENCE",
    opt status "STATUS",
    opt summary "SUMMARY",
    opt url "URL",
    opt rrule "RRULE",
    list attach "ATTACH",
    list attendee "ATTENDEE",
    list categories "CATEGORIES",
    list comment "COMMENT",
    list contact "CONTACT",
    list description "DESCRIPTION",
    list exdate "EXDATE",
    list related_to "RELATED-TO",
    list rdate "RDATE",
    list rstatus "REQUEST-STATUS",
}, {});

component!(ikal::VFreebusy, "VFREEBUSY", {
    req dtstamp "DTSTAMP",
    req uid "UID",
    opt contact "CONTACT",
    opt dtstart "DTSTART",
    opt dtend "DTEND",
    opt organizer "ORGANIZER",
    opt url "URL",
    list attendee "ATTENDEE",
    list comment "COMMENT",
    list freebusy "FREEBUSY",
    list rstatus "REQUEST-STATUS",
}, {});

component!(ikal::VTimezone, "VTIMEZONE", {
    req tzid "TZID",
    opt last_modified "LAST-MODIFIED",
    opt tzurl "TZURL",
}, {
    standard "STANDARD",
    daylight "DAYLIGHT",
});

macro_rules! observance {
    ($ty:ty, $tag:literal) => {
        component!($ty, $tag, {
            req dtstart "DTSTART",
            req tzoffsetto "TZOFFSETTO",
            req tzoffsetfrom "TZOFFSETFROM",
            opt rrule "RRULE",
            list comment "COMMENT",
            list rdate "RDATE",
            list tzname "TZNAME",
        }, {});
    };
}

observance!(ikal::vtimezone::Standard, "STANDARD");
observance!(ikal::vtimezone::Daylight, "DAYLIGHT");

component!(ikal::valarm::Audio, "AUDIO", {
    req action "ACTION",
    req trigger "TRIGGER",
    opt duration "DURATION",
    opt repeat "REPEAT",
    list attach "ATTACH",
}, {});

component!(ikal::valarm::Display, "DISPLAY", {
    req action "ACTION",
    req trigger "TRIGGER",
    req description "DESCRIPTION",
    opt duration "DURATION",
    opt repeat "REPEAT",
}, {});

component!(ikal::valarm::Email, "EMAIL", {
    req action "ACTION",
    req trigger "TRIGGER",
    req description "DESCRIPTION",
    req summary "SUMMARY",
    list attendee "ATTENDEE",
    opt duration "DURATION",
    opt repeat "REPEAT",
    list attach "ATTACH",
}, {});

impl P for ikal::VAlarm {
    fn p(&self) -> Value {
        match self {
            Self::Audio(x) => x.p(),
            Self::Display(x) => x.p(),
            Self::Email(x) => x.p(),
        }
    }
    fn b(v: &Value) -> Self {
        match v["k"].as_str().expect("kind") {
            "AUDIO" => Self::Audio(P::b(v)),
            "DISPLAY" => Self::Display(P::b(v)),
            "EMAIL" => Self::Email(P::b(v)),
            x => panic!("alarm {x}"),
        }
    }
    fn set(&mut self, part: &str, name: &str, v: &Value) {
        match self {
            Self::Audio(x) => x.set(part, name, v),
            Self::Display(x) => x.set(part, name, v),
            Self::Email(x) => x.set(part, name, v),
        }
    }
    fn bare(&self) -> Self {
        self.clone()
    }
}
