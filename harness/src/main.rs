//! Runs cases on ikal and records what happens as traces.
//!
//! Usage: harness CASES.ndjson TRACES.ndjson
//!
//! A case is a list of operations, a trace the list of the events they produced. A panic is an
//! outcome like another. A case which doesn't end is recorded as such and ends the process (status
//! 3): the caller starts another one with the remaining cases.

mod proj;

use proj::{P, dec, enc, pnd, pndt};
use serde_json::{Map, Value, json};
use std::io::{BufRead as _, Write as _};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};

const TIMEOUT: std::time::Duration = std::time::Duration::from_secs(20);

#[derive(Clone)]
enum Comp {
    Calendar(ikal::VCalendar),
    Event(ikal::VEvent),
    Todo(ikal::VTodo),
    Journal(ikal::VJournal),
    Freebusy(ikal::VFreebusy),
    Timezone(ikal::VTimezone),
    Standard(ikal::vtimezone::Standard),
    Daylight(ikal::vtimezone::Daylight),
    Alarm(ikal::VAlarm),
    Audio(ikal::valarm::Audio),
    Display(ikal::valarm::Display),
    Email(ikal::valarm::Email),
}

macro_rules! each {
    ($c:expr, $x:ident => $e:expr) => {
        match $c {
            Comp::Calendar($x) => $e,
            Comp::Event($x) => $e,
            Comp::Todo($x) => $e,
            Comp::Journal($x) => $e,
            Comp::Freebusy($x) => $e,
            Comp::Timezone($x) => $e,
            Comp::Standard($x) => $e,
            Comp::Daylight($x) => $e,
            Comp::Alarm($x) => $e,
            Comp::Audio($x) => $e,
            Comp::Display($x) => $e,
            Comp::Email($x) => $e,
        }
    };
}

macro_rules! by_name {
    ($name:expr, $f:ident) => {
        match $name {
            "VCALENDAR" => $f!(Calendar, ikal::VCalendar),
            "VEVENT" => $f!(Event, ikal::VEvent),
            "VTODO" => $f!(Todo, ikal::VTodo),
            "VJOURNAL" => $f!(Journal, ikal::VJournal),
            "VFREEBUSY" => $f!(Freebusy, ikal::VFreebusy),
            "VTIMEZONE" => $f!(Timezone, ikal::VTimezone),
            "STANDARD" => $f!(Standard, ikal::vtimezone::Standard),
            "DAYLIGHT" => $f!(Daylight, ikal::vtimezone::Daylight),
            "VALARM" => $f!(Alarm, ikal::VAlarm),
            "AUDIO" => $f!(Audio, ikal::valarm::Audio),
            "DISPLAY" => $f!(Display, ikal::valarm::Display),
            "EMAIL" => $f!(Email, ikal::valarm::Email),
            x => panic!("unknown component {x}"),
        }
    };
}

fn parse(ty: &str, via: &str, text: &str) -> Result<Comp, ikal::Error> {
    macro_rules! f {
        ($variant:ident, $ty:ty) => {
            match via {
                "try_str" => <$ty>::try_from(text).map(Comp::$variant),
                "try_string" => <$ty>::try_from(text.to_string()).map(Comp::$variant),
                _ => text.parse::<$ty>().map(Comp::$variant),
            }
        };
    }

    by_name!(ty, f)
}

fn same(a: &Comp, b: &Comp) -> bool {
    match (a, b) {
        (Comp::Calendar(a), Comp::Calendar(b)) => a == b,
        (Comp::Event(a), Comp::Event(b)) => a == b,
        (Comp::Todo(a), Comp::Todo(b)) => a == b,
        (Comp::Journal(a), Comp::Journal(b)) => a == b,
        (Comp::Freebusy(a), Comp::Freebusy(b)) => a == b,
        (Comp::Timezone(a), Comp::Timezone(b)) => a == b,
        (Comp::Standard(a), Comp::Standard(b)) => a == b,
        (Comp::Daylight(a), Comp::Daylight(b)) => a == b,
        (Comp::Alarm(a), Comp::Alarm(b)) => a == b,
        (Comp::Audio(a), Comp::Audio(b)) => a == b,
        (Comp::Display(a), Comp::Display(b)) => a == b,
        (Comp::Email(a), Comp::Email(b)) => a == b,
        _ => false,
    }
}

/// Not the opposite of `same`: `!=` isn't `==`.
fn unlike(a: &Comp, b: &Comp) -> bool {
    match (a, b) {
        (Comp::Calendar(a), Comp::Calendar(b)) => a != b,
        (Comp::Event(a), Comp::Event(b)) => a != b,
        (Comp::Todo(a), Comp::Todo(b)) => a != b,
        (Comp::Journal(a), Comp::Journal(b)) => a != b,
        (Comp::Freebusy(a), Comp::Freebusy(b)) => a != b,
        (Comp::Timezone(a), Comp::Timezone(b)) => a != b,
        (Comp::Standard(a), Comp::Standard(b)) => a != b,
        (Comp::Daylight(a), Comp::Daylight(b)) => a != b,
        (Comp::Alarm(a), Comp::Alarm(b)) => a != b,
        (Comp::Audio(a), Comp::Audio(b)) => a != b,
        (Comp::Display(a), Comp::Display(b)) => a != b,
        (Comp::Email(a), Comp::Email(b)) => a != b,
        _ => true,
    }
}

fn kind(c: &Comp) -> &'static str {
    match c {
        Comp::Calendar(_) => "VCALENDAR",
        Comp::Event(_) => "VEVENT",
        Comp::Todo(_) => "VTODO",
        Comp::Journal(_) => "VJOURNAL",
        Comp::Freebusy(_) => "VFREEBUSY",
        Comp::Timezone(_) => "VTIMEZONE",
        Comp::Standard(_) => "STANDARD",
        Comp::Daylight(_) => "DAYLIGHT",
        Comp::Alarm(_) => "VALARM",
        Comp::Audio(_) => "AUDIO",
        Comp::Display(_) => "DISPLAY",
        Comp::Email(_) => "EMAIL",
    }
}

/// The value types, as `ty => type, how it is read`.
macro_rules! value_types {
    ($name:expr, $f:ident) => {
        match $name {
            "Date" => $f!(ikal::Date),
            "DateTime" => $f!(ikal::DateTime),
            "Period" => $f!(ikal::Period),
            "Recur" => $f!(ikal::Recur),
            "Freq" => $f!(ikal::Freq),
            "Weekday" => $f!(ikal::Weekday),
            "WeekdayNum" => $f!(ikal::WeekdayNum),
            "Trigger" => $f!(ikal::Trigger),
            "Geo" => $f!(ikal::Geo),
            "RequestStatus" => $f!(ikal::RequestStatus),
            "Class" => $f!(ikal::Class),
            "Status" => $f!(ikal::Status),
            "TimeTransparency" => $f!(ikal::TimeTransparency),
            x => panic!("unknown value type {x}"),
        }
    };
}

fn out_val(ty: &str, text: &str, eq_to: Option<&Value>, via: &str) -> Value {
    macro_rules! f {
        ($ty:ty) => {
            match text.parse::<$ty>() {
                Ok(v) => {
                    let eq = eq_to.is_none_or(|x| <$ty as P>::b(x) == v);
                    json!({"st": "ok", "v": v.p(), "eq": eq})
                }
                Err(_) => json!({"st": "err"}),
            }
        };
    }

    // Some types can also be converted from a string.
    macro_rules! g {
        ($ty:ty) => {
            match if via == "try_str" { <$ty>::try_from(text) } else { <$ty>::try_from(text.to_string()) } {
                Ok(v) => json!({"st": "ok", "v": v.p(), "eq": true}),
                Err(_) => json!({"st": "err"}),
            }
        };
    }

    if ty == "Duration" {
        return match ikal::parse_duration(text) {
            Ok(v) => {
                let eq = eq_to.is_none_or(|x| <chrono::TimeDelta as P>::b(x) == v);
                json!({"st": "ok", "v": v.p(), "eq": eq})
            }
            Err(_) => json!({"st": "err"}),
        };
    }

    if via.starts_with("try") {
        return match ty {
            "Period" => g!(ikal::Period),
            "Recur" => g!(ikal::Recur),
            "Freq" => g!(ikal::Freq),
            "Weekday" => g!(ikal::Weekday),
            "WeekdayNum" => g!(ikal::WeekdayNum),
            "Geo" => g!(ikal::Geo),
            "RequestStatus" => g!(ikal::RequestStatus),
            "Class" => g!(ikal::Class),
            "Status" => g!(ikal::Status),
            "TimeTransparency" => g!(ikal::TimeTransparency),
            _ => value_types!(ty, f),
        };
    }

    let mut out = value_types!(ty, f);

    if let "Date" | "DateTime" = ty {
        if let Ok(dt) = text.parse::<ikal::DateTime>() {
            out["wall"] = pndt(1, &dt.naive());
        }
    }

    out
}

fn out_write(ty: &str, v: &Value) -> Value {
    use ikal::ser::Serialize as _;

    macro_rules! parts {
        ($v:expr, $disp:expr) => {{
            match ($v.ical(), ikal::ser::ical(&$v)) {
                (Ok(text), Ok(full)) => json!({
                    "st": "ok",
                    "text": enc(&text),
                    "attr": $v.attr().iter().map(|x| enc(x)).collect::<Vec<_>>(),
                    "full": enc(&full),
                    "disp": Option::<String>::iter(&$disp).map(|x| enc(x)).collect::<Vec<_>>(),
                }),
                _ => json!({"st": "err"}),
            }
        }};
    }

    macro_rules! f {
        ($ty:ty) => {{
            let v = <$ty as P>::b(v);
            parts!(v, None)
        }};
    }

    macro_rules! d {
        ($ty:ty) => {{
            let v = <$ty as P>::b(v);
            parts!(v, Some(v.to_string()))
        }};
    }

    match ty {
        "Duration" => d!(chrono::TimeDelta),
        "Offset" => f!(chrono::FixedOffset),
        "Text" => d!(ikal::Text),
        "Uri" => d!(ikal::Uri),
        "String" => f!(String),
        "RDate" => d!(ikal::RDate),
        "StartEnd" => d!(ikal::period::StartEnd),
        "StartDur" => d!(ikal::period::StartDur),
        "Date" => d!(ikal::Date),
        "DateTime" => d!(ikal::DateTime),
        "Period" => d!(ikal::Period),
        "Recur" => f!(ikal::Recur),
        "Freq" => d!(ikal::Freq),
        "Weekday" => d!(ikal::Weekday),
        "WeekdayNum" => d!(ikal::WeekdayNum),
        "Trigger" => f!(ikal::Trigger),
        "Geo" => d!(ikal::Geo),
        "RequestStatus" => f!(ikal::RequestStatus),
        "Class" => d!(ikal::Class),
        "Status" => d!(ikal::Status),
        "TimeTransparency" => d!(ikal::TimeTransparency),
        x => panic!("unknown value type {x}"),
    }
}

/// Every type of values.
macro_rules! any_types {
    ($name:expr, $f:ident) => {
        match $name {
            "Duration" => $f!(chrono::TimeDelta),
            "Offset" => $f!(chrono::FixedOffset),
            "Text" => $f!(ikal::Text),
            "Uri" => $f!(ikal::Uri),
            "String" => $f!(String),
            "RDate" => $f!(ikal::RDate),
            "StartEnd" => $f!(ikal::period::StartEnd),
            "StartDur" => $f!(ikal::period::StartDur),
            "U8" => $f!(u8),
            "U32" => $f!(u32),
            _ => value_types!($name, $f),
        }
    };
}

/// Whether two values are equal, and copies of the first one.
fn out_alike(ty: &str, a: &Value, b: &Value) -> Value {
    macro_rules! f {
        ($ty:ty) => {{
            let (a, b): ($ty, $ty) = (P::b(a), P::b(b));
            let copy = a.clone();
            let mut other = b.clone();
            other.clone_from(&a);

            json!({
                "st": "ok",
                "eq": a == b,
                "qe": b == a,
                "ne": a != b,
                "self": copy == a && other == a && a == copy,
                "copy": copy.p(),
                "other": other.p(),
            })
        }};
    }

    any_types!(ty, f)
}

/// How several values, one or none are written.
fn out_wrap(ty: &str, vs: &Value) -> Value {
    use ikal::ser::Serialize;

    fn text<T: Serialize>(x: &T) -> Value {
        x.ical().iter().map(|x| enc(x)).collect()
    }

    fn attr<T: Serialize>(x: &T) -> Value {
        x.attr().iter().map(|x| enc(x)).collect()
    }

    macro_rules! f {
        ($ty:ty) => {{
            let vs: Vec<$ty> = proj::blist(vs);
            let some = vs.first().cloned();

            json!({
                "st": "ok",
                "each": vs.iter().map(text).collect::<Vec<_>>(),
                "list": text(&vs),
                "some": text(&some),
                "attr": attr(&some),
                "own": vs.first().map_or(json!([]), attr),
                "none": text(&None::<$ty>),
                "noattr": attr(&None::<$ty>),
            })
        }};
    }

    any_types!(ty, f)
}

/// A text, an address or an extension made from a string, and what it's seen as.
fn out_from(ty: &str, how: &str, t: &str, op: &Value) -> Value {
    let line = || {
        let c: ikal::VEvent = P::b(&op["c"]);
        c.x_prop.into_values().next().unwrap()
    };
    macro_rules! seen {
        ($v:expr, $more:expr) => {{
            let v = $v;
            let mut looks = vec![enc(&v), enc(&v.to_string()), enc(&format!("{v}"))];
            looks.extend::<Vec<Value>>($more(&v));

            json!({"st": "ok", "v": v.p(), "looks": looks})
        }};
    }

    match (ty, how) {
        ("Text", how) => {
            let v = match how {
                "from" => ikal::Text::from(t),
                "into" => Into::<ikal::Text>::into(t),
                "string" => t.to_string().into(),
                "line" => line().into(),
                x => panic!("unknown conversion {x}"),
            };

            seen!(v, |v: &ikal::Text| vec![enc(v.as_ref()), enc(&v.text)])
        }
        ("Uri", how) => {
            let v = match how {
                "from" => ikal::Uri::from(t),
                "into" => Into::<ikal::Uri>::into(t),
                "string" => t.to_string().into(),
                "line" => line().into(),
                x => panic!("unknown conversion {x}"),
            };

            seen!(v, |v: &ikal::Uri| vec![enc(&v.uri)])
        }
        ("Line", how) => {
            let mut c = ikal::VEvent::default();
            let line = match how {
                "into" => t.into(),
                "string" => t.to_string().into(),
                x => panic!("unknown conversion {x}"),
            };
            c.x_prop.insert("X".to_string(), line);
            let x = &c.x_prop["X"];

            json!({
                "st": "ok",
                "v": {"p": proj::pparams(&x.params), "t": enc(&x.value)},
                "looks": [enc(&x.to_string()), enc(&format!("{x}"))],
            })
        }
        x => panic!("unknown conversion {x:?}"),
    }
}

fn out_cmp(ty: &str, a: &Value, b: &Value) -> Value {
    fn sign(o: std::cmp::Ordering) -> i32 {
        o as i32
    }

    macro_rules! f {
        ($ty:ty) => {{
            let (a, b): ($ty, $ty) = (P::b(a), P::b(b));
            json!({
                "st": "ok",
                "cmp": sign(a.cmp(&b)),
                "rev": sign(b.cmp(&a)),
                "pcmp": a.partial_cmp(&b).map(sign).iter().collect::<Vec<_>>(),
                "eq": a == b,
                "lt": a < b,
                "le": a <= b,
                "gt": a > b,
                "ge": a >= b,
            })
        }};
    }

    match ty {
        "Date" => f!(ikal::Date),
        "DateTime" => f!(ikal::DateTime),
        "Period" => f!(ikal::Period),
        "StartEnd" => f!(ikal::period::StartEnd),
        "StartDur" => f!(ikal::period::StartDur),
        "Weekday" => f!(ikal::Weekday),
        "Freq" => f!(ikal::Freq),
        x => panic!("unknown ordered type {x}"),
    }
}

fn out_conv(a: &Value) -> Value {
    let date: ikal::Date = P::b(a);
    let dt: ikal::DateTime = date.into();
    let back: ikal::Date = dt.into();
    let nd: chrono::NaiveDate = date.into();
    let ndt: chrono::NaiveDateTime = dt.into();
    let from_nd: ikal::Date = nd.into();
    let from_ndt: ikal::Date = ndt.into();
    let dt_from_ndt: ikal::DateTime = ndt.into();
    let local = chrono::DateTime::<chrono::Local>::try_from(dt);

    json!({
        "st": "ok",
        "has_time": date.has_time(),
        "dt": dt.p(),
        "back": back.p(),
        "day": pnd(&date.date_naive()),
        "dtday": pnd(&dt.date_naive()),
        "nd": pnd(&nd),
        "ndt": pndt(1, &ndt),
        "naive": pndt(1, &dt.naive()),
        "from_nd": from_nd.p(),
        "from_ndt": from_ndt.p(),
        "dt_from_ndt": dt_from_ndt.p(),
        "local": local.iter().map(|x| pndt(2, &x.naive_utc())).collect::<Vec<_>>(),
        "from_local": local.iter().map(|x| ikal::Date::from(*x).p()).collect::<Vec<_>>(),
        "dt_from_local": local.iter().map(|x| ikal::DateTime::from(*x).p()).collect::<Vec<_>>(),
        "fmt": enc(&date.format("%Y-%m-%d").to_string()),
        "dtfmt": enc(&dt.format("%Y-%m-%d %H:%M:%S").to_string()),
    })
}

fn out_period(a: &Value) -> Value {
    let p: ikal::Period = P::b(a);

    json!({"st": "ok", "dur": p.duration().p()})
}

fn out_arith(op: &str, ty: &str, a: &Value, b: &Value) -> Value {
    let v = match (op, ty) {
        ("plus", "Date") => (<ikal::Date as P>::b(a) + <chrono::TimeDelta as P>::b(b)).p(),
        ("plus", "DateTime") => (<ikal::DateTime as P>::b(a) + <chrono::TimeDelta as P>::b(b)).p(),
        ("minus", "DateTime") => {
            pndt(1, &(<ikal::DateTime as P>::b(a) - <chrono::TimeDelta as P>::b(b)))
        }
        ("diff", "DateTime") => (<ikal::DateTime as P>::b(a) - <ikal::DateTime as P>::b(b)).p(),
        x => panic!("unknown operation {x:?}"),
    };

    json!({"st": "ok", "v": v})
}

fn out_radd(how: &str, rule: &Value, a: &Value) -> Value {
    let rule: ikal::Recur = P::b(rule);

    let v = match how {
        "Date" => (rule + <ikal::Date as P>::b(a)).p(),
        "DateTime" => (rule + <ikal::DateTime as P>::b(a)).p(),
        "NaiveDate" => pnd(&(rule + proj::bnd(a))),
        "NaiveDateTime" => pndt(1, &(rule + proj::bndt(a))),
        "Local" => {
            let local = proj::bndt(a).and_utc().with_timezone(&chrono::Local);
            pndt(2, &(rule + local).naive_utc())
        }
        x => panic!("unknown type {x}"),
    };

    json!({"st": "ok", "v": v})
}

fn occurrence(c: &Comp, full: bool) -> Value {
    let mut out = Map::new();
    out.insert("st".into(), "some".into());

    let (start, end, rrule) = match c {
        Comp::Event(x) => (Some(x.dtstart), x.dtend, x.rrule.as_ref()),
        Comp::Todo(x) => (x.dtstart, x.due, x.rrule.as_ref()),
        Comp::Journal(x) => (Some(x.dtstart), None, x.rrule.as_ref()),
        _ => (None, None, None),
    };

    out.insert("d".into(), proj::popt(&start));
    out.insert("end".into(), proj::popt(&end));
    out.insert("cnt".into(), rrule.and_then(|x| x.count).iter().copied().collect());

    if full {
        out.insert("c".into(), each!(c, x => x.p()));
    }

    Value::Object(out)
}

fn iterate(c: &Comp, op: &Value, ev: &mut Vec<Value>) -> bool {
    let n = op["n"].as_u64().unwrap();
    let from = op["from"].as_u64().unwrap_or(0) as usize;
    let full = op["full"].as_bool().unwrap_or(false);
    let w = &op["w"];
    let mode = w[0].as_str().unwrap();

    macro_rules! run {
        ($variant:ident, $x:expr) => {{
            let mut rec = $x.recurrent();
            let pre = op["pre"] == true;

            let first = guard(|| {
                if pre {
                    for _ in 0..from {
                        rec.next();
                    }
                }

                if pre || from == 0 {
                    Some($x.clone())
                } else {
                    $x.recurrent().nth(from)
                }
            });

            let mut open = json!({
                "e": "open", "w": w, "from": from, "full": full,
                "start": occurrence(&Comp::$variant($x.clone()), false),
            });

            for key in ["loose", "pre"] {
                if op[key] == true {
                    open[key] = true.into();
                }
            }

            let item = match first {
                Some(Some(item)) => item,
                Some(None) => {
                    open["out"] = json!({"st": "none"});
                    ev.push(open);
                    return true;
                }
                None => {
                    open["out"] = json!({"st": "panic"});
                    ev.push(open);
                    return false;
                }
            };

            open["out"] = json!({"st": "ok"});
            ev.push(open);

            if !pre {
                rec = item.recurrent();
            }

            // What it gives, with the bound's own type when it is a date, for variety.
            macro_rules! window {
                ($rec:expr, $iter:ident, $then:expr) => {{
                    let rec = $rec;

                    match mode {
                        "all" => {
                            let $iter = rec;
                            $then
                        }
                        "between" if w[1][0] == 0 && w[2][0] == 0 => {
                            let $iter = rec.between(proj::bnd(&w[1]), proj::bnd(&w[2]));
                            $then
                        }
                        "between" if w[1][0] == 1 && w[2][0] == 1 => {
                            let $iter = rec.between(proj::bndt(&w[1]), proj::bndt(&w[2]));
                            $then
                        }
                        "between" => {
                            let $iter = rec.between::<ikal::Date>(P::b(&w[1]), P::b(&w[2]));
                            $then
                        }
                        "at" if w[1][0] == 0 => {
                            let $iter = rec.at(proj::bnd(&w[1]));
                            $then
                        }
                        "at" => {
                            let $iter = rec.at::<ikal::Date>(P::b(&w[1]));
                            $then
                        }
                        "after" if w[1][0] == 0 => {
                            let $iter = rec.after(proj::bnd(&w[1]));
                            $then
                        }
                        "after" => {
                            let $iter = rec.after::<ikal::Date>(P::b(&w[1]));
                            $then
                        }
                        x => panic!("unknown window {x}"),
                    }
                }};
            }

            let mut iter: Box<dyn Iterator<Item = _>> = window!(rec, iter, Box::new(iter));
            let mut ended = false;

            for _ in 0..n {
                match guard(|| iter.next()) {
                    Some(Some(x)) => {
                        ev.push(json!({"e": "next", "out": occurrence(&Comp::$variant(x), full)}));
                    }
                    Some(None) => {
                        ended = true;
                        ev.push(json!({"e": "next", "out": {"st": "none"}}))
                    }
                    None => {
                        ev.push(json!({"e": "next", "out": {"st": "panic"}}));
                        std::mem::forget(iter);
                        return false;
                    }
                }
            }

            // Taken otherwise than one by one.
            if ended && op["whole"] == true {
                let show = |x| occurrence(&Comp::$variant(x), full);
                let again = || {
                    let mut rec = item.recurrent();

                    if pre {
                        for _ in 0..from {
                            rec.next();
                        }
                    }
                    rec
                };
                let out = or_panic(|| {
                    let (low, high) = window!(again(), iter, iter.size_hint());

                    json!({
                        "st": "ok",
                        "count": window!(again(), iter, iter.count()),
                        "last": window!(again(), iter, iter.last()).into_iter().map(show).collect::<Vec<_>>(),
                        "fold": window!(again(), iter, iter.fold(Vec::new(), |mut v, x| {
                            v.push(show(x));
                            v
                        })),
                        "steps": window!(again(), iter, iter.step_by(2).map(show).collect::<Vec<_>>()),
                        "skipped": window!(again(), iter, iter.skip(1).map(show).collect::<Vec<_>>()),
                        "low": low.min(1_000_000),
                        "high": high.map(|x| x.min(1_000_000)).into_iter().collect::<Vec<_>>(),
                    })
                });
                let broken = out["st"] != "ok";

                ev.push(json!({"e": "whole", "out": out}));

                if broken {
                    return false;
                }
            }
        }};
    }

    match c {
        Comp::Event(x) => run!(Event, x),
        Comp::Todo(x) => run!(Todo, x),
        Comp::Journal(x) => run!(Journal, x),
        _ => panic!("not a recurring component"),
    }

    true
}

fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn or_panic(f: impl FnOnce() -> Value) -> Value {
    guard(f).unwrap_or_else(|| json!({"st": "panic"}))
}

fn run(case: &Value) -> Vec<Value> {
    let mut ev = Vec::new();
    let mut cur: Option<Comp> = None;
    let mut saved: Option<Comp> = None;
    let mut text = String::new();
    let mut vty = String::new();
    let mut vval = Value::Null;
    let mut vtext = String::new();

    for op in case["ops"].as_array().expect("ops") {
        let name = op["op"].as_str().expect("op");
        let s = |k: &str| op[k].as_str().unwrap_or_default();
        let mut e = op.as_object().unwrap().clone();
        e.remove("op");
        e.insert("e".into(), name.into());

        let out = match name {
            "parse" => {
                let input = dec(&op["text"]);

                match guard(|| parse(s("ty"), s("via"), &input)) {
                    Some(Ok(c)) => {
                        let v = or_panic(|| each!(&c, x => x.p()));
                        cur = Some(c);
                        json!({"st": "ok", "c": v})
                    }
                    Some(Err(_)) => {
                        cur = None;
                        json!({"st": "err"})
                    }
                    None => json!({"st": "panic"}),
                }
            }
            "build" => {
                macro_rules! f {
                    ($variant:ident, $ty:ty) => {
                        Comp::$variant(P::b(&op["c"]))
                    };
                }

                let ty = if op["ty"] == "VALARM" { "VALARM" } else { op["c"]["k"].as_str().unwrap() };
                cur = Some(by_name!(ty, f));
                json!({"st": "ok"})
            }
            // Needs a component: without it, the case ends.
            "write" => match &cur {
                None => break,
                Some(c) => match guard(|| each!(c, x => ikal::ser::ical(x))) {
                    Some(Ok(t)) => {
                        text = t;
                        json!({"st": "ok", "text": enc(&text)})
                    }
                    Some(Err(_)) => json!({"st": "err"}),
                    None => json!({"st": "panic"}),
                },
            },
            "reread" => match cur.take() {
                None => break,
                Some(c) => match guard(|| parse(kind(&c), "", &text)) {
                    Some(Ok(r)) => {
                        let eq = same(&c, &r);
                        let v = or_panic(|| each!(&r, x => x.p()));
                        cur = Some(r);
                        json!({"st": "ok", "c": v, "eq": eq})
                    }
                    Some(Err(_)) => json!({"st": "err"}),
                    None => json!({"st": "panic"}),
                },
            },
            "set" => match &mut cur {
                None => break,
                Some(c) => {
                    each!(c, x => x.set(s("part"), s("name"), &op["v"]));
                    json!({"st": "ok"})
                }
            },
            "mark" => match &cur {
                None => break,
                Some(c) => {
                    let m = saved.insert(c.clone());
                    json!({"st": "ok", "c": each!(m, x => x.p())})
                }
            },
            "same" => match (&cur, &saved) {
                (Some(c), Some(m)) => or_panic(|| {
                    let copy = c.clone();

                    json!({
                        "st": "ok",
                        "eq": same(m, c),
                        "qe": same(c, m),
                        "ne": unlike(m, c),
                        "copy": same(&copy, c) && same(c, c),
                        "c": each!(m, x => x.p()),
                        "d": each!(&copy, x => x.p()),
                    })
                }),
                _ => break,
            },
            "alarm" => match cur.take() {
                None => break,
                Some(c) => match guard(|| match c {
                    Comp::Audio(x) => ikal::VAlarm::from(x),
                    Comp::Display(x) => ikal::VAlarm::from(x),
                    Comp::Email(x) => ikal::VAlarm::from(x),
                    _ => panic!("not an alarm"),
                }) {
                    Some(c) => {
                        let v = c.p();
                        cur = Some(Comp::Alarm(c));
                        json!({"st": "ok", "c": v})
                    }
                    None => json!({"st": "panic"}),
                },
            },
            "new" => {
                macro_rules! f {
                    ($variant:ident, $ty:ty) => {
                        (<$ty>::new().p(), <$ty>::default().p())
                    };
                }

                or_panic(|| {
                    let (new, default) = match s("ty") {
                        "STANDARD" => (json!(0), ikal::vtimezone::Standard::default().p()),
                        "DAYLIGHT" => (json!(0), ikal::vtimezone::Daylight::default().p()),
                        "VCALENDAR" => f!(Calendar, ikal::VCalendar),
                        "VEVENT" => f!(Event, ikal::VEvent),
                        "VTODO" => f!(Todo, ikal::VTodo),
                        "VJOURNAL" => f!(Journal, ikal::VJournal),
                        "VFREEBUSY" => f!(Freebusy, ikal::VFreebusy),
                        "VTIMEZONE" => f!(Timezone, ikal::VTimezone),
                        "AUDIO" => f!(Audio, ikal::valarm::Audio),
                        "DISPLAY" => f!(Display, ikal::valarm::Display),
                        "EMAIL" => f!(Email, ikal::valarm::Email),
                        x => panic!("unknown component {x}"),
                    };

                    json!({"st": "ok", "new": if new.is_object() { json!([new]) } else { json!([]) }, "c": default})
                })
            }
            "alike" => or_panic(|| out_alike(s("ty"), &op["a"], &op["b"])),
            "wrap" => or_panic(|| out_wrap(s("ty"), &op["vs"])),
            "from" => or_panic(|| out_from(s("ty"), s("how"), &dec(&op["t"]), op)),
            "take" => match &cur {
                None => break,
                Some(c) => {
                    let n = op["n"].as_u64().unwrap() as usize;

                    let item = guard(|| match c {
                        Comp::Event(x) => x.recurrent().nth(n).map(Comp::Event),
                        Comp::Todo(x) => x.recurrent().nth(n).map(Comp::Todo),
                        Comp::Journal(x) => x.recurrent().nth(n).map(Comp::Journal),
                        _ => panic!("not a recurring component"),
                    });

                    match item {
                        Some(Some(c)) => {
                            let out = occurrence(&c, true);
                            cur = Some(c);
                            out
                        }
                        Some(None) => json!({"st": "none"}),
                        None => json!({"st": "panic"}),
                    }
                }
            },
            "parts" => match &cur {
                None => break,
                Some(c) => or_panic(|| {
                    let written = |x: ikal::Result<String>| match x {
                        Ok(t) => json!({"st": "ok", "text": enc(&t)}),
                        Err(_) => json!({"st": "err"}),
                    };
                    let read = |x: &Value| match (x["st"] == "ok").then(|| parse(kind(c), "", &dec(&x["text"]))) {
                        Some(Ok(c)) => json!({"st": "ok", "c": each!(&c, x => x.p())}),
                        _ => json!({"st": "err"}),
                    };
                    let whole = written(each!(c, x => ikal::ser::ical(x)));
                    let bare = written(each!(c, x => ikal::ser::ical(&x.bare())));

                    json!({
                        "st": "ok",
                        "read": read(&whole),
                        "alone": read(&bare),
                        "whole": whole,
                        "bare": bare,
                        "parts": each!(c, x => x.parts()),
                    })
                }),
            },
            "inside" => or_panic(|| {
                let read = |ty: &str, text: &str| match parse(ty, "", text) {
                    Ok(c) => json!({"st": "ok", "c": each!(&c, x => x.p())}),
                    Err(_) => json!({"st": "err"}),
                };
                let parts = op["parts"].as_array().unwrap();
                let texts: Vec<String> = parts.iter().map(|x| dec(&x["text"])).collect();
                let bare = format!("{}{}", dec(&op["head"]), dec(&op["tail"]));
                let whole = format!("{}{}{}", dec(&op["head"]), texts.concat(), dec(&op["tail"]));

                json!({
                    "st": "ok",
                    "whole": read(s("ty"), &whole),
                    "bare": read(s("ty"), &bare),
                    "parts": parts.iter().zip(&texts).map(|(x, t)| read(x["ty"].as_str().unwrap(), t)).collect::<Vec<_>>(),
                })
            }),
            "iter" => match &cur {
                None => break,
                Some(c) => {
                    if iterate(c, op, &mut ev) {
                        continue;
                    }
                    break;
                }
            },
            "val" => {
                let input = dec(&op["text"]);
                or_panic(|| out_val(s("ty"), &input, None, s("via")))
            }
            "vw" => {
                vty = s("ty").to_string();
                vval = op["v"].clone();
                let out = or_panic(|| out_write(&vty, &vval));
                vtext = if out["st"] == "ok" { dec(&out["text"]) } else { String::new() };
                out
            }
            "vr" => or_panic(|| out_val(&vty, &vtext, Some(&vval), "")),
            "cmp" => or_panic(|| out_cmp(s("ty"), &op["a"], &op["b"])),
            "conv" => or_panic(|| out_conv(&op["a"])),
            "pdur" => or_panic(|| out_period(&op["a"])),
            "plus" | "minus" | "diff" => or_panic(|| out_arith(name, s("ty"), &op["a"], &op["b"])),
            "radd" => or_panic(|| out_radd(s("how"), &op["r"], &op["a"])),
            x => panic!("unknown operation {x}"),
        };

        let panicked = out["st"] == "panic";
        e.insert("out".into(), out);
        ev.push(Value::Object(e));

        if panicked {
            break;
        }
    }

    ev
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("cases"));
    let output = Arc::new(Mutex::new(std::io::BufWriter::new(
        std::fs::File::create(&args[2]).expect("traces"),
    )));
    let verbose = std::env::var_os("HARNESS_VERBOSE").is_some();

    let running: Arc<Mutex<Option<(std::time::Instant, Value)>>> = Arc::default();

    std::thread::spawn({
        let running = running.clone();
        let output = output.clone();

        move || loop {
            std::thread::sleep(std::time::Duration::from_millis(200));

            let guard = running.lock().unwrap();

            if let Some((start, case)) = &*guard
                && start.elapsed() > TIMEOUT
            {
                let mut ev = case["ops"][0].as_object().unwrap().clone();
                ev.insert("e".into(), ev["op"].clone());
                ev.insert("out".into(), json!({"st": "hang"}));
                let trace = json!({"id": case["id"], "fam": case["fam"], "ev": [ev]});

                let mut output = output.lock().unwrap();
                writeln!(output, "{trace}").unwrap();
                output.flush().unwrap();
                std::process::exit(3);
            }
        }
    });

    if !verbose {
        std::panic::set_hook(Box::new(|_| ()));
    }

    // The stack of any thread: how deep it gets must not depend on the texts.
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn({
            let output = output.clone();

            move || {
                for line in input.lines() {
                    let case: Value = serde_json::from_str(&line.unwrap()).expect("case");
                    *running.lock().unwrap() = Some((std::time::Instant::now(), case.clone()));

                    let ev = guard(|| run(&case)).unwrap_or_else(|| {
                        // The harness itself failed on this case: that's an error of the check.
                        eprintln!("HARNESS-ERROR case {}", case["id"]);
                        std::process::exit(4);
                    });

                    *running.lock().unwrap() = None;
                    let trace = json!({"id": case["id"], "fam": case["fam"], "ev": ev});
                    let mut output = output.lock().unwrap();
                    writeln!(output, "{trace}").unwrap();
                    output.flush().unwrap();
                }
            }
        })
        .unwrap()
        .join()
        .unwrap();
}
