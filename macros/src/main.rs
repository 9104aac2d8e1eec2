//! Runs the uses of the macros in forms.rs, and records the components they make.
//!
//! Usage: macros CASES.ndjson TRACES.ndjson

#[allow(dead_code)]
#[path = "../../harness/src/proj.rs"]
mod proj;

mod forms;

use proj::P;
use serde_json::{Value, json};
use std::io::{BufRead as _, Write as _};
use std::panic::{AssertUnwindSafe, catch_unwind};

pub enum Comp {
    Calendar(ikal::VCalendar),
    Event(ikal::VEvent),
    Todo(ikal::VTodo),
    Journal(ikal::VJournal),
    Freebusy(ikal::VFreebusy),
    Timezone(ikal::VTimezone),
    Alarm(ikal::VAlarm),
}

impl Comp {
    fn p(&self) -> Value {
        match self {
            Self::Calendar(x) => x.p(),
            Self::Event(x) => x.p(),
            Self::Todo(x) => x.p(),
            Self::Journal(x) => x.p(),
            Self::Freebusy(x) => x.p(),
            Self::Timezone(x) => x.p(),
            Self::Alarm(x) => x.p(),
        }
    }
}

/// The arguments of a form.
pub struct A(Vec<Value>, Vec<String>);

impl A {
    fn s(&self, n: usize) -> &str {
        &self.1[n]
    }

    fn v<T: P>(&self, n: usize) -> T {
        P::b(&self.0[n])
    }

    fn o<T: P>(&self, n: usize) -> Option<T> {
        proj::bopt(&self.0[n])
    }

    fn l<T: P>(&self, n: usize) -> Vec<T> {
        proj::blist(&self.0[n])
    }

    fn f(&self, n: usize) -> f32 {
        self.1[n].parse().expect("number")
    }

    fn n(&self, n: usize) -> u8 {
        self.0[n].as_u64().expect("number") as u8
    }

    fn by(&self, n: usize) -> Vec<i8> {
        let list = self.0[n].as_array().expect("list");
        list.iter().map(|x| x.as_i64().unwrap() as i8).collect()
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("cases"));
    let mut output = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("traces"));

    std::panic::set_hook(Box::new(|_| ()));

    for line in input.lines() {
        let case: Value = serde_json::from_str(&line.unwrap()).expect("case");
        let mut ev = Vec::new();

        for op in case["ops"].as_array().expect("ops") {
            let values = op["args"].as_array().unwrap().clone();
            let texts = values
                .iter()
                .map(|v| match v.as_array() {
                    Some(v) if v.iter().all(Value::is_u64) => v
                        .iter()
                        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap_or('?'))
                        .collect(),
                    _ => String::new(),
                })
                .collect();
            let a = A(values, texts);
            let form = forms::FORMS[op["form"].as_u64().unwrap() as usize];
            let out = match catch_unwind(AssertUnwindSafe(|| form(&a).map(|c| c.p()))) {
                Ok(Ok(c)) => json!({"st": "ok", "c": c}),
                Ok(Err(_)) => json!({"st": "err"}),
                Err(_) => json!({"st": "panic"}),
            };

            let mut e = op.as_object().unwrap().clone();
            e.remove("op");
            e.remove("args");
            e.insert("e".into(), "macro".into());
            e.insert("out".into(), out);
            ev.push(Value::Object(e));
        }

        let trace = json!({"id": case["id"], "fam": case["fam"], "ev": ev});
        writeln!(output, "{trace}").unwrap();
    }

    output.flush().unwrap();
}
