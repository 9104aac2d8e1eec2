From 00f076e3c8b99e1050c317c376d7296c998f98df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 01/47] fix: an alarm without ACTION is an error, not a panic

The last ACTION line selects the kind of alarm, as it already selects the
value of the property.
---
 src/components/valarm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 8f593b8..5d0e281 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -12,7 +12,10 @@ impl TryFrom<Vec<crate::ContentLine>> for VAlarm {
     type Error = crate::Error;
 
     fn try_from(properties: Vec<crate::ContentLine>) -> crate::Result<Self> {
-        let action = properties.iter().find(|x| x.key == "ACTION").unwrap();
+        let action = properties
+            .iter()
+            .rfind(|x| x.key == "ACTION")
+            .ok_or_else(|| crate::Error::Parser("Missing field ACTION".to_string()))?;
 
         let component = match action.value.as_str() {
             "AUDIO" => Self::Audio(Audio::try_from(properties)?),
-- 
2.43.0


From 691116f2d0eeeae1f7d1f75ac0b97193591c23f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 02/47] fix: a period without end is an error, not a panic

---
 src/parser/datatype.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index f80c8a0..deb1314 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -156,19 +156,21 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
  * See [3.3.9. Period of Time](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.9)
  */
 pub(crate) fn period(input: &str) -> crate::Result<crate::Period> {
-    let tokens = input.splitn(2, '/').collect::<Vec<_>>();
+    let Some((start, end)) = input.split_once('/') else {
+        return Err(crate::Error::Parser(format!("Invalid period: {input}")));
+    };
 
-    let start = date_time(tokens[0])?.1;
+    let start = date_time(start)?.1;
 
-    let period = if tokens[1].starts_with('P') {
+    let period = if end.starts_with('P') {
         crate::Period::StartDur(crate::period::StartDur {
             start,
-            duration: super::duration(tokens[1].into())?,
+            duration: super::duration(end.into())?,
         })
     } else {
         crate::Period::StartEnd(crate::period::StartEnd {
             start,
-            end: date_time(tokens[1])?.1,
+            end: date_time(end)?.1,
         })
     };
 
-- 
2.43.0


From 501574d91423610ae3f06f132c4a99d514459617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 03/47] fix: a recurrence rule without FREQ is an error, not a
 panic

---
 src/parser/recurrence.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/recurrence.rs b/src/parser/recurrence.rs
index 9a3d6d3..855eb40 100644
--- a/src/parser/recurrence.rs
+++ b/src/parser/recurrence.rs
@@ -86,7 +86,10 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
                 .collect::<std::collections::BTreeMap<_, _>>();
 
             let recur = crate::Recur {
-                freq: map["FREQ"].parse()?,
+                freq: map
+                    .get("FREQ")
+                    .ok_or_else(|| crate::Error::Parser("Missing FREQ".to_string()))?
+                    .parse()?,
                 until: map
                     .get("UNTIL")
                     .map(|x| {
-- 
2.43.0


From dd6a4432559843be553d5273132453c1e51c82ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 04/47] fix: a duration too long to be represented is an error,
 not a panic

---
 src/parser/datatype.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index deb1314..7d13414 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -4,7 +4,7 @@
 
 use nom::Parser as _;
 use nom::bytes::complete::tag;
-use nom::combinator::{map, map_res, opt};
+use nom::combinator::{map, map_opt, map_res, opt};
 use nom::error::{FromExternalError, context};
 use nom::sequence::{pair, preceded, terminated};
 
@@ -129,23 +129,23 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
 
     context(
         "duration",
-        map(
+        map_opt(
             pair(
                 opt(tag("-")),
                 preceded(tag("P"), (opt(week), opt(day), opt(time))),
             ),
             |(neg, (w, d, t))| {
-                let mut duration = chrono::Duration::weeks(w.unwrap_or_default())
-                    + chrono::Duration::days(d.unwrap_or_default());
+                let mut duration = chrono::Duration::try_weeks(w.unwrap_or_default())?
+                    .checked_add(&chrono::Duration::try_days(d.unwrap_or_default())?)?;
 
                 if let Some((h, i, s)) = t {
                     duration = duration
-                        + chrono::Duration::hours(h)
-                        + chrono::Duration::minutes(i)
-                        + chrono::Duration::seconds(s);
+                        .checked_add(&chrono::Duration::try_hours(h)?)?
+                        .checked_add(&chrono::Duration::try_minutes(i)?)?
+                        .checked_add(&chrono::Duration::try_seconds(s)?)?;
                 }
 
-                if neg.is_some() { -duration } else { duration }
+                Some(if neg.is_some() { -duration } else { duration })
             },
         ),
     )
-- 
2.43.0


From 4d90505ae3378b02f52927b84672affab7306867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 05/47] fix: read a duration with an explicit plus sign

---
 src/parser/datatype.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 7d13414..5d647bd 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -131,7 +131,7 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
         "duration",
         map_opt(
             pair(
-                opt(tag("-")),
+                opt(nom::branch::alt((tag("-"), tag("+")))),
                 preceded(tag("P"), (opt(week), opt(day), opt(time))),
             ),
             |(neg, (w, d, t))| {
@@ -145,7 +145,11 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
                         .checked_add(&chrono::Duration::try_seconds(s)?)?;
                 }
 
-                Some(if neg.is_some() { -duration } else { duration })
+                Some(if neg == Some("-") {
+                    -duration
+                } else {
+                    duration
+                })
             },
         ),
     )
-- 
2.43.0


From 6e41cb020a3bbd21367ad6d7fdc7c27252d8065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 06/47] fix: parse_duration adds up the parts of a duration,
 weeks included

The digits of a part were kept in front of those of the next one: P1DT2H was
read as one day and twelve hours.
---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index ea8db47..c376d23 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -159,6 +159,7 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
         let part = match (time, ty) {
             (false, 'Y') => chrono::TimeDelta::days(365 * interval.parse::<i64>()?),
             (false, 'M') => chrono::TimeDelta::days(30 * interval.parse::<i64>()?),
+            (false, 'W') => chrono::TimeDelta::weeks(interval.parse()?),
             (false, 'D') => chrono::TimeDelta::days(interval.parse()?),
             (true, 'H') => chrono::TimeDelta::hours(interval.parse()?),
             (true, 'M') => chrono::TimeDelta::minutes(interval.parse()?),
@@ -171,6 +172,7 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
         };
 
         duration += part;
+        interval.clear();
     }
 
     if negative {
-- 
2.43.0


From 4b81c1c4b3a2b91c92da363e3c2a034752da77bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 07/47] fix: parse_duration does not panic on a duration too
 long to be represented

---
 src/lib.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c376d23..c779ef2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -156,14 +156,16 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
             break;
         };
 
+        let value = interval.parse::<i64>();
+
         let part = match (time, ty) {
-            (false, 'Y') => chrono::TimeDelta::days(365 * interval.parse::<i64>()?),
-            (false, 'M') => chrono::TimeDelta::days(30 * interval.parse::<i64>()?),
-            (false, 'W') => chrono::TimeDelta::weeks(interval.parse()?),
-            (false, 'D') => chrono::TimeDelta::days(interval.parse()?),
-            (true, 'H') => chrono::TimeDelta::hours(interval.parse()?),
-            (true, 'M') => chrono::TimeDelta::minutes(interval.parse()?),
-            (true, 'S') => chrono::TimeDelta::seconds(interval.parse()?),
+            (false, 'Y') => value?.checked_mul(365).and_then(chrono::TimeDelta::try_days),
+            (false, 'M') => value?.checked_mul(30).and_then(chrono::TimeDelta::try_days),
+            (false, 'W') => chrono::TimeDelta::try_weeks(value?),
+            (false, 'D') => chrono::TimeDelta::try_days(value?),
+            (true, 'H') => chrono::TimeDelta::try_hours(value?),
+            (true, 'M') => chrono::TimeDelta::try_minutes(value?),
+            (true, 'S') => chrono::TimeDelta::try_seconds(value?),
             _ => {
                 return Err(crate::Error::ParseDuration(format!(
                     "Invalid duration: {interval}"
@@ -171,7 +173,11 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
             }
         };
 
-        duration += part;
+        duration = part
+            .and_then(|x| duration.checked_add(&x))
+            .ok_or_else(|| {
+                crate::Error::ParseDuration(format!("Duration out of range: {interval}"))
+            })?;
         interval.clear();
     }
 
-- 
2.43.0


From c54e58e74059770e7634fa4ea351a4c5fa64b1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 08/47] fix: parse_duration reads a plus sign and rejects
 digits without unit

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c779ef2..011f47e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -133,6 +133,8 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
 
     if it.next_if(|x| *x == '-').is_some() {
         negative = true;
+    } else {
+        it.next_if_eq(&'+');
     }
 
     if it.next_if(|x| *x == 'P').is_none() {
@@ -181,6 +183,12 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
         interval.clear();
     }
 
+    if !interval.is_empty() {
+        return Err(crate::Error::ParseDuration(format!(
+            "Invalid duration: {value}"
+        )));
+    }
+
     if negative {
         duration = -duration;
     }
-- 
2.43.0


From 6632589e5a959c3709fdd199523b4498ade289bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 09/47] fix: parse_duration rejects digits without unit before
 the time part

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 011f47e..80a0417 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -144,7 +144,7 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
     };
 
     loop {
-        if it.next_if(|x| *x == 'T').is_some() {
+        if interval.is_empty() && it.next_if(|x| *x == 'T').is_some() {
             time = true;
             continue;
         }
-- 
2.43.0


From 39e4e7b8489cc2bfc2da5ad9a982e88755c04b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 10/47] fix: reject a duration followed by anything else

PT1H30 was read as one hour, P1Y as zero.
---
 src/parser/datatype.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 5d647bd..261a48b 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -4,7 +4,7 @@
 
 use nom::Parser as _;
 use nom::bytes::complete::tag;
-use nom::combinator::{map, map_opt, map_res, opt};
+use nom::combinator::{all_consuming, map, map_opt, map_res, opt};
 use nom::error::{FromExternalError, context};
 use nom::sequence::{pair, preceded, terminated};
 
@@ -127,7 +127,7 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
         .parse(input)
     }
 
-    context(
+    all_consuming(context(
         "duration",
         map_opt(
             pair(
@@ -152,7 +152,7 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
                 })
             },
         ),
-    )
+    ))
     .parse(input)
 }
 
-- 
2.43.0


From a48592fcaf0aa27f06cde357a0cd991b3555ffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 11/47] fix: reject a geographic position which isn't two
 numbers

---
 src/parser/descriptive.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index f8e884f..efe6000 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -43,13 +43,16 @@ pub(crate) fn description(input: crate::ContentLine) -> crate::Result<crate::Tex
 pub(crate) fn geo(input: crate::ContentLine) -> crate::Result<crate::Geo> {
     use nom::Parser as _;
     use nom::character::complete::char;
-    use nom::combinator::map;
+    use nom::combinator::{all_consuming, map_opt};
     use nom::number::complete::float;
     use nom::sequence::separated_pair;
 
-    map(separated_pair(float, char(';'), float), |(lat, lon)| {
-        crate::Geo { lat, lon }
-    })
+    all_consuming(map_opt(
+        separated_pair(float, char(';'), float),
+        |(lat, lon): (f32, f32)| {
+            (lat.is_finite() && lon.is_finite()).then_some(crate::Geo { lat, lon })
+        },
+    ))
     .parse(input.value.as_str())
     .map_err(crate::Error::from)
     .map(|(_, x)| x)
-- 
2.43.0


From f6d2a99e568b44a8771fc82ff2646203fa1c4622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 12/47] fix: reject a request status whose code isn't a number

---
 src/parser/misc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/misc.rs b/src/parser/misc.rs
index c239b5d..a8e21c6 100644
--- a/src/parser/misc.rs
+++ b/src/parser/misc.rs
@@ -9,7 +9,7 @@ pub(crate) fn rstatus(input: crate::ContentLine) -> crate::Result<crate::Request
     use nom::Parser as _;
     use nom::bytes::complete::{take_till, take_while};
     use nom::character::complete::char;
-    use nom::combinator::{map, opt};
+    use nom::combinator::{map, opt, verify};
     use nom::error::context;
     use nom::number::complete::float;
     use nom::sequence::preceded;
@@ -26,7 +26,7 @@ pub(crate) fn rstatus(input: crate::ContentLine) -> crate::Result<crate::Request
         "rstatus",
         map(
             (
-                float,
+                verify(float, |x: &f32| x.is_finite()),
                 char(';'),
                 map(text, String::from),
                 opt(preceded(char(';'), map(end, String::from))),
-- 
2.43.0


From f7c454b24b30893ccf34c268b4d6ebfe3fc857b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 13/47] fix: reject a recurrence rule followed by anything else

---
 src/parser/recurrence.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/recurrence.rs b/src/parser/recurrence.rs
index 855eb40..73c60a5 100644
--- a/src/parser/recurrence.rs
+++ b/src/parser/recurrence.rs
@@ -49,7 +49,7 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
     use nom::Parser as _;
     use nom::bytes::complete::take_till;
     use nom::character::complete::char;
-    use nom::combinator::{map_res, opt};
+    use nom::combinator::{all_consuming, map_res, opt};
     use nom::error::context;
     use nom::multi::many1;
     use nom::sequence::{separated_pair, terminated};
@@ -79,7 +79,7 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
 
     context(
         "rrule",
-        map_res(many1(item), |items| {
+        map_res(all_consuming(many1(item)), |items| {
             let map = items
                 .iter()
                 .map(|(k, v)| ((*k).to_string(), v))
-- 
2.43.0


From 3fb94ba09651855d00f903496bb4f6cb90aa9ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 14/47] fix: reject a weekday followed by anything else

---
 src/properties/recur.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/properties/recur.rs b/src/properties/recur.rs
index c57147f..edd359f 100644
--- a/src/properties/recur.rs
+++ b/src/properties/recur.rs
@@ -1,4 +1,5 @@
 use chrono::Datelike as _;
+use nom::Parser as _;
 
 /**
  * See [3.3.10. Recurrence Rule](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.5.3)
@@ -227,7 +228,8 @@ impl std::str::FromStr for WeekdayNum {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::weekdaynum(s)
+        nom::combinator::all_consuming(crate::parser::weekdaynum)
+            .parse(s)
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
@@ -276,7 +278,8 @@ impl std::str::FromStr for Weekday {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::weekday(s)
+        nom::combinator::all_consuming(crate::parser::weekday)
+            .parse(s)
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
-- 
2.43.0


From 31543868b82dd5665cd9474b50b935cbaf19f992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 15/47] fix: reject dates with missing digits, leading spaces
 or several Z

2024111 was read as the first of November 2024.
---
 src/parser/datatype.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 261a48b..238a959 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -4,7 +4,7 @@
 
 use nom::Parser as _;
 use nom::bytes::complete::tag;
-use nom::combinator::{all_consuming, map, map_opt, map_res, opt};
+use nom::combinator::{all_consuming, map, map_opt, map_res, opt, rest, verify};
 use nom::error::{FromExternalError, context};
 use nom::sequence::{pair, preceded, terminated};
 
@@ -15,10 +15,24 @@ pub(crate) fn cal_address(input: &str) -> crate::Result<String> {
     uri(input)
 }
 
+/**
+ * chrono also reads numbers with missing digits or leading spaces.
+ */
+fn fixed_width<'a>(input: &'a str, mask: &str) -> super::NomResult<&'a str, &'a str> {
+    let matches = |(c, m): (u8, u8)| c == m || (m == b'9' && c.is_ascii_digit());
+
+    verify(rest, |x: &str| {
+        x.len() == mask.len() && x.bytes().zip(mask.bytes()).all(matches)
+    })
+    .parse(input)
+}
+
 /**
  * See [3.3.4. Date](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.4)
  */
 pub(crate) fn date(input: &str) -> super::NomResult<&str, chrono::NaiveDate> {
+    let (_, input) = fixed_width(input, "99999999")?;
+
     let date = chrono::NaiveDate::parse_from_str(input, "%Y%m%d").map_err(|e| {
         nom::Err::Error(nom_language::error::VerboseError::from_external_error(
             input,
@@ -34,9 +48,9 @@ pub(crate) fn date(input: &str) -> super::NomResult<&str, chrono::NaiveDate> {
  * See [3.3.5. Date-Time](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.5)
  */
 pub(crate) fn date_time(input: &str) -> super::NomResult<&str, crate::DateTime> {
-    let date = input.to_string();
+    let (_, date) = fixed_width(input.strip_suffix('Z').unwrap_or(input), "99999999T999999")?;
 
-    let dt = chrono::NaiveDateTime::parse_from_str(date.trim_end_matches('Z'), "%Y%m%dT%H%M%S")
+    let dt = chrono::NaiveDateTime::parse_from_str(date, "%Y%m%dT%H%M%S")
         .map_err(|e| {
             nom::Err::Error(nom_language::error::VerboseError::from_external_error(
                 input,
@@ -45,7 +59,7 @@ pub(crate) fn date_time(input: &str) -> super::NomResult<&str, crate::DateTime>
             ))
         })?;
 
-    if date.ends_with('Z') {
+    if input.ends_with('Z') {
         Ok((
             "",
             crate::DateTime::Local(dt.and_utc().with_timezone(&chrono::Local)),
-- 
2.43.0


From d2f75ade9a4a5fa720b0b4bdaed3266c5bde9af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 16/47] fix: a time skipped or repeated by the local time zone
 doesn't panic

---
 src/properties/date.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/properties/date.rs b/src/properties/date.rs
index cd2c735..c15ee24 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -116,9 +116,11 @@ impl std::str::FromStr for DateTime {
         } else {
             let naive = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%SZ")?;
 
-            Ok(Self::Local(
-                naive.and_local_timezone(chrono::Local).unwrap(),
-            ))
+            naive
+                .and_local_timezone(chrono::Local)
+                .earliest()
+                .map(Self::Local)
+                .ok_or(crate::Error::Local(Self::Naive(naive)))
         }
     }
 }
-- 
2.43.0


From d76f8dc927bca4c9576a1fa3cd432b834c3c5849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 17/47] fix: dates parsed alone are read as strictly as those
 of a component

---
 src/properties/date.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/properties/date.rs b/src/properties/date.rs
index c15ee24..519a5b1 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -111,16 +111,17 @@ impl std::str::FromStr for DateTime {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if let Ok(naive) = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%S") {
-            Ok(Self::Naive(naive))
-        } else {
-            let naive = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%SZ")?;
-
-            naive
-                .and_local_timezone(chrono::Local)
-                .earliest()
-                .map(Self::Local)
-                .ok_or(crate::Error::Local(Self::Naive(naive)))
+        match crate::parser::datatype::date_time(s)?.1 {
+            Self::Naive(naive) => Ok(Self::Naive(naive)),
+            Self::Local(local) => {
+                let naive = local.naive_utc();
+
+                naive
+                    .and_local_timezone(chrono::Local)
+                    .earliest()
+                    .map(Self::Local)
+                    .ok_or(crate::Error::Local(Self::Naive(naive)))
+            }
         }
     }
 }
@@ -192,7 +193,7 @@ impl std::str::FromStr for Date {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if let Ok(date) = chrono::NaiveDate::parse_from_str(s, "%Y%m%d") {
+        if let Ok((_, date)) = crate::parser::datatype::date(s) {
             return Ok(Self::Date(date));
         }
 
-- 
2.43.0


From 45a3ab6d230671a7a54c0d3a390d430ac7f6e0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 18/47] fix: the parameters of a property end with its line

A line without value was read together with the following one.
---
 src/parser/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 971907a..2422736 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -64,7 +64,7 @@ fn key(input: &str) -> NomResult<&str, &str> {
 fn attr(input: &str) -> NomResult<&str, &str> {
     context(
         "attr",
-        preceded(opt(tag("\r\n ")), take_till(|c| c == ';' || c == ':')),
+        take_till(|c| c == ';' || c == ':' || is_line_ending(c)),
     )
     .parse(input)
 }
@@ -80,7 +80,11 @@ fn quote(chr: char) -> bool {
 fn quoted_param(input: &str) -> NomResult<&str, (&str, &str)> {
     context(
         "quoted_param",
-        separated_pair(key, tag("=\""), take_till(quote)),
+        separated_pair(
+            key,
+            tag("=\""),
+            take_till(|c| quote(c) || is_line_ending(c)),
+        ),
     )
     .parse(input)
 }
-- 
2.43.0


From 228426619408ee52e605d28b1396d9b6701dadb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 19/47] fix: an escaped comma doesn't split a category or a
 resource

---
 src/parser/descriptive.rs | 10 ++++++++--
 src/parser/mod.rs         | 15 +++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index efe6000..9584b61 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -13,7 +13,10 @@ pub(crate) fn attach(input: crate::ContentLine) -> crate::Result<crate::Text> {
  * See [3.8.1.2. Categories](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.2)
  */
 pub(crate) fn categories(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
-    Ok(input.value.split(',').map(crate::Text::from).collect())
+    Ok(super::split(&input.value, ',')
+        .into_iter()
+        .map(crate::Text::from)
+        .collect())
 }
 
 /**
@@ -89,7 +92,10 @@ pub(crate) fn priority(input: crate::ContentLine) -> crate::Result<u8> {
  * See [3.8.1.10. Resources](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.10)
  */
 pub(crate) fn resources(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
-    Ok(input.value.split(',').map(crate::Text::from).collect())
+    Ok(super::split(&input.value, ',')
+        .into_iter()
+        .map(crate::Text::from)
+        .collect())
 }
 
 /**
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 2422736..c2186d3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -73,6 +73,21 @@ fn value(input: &str) -> NomResult<&str, &str> {
     context("value", take_till(is_line_ending)).parse(input)
 }
 
+/**
+ * Splits on the separators which aren't escaped.
+ */
+fn split(input: &str, separator: char) -> Vec<&str> {
+    let mut escaped = false;
+
+    input
+        .split(|c| {
+            let found = c == separator && !escaped;
+            escaped = c == '\\' && !escaped;
+            found
+        })
+        .collect()
+}
+
 fn quote(chr: char) -> bool {
     chr == '"'
 }
-- 
2.43.0


From c804b13e1fb8ad59cd43efd4206505cb0d954803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 20/47] fix: an escaped semicolon doesn't end the description
 of a request status

---
 src/parser/misc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/misc.rs b/src/parser/misc.rs
index a8e21c6..6d24b7a 100644
--- a/src/parser/misc.rs
+++ b/src/parser/misc.rs
@@ -7,7 +7,7 @@
  */
 pub(crate) fn rstatus(input: crate::ContentLine) -> crate::Result<crate::RequestStatus> {
     use nom::Parser as _;
-    use nom::bytes::complete::{take_till, take_while};
+    use nom::bytes::complete::take_while;
     use nom::character::complete::char;
     use nom::combinator::{map, opt, verify};
     use nom::error::context;
@@ -15,7 +15,9 @@ pub(crate) fn rstatus(input: crate::ContentLine) -> crate::Result<crate::Request
     use nom::sequence::preceded;
 
     fn text(input: &str) -> super::NomResult<&str, &str> {
-        context("text", take_till(|c| c == ';')).parse(input)
+        let text = super::split(input, ';')[0];
+
+        Ok((&input[text.len()..], text))
     }
 
     fn end(input: &str) -> super::NomResult<&str, &str> {
-- 
2.43.0


From 60bcf6fa9b7311797a903e18a1bebe7aa769d9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 21/47] fix: don't round the code of a request status

---
 src/properties/request_status.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties/request_status.rs b/src/properties/request_status.rs
index 0db41bd..0eae83f 100644
--- a/src/properties/request_status.rs
+++ b/src/properties/request_status.rs
@@ -35,7 +35,7 @@ impl std::str::FromStr for RequestStatus {
 impl crate::ser::Serialize for RequestStatus {
     fn ical(&self) -> crate::Result<String> {
         let mut s = format!(
-            "{:.1};{}",
+            "{:?};{}",
             self.statcode,
             crate::ser::escape(&self.statdesc)
         );
-- 
2.43.0


From d9198fcd50ebde6a675a331d71a6badd030b77cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 22/47] fix: the property of a request status is REQUEST-STATUS

---
 derive/src/component.rs     | 14 ++++++++------
 src/components/vevent.rs    |  1 +
 src/components/vfreebusy.rs |  1 +
 src/components/vjournal.rs  |  1 +
 src/components/vtodo.rs     |  1 +
 5 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 6215028..1517cb4 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -8,6 +8,7 @@ pub(crate) struct Field {
     pub append: bool,
     #[darling(default)]
     pub ignore: bool,
+    pub rename: Option<String>,
 }
 
 pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::TokenStream> {
@@ -35,12 +36,13 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
         let ty = &field.ty;
         let field_params = Field::from_field(field)?;
 
-        let field_name = name
-            .as_ref()
-            .unwrap()
-            .to_string()
-            .to_uppercase()
-            .replace('_', "-");
+        let field_name = field_params.rename.clone().unwrap_or_else(|| {
+            name.as_ref()
+                .unwrap()
+                .to_string()
+                .to_uppercase()
+                .replace('_', "-")
+        });
 
         let ser_part = if crate::is_vec(ty) {
             quote::quote! {
diff --git a/src/components/vevent.rs b/src/components/vevent.rs
index 3e9b1c9..abbe406 100644
--- a/src/components/vevent.rs
+++ b/src/components/vevent.rs
@@ -31,6 +31,7 @@ pub struct VEvent {
     pub contact: Vec<crate::Text>,
     #[component(append)]
     pub exdate: Vec<crate::Date>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     pub related_to: Vec<crate::Text>,
     #[component(append)]
diff --git a/src/components/vfreebusy.rs b/src/components/vfreebusy.rs
index 3057da6..4385772 100644
--- a/src/components/vfreebusy.rs
+++ b/src/components/vfreebusy.rs
@@ -14,6 +14,7 @@ pub struct VFreebusy {
     pub comment: Vec<crate::Text>,
     #[component(append)]
     pub freebusy: Vec<crate::Period>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     #[component(ignore)]
     pub x_prop: std::collections::BTreeMap<String, crate::ContentLine>,
diff --git a/src/components/vjournal.rs b/src/components/vjournal.rs
index 0d07251..214d0e0 100644
--- a/src/components/vjournal.rs
+++ b/src/components/vjournal.rs
@@ -27,6 +27,7 @@ pub struct VJournal {
     pub exdate: Vec<crate::Date>,
     pub related_to: Vec<crate::Text>,
     pub rdate: Vec<crate::RDate>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     #[component(ignore)]
     pub x_prop: std::collections::BTreeMap<String, crate::ContentLine>,
diff --git a/src/components/vtodo.rs b/src/components/vtodo.rs
index 84a9cbd..9b867cb 100644
--- a/src/components/vtodo.rs
+++ b/src/components/vtodo.rs
@@ -31,6 +31,7 @@ pub struct VTodo {
     pub contact: Vec<crate::Text>,
     #[component(append)]
     pub exdate: Vec<crate::Date>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     pub related_to: Vec<crate::Text>,
     #[component(append)]
-- 
2.43.0


From d18f02f2bad5f2b1f0a0e94d8c39794efc88df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 23/47] fix: don't escape URIs

---
 src/properties/uri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties/uri.rs b/src/properties/uri.rs
index 78386de..9c6c9ca 100644
--- a/src/properties/uri.rs
+++ b/src/properties/uri.rs
@@ -52,7 +52,7 @@ impl From<&str> for Uri {
 
 impl crate::ser::Serialize for Uri {
     fn ical(&self) -> crate::Result<String> {
-        self.to_string().ical()
+        Ok(self.to_string())
     }
 
     fn attr(&self) -> Option<String> {
-- 
2.43.0


From 0d3bc754466a7186c4380bca3a642908a26e604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 24/47] fix: write unknown properties as they were read

---
 src/content_line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/content_line.rs b/src/content_line.rs
index 80d74ce..5ad0dd2 100644
--- a/src/content_line.rs
+++ b/src/content_line.rs
@@ -55,7 +55,7 @@ impl std::fmt::Display for ContentLine {
 
 impl crate::ser::Serialize for ContentLine {
     fn ical(&self) -> crate::Result<String> {
-        self.to_string().ical()
+        Ok(self.to_string())
     }
 
     fn attr(&self) -> Option<String> {
-- 
2.43.0


From b81895a470c713e627b8b326638973cea2669289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 25/47] fix: the value type of RDATE is a parameter, not a part
 of its value

---
 src/properties/rdate.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/properties/rdate.rs b/src/properties/rdate.rs
index bc9a5bd..b3e151b 100644
--- a/src/properties/rdate.rs
+++ b/src/properties/rdate.rs
@@ -41,7 +41,22 @@ impl std::fmt::Display for RDate {
     }
 }
 
-crate::ser::ical_for_tostring!(RDate);
+impl crate::ser::Serialize for RDate {
+    fn attr(&self) -> Option<String> {
+        match self {
+            RDate::Date(dates) if dates.iter().any(crate::Date::has_time) => None,
+            RDate::Date(_) => "VALUE=DATE".to_string().into(),
+            RDate::Period(_) => "VALUE=PERIOD".to_string().into(),
+        }
+    }
+
+    fn ical(&self) -> crate::Result<String> {
+        match self {
+            RDate::Date(dates) => dates.ical(),
+            RDate::Period(periods) => periods.ical(),
+        }
+    }
+}
 
 #[cfg(test)]
 mod test {
-- 
2.43.0


From 5c771e83a0708b674f7e7c53609ae4cf21e4231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 26/47] fix: quote the value of a parameter instead of escaping
 it

---
 src/ser.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index f5fc486..4d882c3 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -103,14 +103,14 @@ impl<T: Serialize> Serialize for Option<T> {
     }
 }
 
-impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
+impl<K: ToString, V: ToString> Serialize for std::collections::BTreeMap<K, V> {
     fn ical(&self) -> crate::Result<String> {
         let mut s = String::new();
 
         for (k, v) in self {
             s.push_str(&k.to_string());
             s.push('=');
-            s.push_str(&v.ical()?);
+            s.push_str(&quote(&v.to_string()));
             s.push(';');
         }
         s.pop();
@@ -119,6 +119,17 @@ impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
     }
 }
 
+/**
+ * See [3.2. Property Parameters](https://datatracker.ietf.org/doc/html/rfc5545#section-3.2)
+ */
+fn quote(s: &str) -> String {
+    if s.contains([':', ';', ',']) && !s.contains('"') {
+        format!("\"{s}\"")
+    } else {
+        s.to_string()
+    }
+}
+
 pub(crate) fn escape(s: &str) -> String {
     s.replace(';', "\\;")
         .replace(',', "\\,")
-- 
2.43.0


From cb07178e0ffe85809f868f696c35403deec95e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 27/47] fix: don't escape again the text of a parsed component

Each reading and writing added a backslash before the commas and semicolons,
which no longer were escaped, and left a final backslash to escape whatever
followed.
---
 src/ser.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index 4d882c3..97b5cfb 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -130,10 +130,33 @@ fn quote(s: &str) -> String {
     }
 }
 
+/**
+ * See [3.3.11. Text](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.11)
+ *
+ * The text of a parsed component is still escaped, don't do it twice.
+ */
 pub(crate) fn escape(s: &str) -> String {
-    s.replace(';', "\\;")
-        .replace(',', "\\,")
-        .replace('\n', "\\n")
+    let mut escaped = String::with_capacity(s.len());
+    let mut chars = s.chars();
+
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => {
+                escaped.push(c);
+
+                match chars.as_str().chars().next() {
+                    Some(';' | ',' | '\\') => escaped.extend(chars.next()),
+                    None | Some('\n') => escaped.push(c),
+                    Some(_) => (),
+                }
+            }
+            ';' | ',' => escaped.extend(['\\', c]),
+            '\n' => escaped.push_str("\\n"),
+            _ => escaped.push(c),
+        }
+    }
+
+    escaped
 }
 
 pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String> {
-- 
2.43.0


From 45e450572fcbf251c77ab411487d826ef0e84c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 28/47] fix: a carriage return in a text doesn't break the line

---
 src/ser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index 97b5cfb..69cc8a8 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -146,12 +146,13 @@ pub(crate) fn escape(s: &str) -> String {
 
                 match chars.as_str().chars().next() {
                     Some(';' | ',' | '\\') => escaped.extend(chars.next()),
-                    None | Some('\n') => escaped.push(c),
+                    None | Some('\r' | '\n') => escaped.push(c),
                     Some(_) => (),
                 }
             }
             ';' | ',' => escaped.extend(['\\', c]),
-            '\n' => escaped.push_str("\\n"),
+            '\r' if chars.as_str().starts_with('\n') => (),
+            '\r' | '\n' => escaped.push_str("\\n"),
             _ => escaped.push(c),
         }
     }
-- 
2.43.0


From 3ecea0e61723c08927ee9322a504e2c3f6ba0838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 29/47] fix: don't fold a line in the middle of its end

A line of 74 or 75 bytes was cut before or between its CR and LF.
---
 src/ser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index 69cc8a8..2e63d57 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -177,13 +177,16 @@ pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String
             }
             s.push(':');
             s.push_str(&ical);
-            s.push_str("\r\n");
         }
 
         if s.len() > 75 {
             let lines = split(&s, 75);
             s = lines.join("\r\n ");
         }
+
+        if !s.is_empty() {
+            s.push_str("\r\n");
+        }
     }
 
     Ok(s)
-- 
2.43.0


From 4e671a2f8aed5bfc197d93eb70b5f519abb2b926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 30/47] fix: don't panic when a line should be folded in the
 middle of a character

---
 src/ser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index 2e63d57..bf2996d 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -197,7 +197,13 @@ fn split(s: &str, sub_size: usize) -> Vec<&str> {
     let mut cur = s;
 
     while !cur.is_empty() {
-        let (chunk, rest) = cur.split_at(std::cmp::min(sub_size, cur.len()));
+        let mut mid = std::cmp::min(sub_size, cur.len());
+
+        while !cur.is_char_boundary(mid) {
+            mid -= 1;
+        }
+
+        let (chunk, rest) = cur.split_at(mid);
         v.push(chunk);
         cur = rest;
     }
-- 
2.43.0


From 1d3208d39dfd601d51647c234868fc737da35ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 31/47] fix: write an alarm as a component, not as the value of
 a property

---
 src/components/valarm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 5d0e281..5527cd0 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -56,6 +56,10 @@ impl std::str::FromStr for VAlarm {
 }
 
 impl crate::ser::Serialize for VAlarm {
+    fn component() -> Option<String> {
+        Some("VALARM".to_string())
+    }
+
     fn ical(&self) -> crate::Result<String> {
         let s = match self {
             Self::Audio(audio) => audio.ical(),
-- 
2.43.0


From 08040030990e3492695e6f3491e7410bf665439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 32/47] fix: a line break in a URI or a parameter doesn't break
 the line

---
 src/ser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ser.rs b/src/ser.rs
index bf2996d..8ecc009 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -179,6 +179,11 @@ pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String
             s.push_str(&ical);
         }
 
+        // Only a text can hold line breaks, which are already escaped.
+        if s.contains(['\r', '\n']) {
+            s = s.replace("\r\n", "\\n").replace(['\r', '\n'], "\\n");
+        }
+
         if s.len() > 75 {
             let lines = split(&s, 75);
             s = lines.join("\r\n ");
-- 
2.43.0


From 33cc5d16178593004bb83ca1e77de89e435d3119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 33/47] fix: write several components or properties one after
 the other

Two events were written as the value of a property, two comments as a single
one, two attendees without their parameters.
---
 derive/src/component.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 1517cb4..588e824 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -44,12 +44,9 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
                 .replace('_', "-")
         });
 
-        let ser_part = if crate::is_vec(ty) {
+        let ser_part = if field_params.append {
             quote::quote! {
-                if self.#name.len() == 1 {
-                    s.push_str(&crate::ser::field(#field_name, &self.#name[0])?);
-                }
-                else if self.#name.attr().is_none() {
+                if self.#name.iter().all(|v| v.attr().is_none()) {
                     s.push_str(&crate::ser::field(#field_name, &self.#name)?);
                 } else {
                     for v in &self.#name {
@@ -57,6 +54,12 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
                     }
                 }
             }
+        } else if crate::is_vec(ty) {
+            quote::quote! {
+                for v in &self.#name {
+                    s.push_str(&crate::ser::field(#field_name, v)?);
+                }
+            }
         } else {
             quote::quote! {
                 s.push_str(&crate::ser::field(#field_name, &self.#name)?);
-- 
2.43.0


From 2d4557ae902dcdd98444264552c1c72dd86f84fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 34/47] fix: write the unknown properties under their own name

They were joined as the value of an X-PROP or IANA-PROP property, after the
sub-components.
---
 derive/src/component.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 588e824..3ef7ab5 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -30,6 +30,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
     let mut new_body = Vec::new();
     let mut from_body = Vec::new();
     let mut ser_body = Vec::new();
+    let mut ser_components = Vec::new();
 
     for field in fields {
         let name = &field.ident;
@@ -66,7 +67,18 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             }
         };
 
-        ser_body.push(ser_part);
+        // The components follow the properties, even those without field.
+        if field_params.ignore && crate::is_vec(ty) {
+            ser_components.push(ser_part);
+        } else if field_params.ignore {
+            ser_body.push(quote::quote! {
+                for (name, v) in &self.#name {
+                    s.push_str(&crate::ser::field(name, v)?);
+                }
+            });
+        } else {
+            ser_body.push(ser_part);
+        }
 
         if field_params.ignore {
             continue;
@@ -173,6 +185,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
                 s.push_str(&name);
                 s.push_str("\r\n");
                 #(#ser_body)*
+                #(#ser_components)*
                 s.push_str("END:");
                 s.push_str(&name);
                 s.push_str("\r\n");
-- 
2.43.0


From c5809c72b166c21906ef1bc3e96697988ba6ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 35/47] fix: write properties with an empty value

A required property was missing from the output, which couldn't be read back.
---
 derive/src/component.rs |  9 ++++++++-
 src/ser.rs              | 18 +++++++-----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 3ef7ab5..f0a296d 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -47,7 +47,8 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
 
         let ser_part = if field_params.append {
             quote::quote! {
-                if self.#name.iter().all(|v| v.attr().is_none()) {
+                if self.#name.is_empty() {
+                } else if self.#name.iter().all(|v| v.attr().is_none()) {
                     s.push_str(&crate::ser::field(#field_name, &self.#name)?);
                 } else {
                     for v in &self.#name {
@@ -61,6 +62,12 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
                     s.push_str(&crate::ser::field(#field_name, v)?);
                 }
             }
+        } else if crate::is_option(ty) {
+            quote::quote! {
+                if let Some(v) = &self.#name {
+                    s.push_str(&crate::ser::field(#field_name, v)?);
+                }
+            }
         } else {
             quote::quote! {
                 s.push_str(&crate::ser::field(#field_name, &self.#name)?);
diff --git a/src/ser.rs b/src/ser.rs
index 8ecc009..14f29c8 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -168,16 +168,14 @@ pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String
     if S::component().is_some() {
         s.push_str(&ical);
     } else {
-        if !ical.is_empty() {
-            s.push_str(name);
+        s.push_str(name);
 
-            if let Some(attr) = value.attr() {
-                s.push(';');
-                s.push_str(&attr);
-            }
-            s.push(':');
-            s.push_str(&ical);
+        if let Some(attr) = value.attr() {
+            s.push(';');
+            s.push_str(&attr);
         }
+        s.push(':');
+        s.push_str(&ical);
 
         // Only a text can hold line breaks, which are already escaped.
         if s.contains(['\r', '\n']) {
@@ -189,9 +187,7 @@ pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String
             s = lines.join("\r\n ");
         }
 
-        if !s.is_empty() {
-            s.push_str("\r\n");
-        }
+        s.push_str("\r\n");
     }
 
     Ok(s)
-- 
2.43.0


From 196c8150b9258a1c9b8f6cdb77f3188c16a8f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 36/47] fix: monthly and yearly recurrences skip the dates
 which don't exist

A yearly recurrence of the 29th of February panicked, a monthly one of the 31st
moved to the 28th for good, and a monthly one of a local time panicked when that
time is skipped or repeated by the time zone.
---
 src/properties/recur.rs | 47 +++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/properties/recur.rs b/src/properties/recur.rs
index edd359f..4b2f4cf 100644
--- a/src/properties/recur.rs
+++ b/src/properties/recur.rs
@@ -55,6 +55,28 @@ impl std::str::FromStr for Recur {
     }
 }
 
+/**
+ * The same day of the month, `months` later or, when there is no such day, a multiple of `months`
+ * later.
+ */
+fn add_months(date: chrono::NaiveDate, months: u32) -> chrono::NaiveDate {
+    (1..)
+        .map(|n| date + chrono::Months::new(n * months))
+        .find(|x| x.day() == date.day())
+        .unwrap()
+}
+
+/**
+ * A time skipped by the local time zone is read with the offset in effect before the gap.
+ */
+fn local(date: chrono::NaiveDateTime) -> chrono::DateTime<chrono::Local> {
+    let hour = chrono::TimeDelta::hours(1);
+
+    date.and_local_timezone(chrono::Local)
+        .earliest()
+        .unwrap_or_else(|| local(date - hour) + hour)
+}
+
 impl std::ops::Add<crate::Date> for crate::Recur {
     type Output = crate::Date;
 
@@ -81,8 +103,8 @@ impl std::ops::Add<chrono::NaiveDate> for crate::Recur {
             Freq::Hourly => return rhs,
             Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
             Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
+            Freq::Monthly => return add_months(rhs, self.interval.into()),
+            Freq::Yearly => return add_months(rhs, 12 * u32::from(self.interval)),
         };
 
         rhs + interval
@@ -110,8 +132,17 @@ impl std::ops::Add<chrono::DateTime<chrono::Local>> for crate::Recur {
             Freq::Hourly => chrono::TimeDelta::hours(self.interval.into()),
             Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
             Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
+            Freq::Monthly => {
+                return local(
+                    add_months(rhs.date_naive(), self.interval.into()).and_time(rhs.time()),
+                );
+            }
+            Freq::Yearly => {
+                return local(
+                    add_months(rhs.date_naive(), 12 * u32::from(self.interval))
+                        .and_time(rhs.time()),
+                );
+            }
         };
 
         rhs + interval
@@ -128,8 +159,12 @@ impl std::ops::Add<chrono::NaiveDateTime> for crate::Recur {
             Freq::Hourly => chrono::TimeDelta::hours(self.interval.into()),
             Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
             Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
+            Freq::Monthly => {
+                return add_months(rhs.date(), self.interval.into()).and_time(rhs.time());
+            }
+            Freq::Yearly => {
+                return add_months(rhs.date(), 12 * u32::from(self.interval)).and_time(rhs.time());
+            }
         };
 
         rhs + interval
-- 
2.43.0


From ea047552f74ac7b728a11e6f2b912a25bf9998d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 37/47] fix: a recurrence whose interval isn't set goes forward

The same occurrence was repeated, for ever when it was excluded.
---
 src/properties/recur.rs | 45 ++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/properties/recur.rs b/src/properties/recur.rs
index 4b2f4cf..38d380e 100644
--- a/src/properties/recur.rs
+++ b/src/properties/recur.rs
@@ -55,6 +55,15 @@ impl std::str::FromStr for Recur {
     }
 }
 
+impl Recur {
+    /**
+     * The interval is a positive number, 1 when it isn't set.
+     */
+    fn step(&self) -> u8 {
+        self.interval.max(1)
+    }
+}
+
 /**
  * The same day of the month, `months` later or, when there is no such day, a multiple of `months`
  * later.
@@ -101,10 +110,10 @@ impl std::ops::Add<chrono::NaiveDate> for crate::Recur {
             Freq::Secondly => return rhs,
             Freq::Minutely => return rhs,
             Freq::Hourly => return rhs,
-            Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
-            Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return add_months(rhs, self.interval.into()),
-            Freq::Yearly => return add_months(rhs, 12 * u32::from(self.interval)),
+            Freq::Daily => chrono::TimeDelta::days(self.step().into()),
+            Freq::Weekly => chrono::TimeDelta::weeks(self.step().into()),
+            Freq::Monthly => return add_months(rhs, self.step().into()),
+            Freq::Yearly => return add_months(rhs, 12 * u32::from(self.step())),
         };
 
         rhs + interval
@@ -127,19 +136,19 @@ impl std::ops::Add<chrono::DateTime<chrono::Local>> for crate::Recur {
 
     fn add(self, rhs: chrono::DateTime<chrono::Local>) -> Self::Output {
         let interval = match self.freq {
-            Freq::Secondly => chrono::TimeDelta::seconds(self.interval.into()),
-            Freq::Minutely => chrono::TimeDelta::minutes(self.interval.into()),
-            Freq::Hourly => chrono::TimeDelta::hours(self.interval.into()),
-            Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
-            Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
+            Freq::Secondly => chrono::TimeDelta::seconds(self.step().into()),
+            Freq::Minutely => chrono::TimeDelta::minutes(self.step().into()),
+            Freq::Hourly => chrono::TimeDelta::hours(self.step().into()),
+            Freq::Daily => chrono::TimeDelta::days(self.step().into()),
+            Freq::Weekly => chrono::TimeDelta::weeks(self.step().into()),
             Freq::Monthly => {
                 return local(
-                    add_months(rhs.date_naive(), self.interval.into()).and_time(rhs.time()),
+                    add_months(rhs.date_naive(), self.step().into()).and_time(rhs.time()),
                 );
             }
             Freq::Yearly => {
                 return local(
-                    add_months(rhs.date_naive(), 12 * u32::from(self.interval))
+                    add_months(rhs.date_naive(), 12 * u32::from(self.step()))
                         .and_time(rhs.time()),
                 );
             }
@@ -154,16 +163,16 @@ impl std::ops::Add<chrono::NaiveDateTime> for crate::Recur {
 
     fn add(self, rhs: chrono::NaiveDateTime) -> Self::Output {
         let interval = match self.freq {
-            Freq::Secondly => chrono::TimeDelta::seconds(self.interval.into()),
-            Freq::Minutely => chrono::TimeDelta::minutes(self.interval.into()),
-            Freq::Hourly => chrono::TimeDelta::hours(self.interval.into()),
-            Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
-            Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
+            Freq::Secondly => chrono::TimeDelta::seconds(self.step().into()),
+            Freq::Minutely => chrono::TimeDelta::minutes(self.step().into()),
+            Freq::Hourly => chrono::TimeDelta::hours(self.step().into()),
+            Freq::Daily => chrono::TimeDelta::days(self.step().into()),
+            Freq::Weekly => chrono::TimeDelta::weeks(self.step().into()),
             Freq::Monthly => {
-                return add_months(rhs.date(), self.interval.into()).and_time(rhs.time());
+                return add_months(rhs.date(), self.step().into()).and_time(rhs.time());
             }
             Freq::Yearly => {
-                return add_months(rhs.date(), 12 * u32::from(self.interval)).and_time(rhs.time());
+                return add_months(rhs.date(), 12 * u32::from(self.step())).and_time(rhs.time());
             }
         };
 
-- 
2.43.0


From 057490811edd83af4631d893db593953cd1a386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 38/47] fix: the bounds and exceptions of a recurrence apply to
 its occurrences

UNTIL was compared with the date of the previous candidate only, whatever its
time, and dropped the last occurrence when the following one was excluded. The
start wasn't excluded by EXDATE, and the excluded occurrences weren't part of
COUNT.
---
 src/iter.rs | 43 +++++++++++++++----------------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 89c08c9..b9ca32b 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -133,45 +133,32 @@ impl<T: Recurring> Iterator for Recur<T> {
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let current = self.item.clone();
-
-        let mut next = self.item.clone();
-
         loop {
-            let dtstart = next.dtstart()?;
-            let mut rrule = next.rrule()?.clone();
+            let current = self.item.clone();
+            let start = *current.dtstart()?;
+            let mut rrule = current.rrule()?.clone();
 
-            if let Some(until) = &rrule.until {
-                if dtstart.date_naive() > until.date_naive() {
-                    return None;
-                }
+            if rrule.until.is_some_and(|until| start > until) {
+                return None;
             }
 
-            let dtstart = rrule.clone() + *dtstart;
-            next.set_dtstart(dtstart);
-
-            if let Some(dtend) = next.dtend() {
-                let dtend = rrule.clone() + *dtend;
-                next.set_dtend(dtend);
+            if let Some(count) = rrule.count.as_mut() {
+                *count = count.checked_sub(1)?;
+                self.item.set_rrule(rrule.clone());
             }
 
-            next.set_rrule(rrule.clone());
+            let dtstart = rrule.clone() + start;
+            self.item.set_dtstart(dtstart);
 
-            if next.exdate().contains(&dtstart) {
-                continue;
+            if let Some(dtend) = current.dtend() {
+                let dtend = rrule.clone() + *dtend;
+                self.item.set_dtend(dtend);
             }
 
-            if let Some(count) = rrule.count.as_mut() {
-                *count = count.checked_sub(1)?;
-                next.set_rrule(rrule.clone());
+            if !current.exdate().contains(&start) {
+                return Some(current);
             }
-
-            break;
         }
-
-        self.item = next;
-
-        Some(current)
     }
 }
 
-- 
2.43.0


From 4c4f237e37cd67e2921a7ec786667be8f2cf6ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 39/47] fix: the occurrences of an event last as long as the
 event

The rule was applied to the start and to the end separately, which could skip
different months.
---
 src/iter.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index b9ca32b..23bda4f 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -129,6 +129,24 @@ impl<T: Recurring> Recur<T> {
     }
 }
 
+/**
+ * Moves a date as far as `from` is from `to`.
+ */
+fn shift(date: crate::Date, from: crate::Date, to: crate::Date) -> crate::Date {
+    use crate::DateTime::Local;
+
+    let delta = match (from.into(), to.into()) {
+        (Local(from), Local(to)) => to - from,
+        (from, to) => to - from,
+    };
+
+    if from.has_time() == to.has_time() {
+        date + delta
+    } else {
+        (crate::DateTime::from(date) + delta).into()
+    }
+}
+
 impl<T: Recurring> Iterator for Recur<T> {
     type Item = T;
 
@@ -147,12 +165,11 @@ impl<T: Recurring> Iterator for Recur<T> {
                 self.item.set_rrule(rrule.clone());
             }
 
-            let dtstart = rrule.clone() + start;
+            let dtstart = rrule + start;
             self.item.set_dtstart(dtstart);
 
             if let Some(dtend) = current.dtend() {
-                let dtend = rrule.clone() + *dtend;
-                self.item.set_dtend(dtend);
+                self.item.set_dtend(shift(*dtend, start, dtstart));
             }
 
             if !current.exdate().contains(&start) {
-- 
2.43.0


From 46d2e5bc8a4a4eb338fbf9f1c661fc4157f0be66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 40/47] fix: the occurrences of a to-do have their own due date

---
 src/iter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iter.rs b/src/iter.rs
index 23bda4f..a9f8de4 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -172,6 +172,10 @@ impl<T: Recurring> Iterator for Recur<T> {
                 self.item.set_dtend(shift(*dtend, start, dtstart));
             }
 
+            if let Some(due) = current.due() {
+                self.item.set_due(shift(*due, start, dtstart));
+            }
+
             if !current.exdate().contains(&start) {
                 return Some(current);
             }
-- 
2.43.0


From 480328281df873b2c0a26c6d799b9dcd0918de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 41/47] fix: compare the periods written with a duration by
 their duration

Like those written with an end, and like a period of any form.
---
 src/properties/period.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/properties/period.rs b/src/properties/period.rs
index e361c76..c70b9d5 100644
--- a/src/properties/period.rs
+++ b/src/properties/period.rs
@@ -109,10 +109,7 @@ impl std::cmp::PartialOrd for StartDur {
 
 impl std::cmp::Ord for StartDur {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        let a = self.start - self.duration;
-        let b = other.start - other.duration;
-
-        a.cmp(&b)
+        self.duration.cmp(&other.duration)
     }
 }
 
-- 
2.43.0


From 3c69feabff46adc1d032c0edb3b8f4c565d7926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 42/47] fix: reading an audio, display or email alarm alone
 doesn't panic

---
 src/parser/components.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index f13cd9a..75567b8 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -1,7 +1,7 @@
 use nom::Parser as _;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::combinator::{map, map_res};
+use nom::combinator::{map, map_opt, map_res};
 use nom::error::{FromExternalError, context};
 use nom::multi::many0;
 use nom::sequence::delimited;
@@ -31,17 +31,21 @@ component!(vjournal, crate::VJournal);
 component!(standard, crate::vtimezone::Standard);
 component!(daylight, crate::vtimezone::Daylight);
 
-pub(crate) fn audio(_: &str) -> super::NomResult<&str, crate::valarm::Audio> {
-    unreachable!()
-}
-
-pub(crate) fn display(_: &str) -> super::NomResult<&str, crate::valarm::Display> {
-    unreachable!()
+macro_rules! alarm {
+    ($name:ident, $variant:ident) => {
+        pub(crate) fn $name(input: &str) -> super::NomResult<&str, crate::valarm::$variant> {
+            map_opt(valarm, |x| match x {
+                crate::VAlarm::$variant(alarm) => Some(alarm),
+                _ => None,
+            })
+            .parse(input)
+        }
+    };
 }
 
-pub(crate) fn email(_: &str) -> super::NomResult<&str, crate::valarm::Email> {
-    unreachable!()
-}
+alarm!(audio, Audio);
+alarm!(display, Display);
+alarm!(email, Email);
 
 pub(crate) fn vevent(input: &str) -> super::NomResult<&str, crate::VEvent> {
     context(
-- 
2.43.0


From 5a4e87ca715fc7c74b01cfe46c95d918bd8c7f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 43/47] fix: reject UTC offsets followed by anything else

---
 src/parser/datatype.rs | 13 +++++++++++++
 src/parser/timezone.rs |  4 ++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 238a959..cfeba74 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -208,3 +208,16 @@ pub(crate) fn text(input: crate::ContentLine) -> crate::Result<crate::Text> {
 pub(crate) fn uri(input: &str) -> crate::Result<String> {
     Ok(input.to_string())
 }
+
+/**
+ * See [3.3.14. UTC Offset](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.14)
+ *
+ * chrono ignores what follows the minutes.
+ */
+pub(crate) fn utc_offset(input: &str) -> crate::Result<chrono::FixedOffset> {
+    let digits = input.strip_prefix(['+', '-']).unwrap_or_default();
+
+    fixed_width(digits, "9999").or_else(|_| fixed_width(digits, "999999"))?;
+
+    input.parse().map_err(crate::Error::from)
+}
diff --git a/src/parser/timezone.rs b/src/parser/timezone.rs
index 3a6ce6b..9b264ba 100644
--- a/src/parser/timezone.rs
+++ b/src/parser/timezone.rs
@@ -22,14 +22,14 @@ pub(crate) fn tzname(input: crate::ContentLine) -> crate::Result<crate::Text> {
 pub(crate) fn tzoffsetfrom(
     input: crate::ContentLine,
 ) -> crate::Result<chrono::offset::FixedOffset> {
-    input.value.parse().map_err(crate::Error::from)
+    super::datatype::utc_offset(&input.value)
 }
 
 /**
  * See [3.8.3.4. Time Zone Offset To](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.3.4)
  */
 pub(crate) fn tzoffsetto(input: crate::ContentLine) -> crate::Result<chrono::offset::FixedOffset> {
-    input.value.parse().map_err(crate::Error::from)
+    super::datatype::utc_offset(&input.value)
 }
 
 /**
-- 
2.43.0


From 2c343b76a9949f0d8b16a900e3d858c38e1a8972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 44/47] fix: keep the parameters of categories and resources

---
 src/parser/descriptive.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index 9584b61..9b80e58 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -15,7 +15,10 @@ pub(crate) fn attach(input: crate::ContentLine) -> crate::Result<crate::Text> {
 pub(crate) fn categories(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
     Ok(super::split(&input.value, ',')
         .into_iter()
-        .map(crate::Text::from)
+        .map(|x| crate::Text {
+            params: input.params.clone(),
+            text: x.to_string(),
+        })
         .collect())
 }
 
@@ -94,7 +97,10 @@ pub(crate) fn priority(input: crate::ContentLine) -> crate::Result<u8> {
 pub(crate) fn resources(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
     Ok(super::split(&input.value, ',')
         .into_iter()
-        .map(crate::Text::from)
+        .map(|x| crate::Text {
+            params: input.params.clone(),
+            text: x.to_string(),
+        })
         .collect())
 }
 
-- 
2.43.0


From 672d2fd6483e34f88f9f5f61873d29d89666519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 45/47] fix: a double quote doesn't end the value of a
 parameter

---
 src/ser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index 14f29c8..7bdc564 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -121,12 +121,16 @@ impl<K: ToString, V: ToString> Serialize for std::collections::BTreeMap<K, V> {
 
 /**
  * See [3.2. Property Parameters](https://datatracker.ietf.org/doc/html/rfc5545#section-3.2)
+ *
+ * A parameter can't hold a double quote.
  */
 fn quote(s: &str) -> String {
-    if s.contains([':', ';', ',']) && !s.contains('"') {
+    let s = s.replace('"', "'");
+
+    if s.contains([':', ';', ',']) {
         format!("\"{s}\"")
     } else {
-        s.to_string()
+        s
     }
 }
 
-- 
2.43.0


From 5ef93835f617c33c909c4f347b0baf9114d16b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 46/47] fix: write an audio, display or email alarm alone as an
 alarm

---
 derive/src/component.rs  | 14 +++++++++++---
 src/components/valarm.rs | 15 +++++----------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index f0a296d..f3e7cf0 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -1,6 +1,12 @@
-use darling::FromField;
+use darling::{FromDeriveInput, FromField};
 use quote::ToTokens as _;
 
+#[derive(Default, FromDeriveInput)]
+#[darling(attributes(component), default)]
+struct Component {
+    pub rename: Option<String>,
+}
+
 #[derive(Clone, Default, Debug, FromField)]
 #[darling(attributes(component))]
 pub(crate) struct Field {
@@ -23,7 +29,9 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
     };
 
     let name = &ast.ident;
-    let name_str = name.to_token_stream().to_string();
+    let name_str = Component::from_derive_input(ast)?
+        .rename
+        .unwrap_or_else(|| name.to_token_stream().to_string().to_uppercase());
     let parser = quote::format_ident!("{}", name.to_string().to_lowercase());
     let (impl_generics, ty_generics, where_clause) = ast.generics.split_for_impl();
 
@@ -181,7 +189,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
         #[automatically_derived]
         impl #impl_generics crate::ser::Serialize for #name #ty_generics #where_clause {
             fn component() -> Option<String> {
-                #name_str.to_uppercase().into()
+                #name_str.to_string().into()
             }
 
             fn ical(&self) -> crate::Result<::std::string::String> {
diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 5527cd0..e1c087c 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -61,23 +61,16 @@ impl crate::ser::Serialize for VAlarm {
     }
 
     fn ical(&self) -> crate::Result<String> {
-        let s = match self {
+        match self {
             Self::Audio(audio) => audio.ical(),
             Self::Display(display) => display.ical(),
             Self::Email(email) => email.ical(),
-        }?;
-
-        let mut lines = s.split("\n").collect::<Vec<_>>();
-        lines[0] = "BEGIN:VALARM\r";
-        lines.pop();
-        lines.pop();
-        lines.push("END:VALARM\r\n");
-
-        Ok(lines.join("\n"))
+        }
     }
 }
 
 #[derive(Clone, Debug, Default, Eq, PartialEq, crate::Component)]
+#[component(rename = "VALARM")]
 pub struct Audio {
     pub action: crate::Text,
     pub trigger: crate::Trigger,
@@ -106,6 +99,7 @@ impl From<Audio> for VAlarm {
 }
 
 #[derive(Clone, Debug, Default, Eq, PartialEq, crate::Component)]
+#[component(rename = "VALARM")]
 pub struct Display {
     pub action: crate::Text,
     pub trigger: crate::Trigger,
@@ -134,6 +128,7 @@ impl From<Display> for VAlarm {
 }
 
 #[derive(Clone, Debug, Default, Eq, PartialEq, crate::Component)]
+#[component(rename = "VALARM")]
 pub struct Email {
     pub action: crate::Text,
     pub trigger: crate::Trigger,
-- 
2.43.0


From fc7839865fbfac600d54e8b4aa53f712910e2f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 47/47] fix: compare and subtract two instants as instants

On the local wall clock, the hour which is repeated when the offset changes
was out of order, and the difference of two instants on both sides of a change
was an hour too long or too short.
---
 src/iter.rs            |  7 +------
 src/properties/date.rs | 10 ++++++++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index a9f8de4..afebde0 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -133,12 +133,7 @@ impl<T: Recurring> Recur<T> {
  * Moves a date as far as `from` is from `to`.
  */
 fn shift(date: crate::Date, from: crate::Date, to: crate::Date) -> crate::Date {
-    use crate::DateTime::Local;
-
-    let delta = match (from.into(), to.into()) {
-        (Local(from), Local(to)) => to - from,
-        (from, to) => to - from,
-    };
+    let delta = crate::DateTime::from(to) - crate::DateTime::from(from);
 
     if from.has_time() == to.has_time() {
         date + delta
diff --git a/src/properties/date.rs b/src/properties/date.rs
index 519a5b1..f548989 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -86,7 +86,10 @@ impl std::ops::Sub for DateTime {
     type Output = chrono::Duration;
 
     fn sub(self, rhs: Self) -> Self::Output {
-        self.naive().sub(rhs.naive())
+        match (self, rhs) {
+            (Self::Local(a), Self::Local(b)) => a.signed_duration_since(b),
+            _ => self.naive().sub(rhs.naive()),
+        }
     }
 }
 
@@ -134,7 +137,10 @@ impl std::cmp::PartialOrd for DateTime {
 
 impl std::cmp::Ord for DateTime {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        self.naive().cmp(&other.naive())
+        match (self, other) {
+            (Self::Local(a), Self::Local(b)) => a.cmp(b),
+            _ => self.naive().cmp(&other.naive()),
+        }
     }
 }
 
-- 
2.43.0

