//! Session schedules: a reference model on local time, and instants worth asking about.
use crate::tape::Tape;
use chrono::{Datelike, Duration, NaiveDate, NaiveDateTime, NaiveTime, Offset, TimeZone, Timelike, Weekday};
use chrono_tz::{Tz, TZ_VARIANTS};

pub const DAYS: [Weekday; 7] = [Weekday::Mon, Weekday::Tue, Weekday::Wed, Weekday::Thu, Weekday::Fri, Weekday::Sat, Weekday::Sun];

#[derive(Clone, Debug, PartialEq)]
pub struct Window {
    pub times: Option<(NaiveTime, NaiveTime)>,
    pub days: Option<(Weekday, Weekday)>,
    pub tz: Tz,
}

pub fn offset(tz: Tz, utc: NaiveDateTime) -> i64 {
    tz.offset_from_utc_datetime(&utc).fix().local_minus_utc() as i64
}
pub fn local(tz: Tz, utc: NaiveDateTime) -> NaiveDateTime {
    utc + Duration::seconds(offset(tz, utc))
}
fn nanos(t: NaiveTime) -> i128 {
    t.num_seconds_from_midnight() as i128 * 1_000_000_000 + t.nanosecond() as i128
}
const DAY: i128 = 86_400 * 1_000_000_000;

impl Window {
    /// positions on a circle of a day or a week
    pub fn active(&self, utc: NaiveDateTime) -> bool {
        let Some((st, en)) = self.times else { return true };
        let l = local(self.tz, utc);
        let (s, e, n) = match self.days {
            None => (nanos(st), nanos(en), nanos(l.time())),
            Some((sd, ed)) => {
                let at = |d: Weekday, t: NaiveTime| d.number_from_monday() as i128 * DAY + nanos(t);
                (at(sd, st), at(ed, en), at(l.weekday(), l.time()))
            }
        };
        let len = if e >= s { e - s } else { e - s + if self.days.is_some() { 7 * DAY } else { DAY } };
        let since = (n - s).rem_euclid(if self.days.is_some() { 7 * DAY } else { DAY });
        since <= len
    }
    pub fn wraps(&self) -> bool {
        match (self.times, self.days) {
            (Some((s, e)), None) => e < s,
            (Some((s, e)), Some((a, b))) => (b.number_from_monday(), e) < (a.number_from_monday(), s),
            _ => false,
        }
    }
}

pub fn gen_time(t: &mut Tape) -> NaiveTime {
    match t.weighted(&[3, 3, 1]) {
        0 => NaiveTime::from_hms(t.below(24) as u32, *t.pick(&[0, 30, 15, 59]), *t.pick(&[0, 0, 1, 59])),
        1 => NaiveTime::from_num_seconds_from_midnight(t.below(86400) as u32, 0),
        _ => *t.pick(&[NaiveTime::from_hms(0, 0, 0), NaiveTime::from_hms(23, 59, 59), NaiveTime::from_hms(12, 0, 0), NaiveTime::from_hms(2, 0, 0), NaiveTime::from_hms(2, 30, 0)]),
    }
}
pub fn gen_tz(t: &mut Tape) -> Tz {
    if t.flip() {
        let names = [
            "UTC", "Europe/London", "America/New_York", "Asia/Kolkata", "America/Sao_Paulo", "Africa/Cairo", "Australia/Lord_Howe", "Pacific/Apia",
            "Pacific/Kiritimati", "Asia/Kathmandu", "America/St_Johns", "Asia/Beirut", "Pacific/Auckland", "Asia/Tokyo", "Africa/Casablanca",
        ];
        if let Ok(z) = t.pick(&names).parse() {
            return z;
        }
    }
    *t.pick(&TZ_VARIANTS)
}
fn base() -> NaiveDateTime {
    NaiveDate::from_ymd(1970, 1, 1).and_hms(0, 0, 0)
}
pub const LAST: i64 = 4_000_000_000;
pub fn at(secs: i64) -> NaiveDateTime {
    base() + Duration::seconds(secs)
}
pub fn secs(d: NaiveDateTime) -> i64 {
    (d - base()).num_seconds()
}
/// the first second of another offset after a random moment, if there is one within 400 days
pub fn transition(t: &mut Tape, tz: Tz) -> Option<i64> {
    let s = t.below(2_100_000_000) as i64;
    let mut lo = s;
    let o = offset(tz, at(s));
    let mut hi = None;
    for d in (0..400).step_by(8) {
        let x = s + d * 86400;
        if offset(tz, at(x)) != o {
            hi = Some(x);
            break;
        }
        lo = x;
    }
    let mut hi = hi?;
    while hi - lo > 1 {
        let m = lo + (hi - lo) / 2;
        if offset(tz, at(m)) == o { lo = m } else { hi = m }
    }
    Some(hi)
}
/// A window, and instants around its ends, around an offset change, and anywhere
pub fn gen(t: &mut Tape, n: usize) -> (Window, Vec<(i64, u32)>, bool) {
    let tz = gen_tz(t);
    let tr = if t.chance(1, 2) { transition(t, tz) } else { None };
    let mut times = (gen_time(t), gen_time(t));
    if let Some(x) = tr {
        // a window that starts or ends close to the change, also inside the hour that does not exist
        if t.flip() {
            let l = [local(tz, at(x)), local(tz, at(x - 1))];
            let near = *t.pick(&l) + Duration::seconds(*t.pick(&[0, -1800, 1800, -3600, 3600, 1, -1]));
            if t.flip() { times.0 = near.time() } else { times.1 = near.time() }
        }
    }
    if t.chance(1, 12) {
        times.1 = times.0;
    }
    let days = if t.flip() { Some((*t.pick(&DAYS), *t.pick(&DAYS))) } else { None };
    let w = Window { times: if t.chance(1, 16) { None } else { Some(times) }, days, tz };
    let w = Window { days: if w.times.is_none() { None } else { w.days }, ..w };
    let mut v = vec![];
    for _ in 0..n {
        let (mut s, mut ns) = match t.weighted(&[3, 2, 2]) {
            0 => {
                // near an end of the window, on some day
                let day = match tr {
                    Some(x) if t.flip() => local(tz, at(x)).date() + Duration::days(t.below(5) as i64 - 2),
                    _ => at(t.below(LAST as u64) as i64).date(),
                };
                let mut l = day.and_time(if t.flip() { times.0 } else { times.1 });
                if let Some((a, b)) = days {
                    let want = if l.time() == times.0 { a } else { b };
                    while l.weekday() != want {
                        l += Duration::days(1);
                    }
                }
                let off = offset(tz, l - Duration::seconds(offset(tz, l)));
                (secs(l) - off, 0u32)
            }
            1 => match tr {
                Some(x) => (x + *t.pick(&[0i64, -1, 1, -3600, 3600, 1800, -1800, 7200, -7200, 86400]), 0),
                None => (t.below(LAST as u64) as i64, 0),
            },
            _ => (t.below(LAST as u64) as i64, t.below(1_000_000_000) as u32),
        };
        match t.usize(6) {
            0 => {}
            1 => s += 1,
            2 => s -= 1,
            3 => ns = 1,
            4 => {
                s -= 1;
                ns = 999_999_999
            }
            _ => ns = 500_000_000,
        }
        v.push((s.clamp(0, LAST), ns));
    }
    (w, v, tr.is_some())
}
pub fn show(w: &Window, i: (i64, u32)) -> String {
    let u = at(i.0) + Duration::nanoseconds(i.1 as i64);
    format!("{:?} at {} UTC, {} {} local", w, u, local(w.tz, u).weekday(), local(w.tz, u))
}
