//! Time stamps and the engine's logon.
use super::api::*;
use super::c09;
use crate::clock;
use crate::dict;
use crate::engine::*;
use crate::ensure;
use crate::msg::*;
use crate::tape::Tape;
use fix_rs::message::test_logon;

pub static PROP: Prop = Prop {
    id: "C12",
    rule: "A case is an instant between 1970 and 9999 with nanoseconds (biased to second, day, month, leap-year and \
year boundaries and to the ends of a millisecond), set as the wall clock the engine reads, and a message built by \
random operations that is stamped, plus the engine's logon made at that instant. Non-trivial: an instant within two seconds of a day \
boundary or with a sub-millisecond part; distinct by instant.",
    quick: 160_000,
    thorough: 5_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("calendar", calendar)],
    assumptions: &["the engine reads the wall clock through clock_gettime", "years 1970 to 9999"],
};

/// UTC calendar fields of an instant (days-to-civil by era, independent of chrono)
pub fn civil(secs: i64) -> (i64, u32, u32, u32, u32, u32) {
    let (mut day, sod) = (secs.div_euclid(86400), secs.rem_euclid(86400) as u32);
    let mut y = 1970;
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    y += day / 146097 * 400;
    day %= 146097;
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if day < n {
            break;
        }
        day -= n;
        y += 1;
    }
    let mut m = 0;
    let lens = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    while day >= lens[m] {
        day -= lens[m];
        m += 1;
    }
    (y, m as u32 + 1, day as u32 + 1, sod / 3600, sod / 60 % 60, sod % 60)
}
pub fn stamp(secs: i64, nanos: u32) -> String {
    let (y, mo, d, h, mi, s) = civil(secs);
    format!("{:04}{:02}{:02}-{:02}:{:02}:{:02}.{:03}", y, mo, d, h, mi, s, nanos / 1_000_000)
}

const MAX: u64 = 253_402_300_799;
fn instant(t: &mut Tape) -> (i64, u32) {
    let mut s = match t.weighted(&[2, 3, 2, 1]) {
        0 => t.range(0, MAX),
        1 => t.range(1_500_000_000, 1_900_000_000),
        2 => t.range(0, MAX / 86400) * 86400 + t.below(86400),
        // around the ends of February and of years
        _ => {
            let y = t.range(0, 8000);
            (y as f64 * 365.2425) as u64 * 86400 + [0u64, 58, 59, 60, 364, 365][t.usize(6)] * 86400
        }
    };
    if t.flip() {
        s = s / 86400 * 86400 + [0u64, 1, 59, 60, 3599, 3600, 43199, 43200, 86398, 86399][t.usize(10)];
    }
    let n = match t.weighted(&[2, 2, 1]) {
        0 => t.below(1_000_000_000),
        1 => *t.pick(&[0u64, 1, 999, 999_999, 1_000_000, 999_999_999, 999_000_000, 500_000_000, 499_999_999, 9_999_999, 10_000_000, 99_999_999]),
        _ => t.below(1000) * 1_000_000,
    };
    (s.min(MAX) as i64, n as u32)
}

pub fn logon(secs: i64, nanos: u32) -> Res {
    let at = format!("clock {}.{:09} s", secs, nanos);
    let m = clock::at(secs, nanos, || guard(test_logon)).map_err(|p| fail("panic", p, at.clone()))?;
    let text = m.to_string();
    let repro = || format!("{} logon {}", at, show(&text));
    let want = stamp(secs, nanos);
    let got = m.header().get_field::<String>(52);
    ensure!(got.as_ref() == Ok(&want), "logon-time", repro(), "SendingTime of the logon is {:?}, expected {}", got, want);
    super::c08::check(&m, &at)?;
    c09::check(&m, &at)?;
    let p = match parse(&text, dict::fix43_dd()) {
        Ok(Ok(p)) => p,
        e => return Err(fail("logon-parse", format!("the logon does not parse: {:?}", e.map(|r| r.map(|_| ()))), repro())),
    };
    let d = &dict::fix43().1;
    let ty = p.header().get_field::<String>(35);
    ensure!(ty == Ok("A".into()), "logon-type", repro(), "message type {:?}", ty);
    for (l, s, name) in [(&d.header, 0, "header"), (&d.msgs["A"], 1, "body"), (&d.trailer, 2, "trailer")] {
        let map = section(&p, s);
        for f in l.fields.iter().filter(|f| f.req) {
            ensure!(map.get_field::<String>(f.tag).is_ok(), "logon-fields", repro(), "required {} field {} is missing", name, f.tag);
        }
        for f in map.iter() {
            ensure!(l.get(f.tag()).is_some(), "logon-fields", repro(), "{} field {} is not part of a logon", name, f.tag());
        }
    }
    let x = extract(&p, &d.universe()).map_err(|e| fail("read", e, repro()))?;
    let y = extract(&m, &d.universe()).map_err(|e| fail("read", e, repro()))?;
    ensure!(x == y, "logon-parse", repro(), "the logon reads differently after parsing: {}", diff(&y, &x));
    Ok(())
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let (s, n) = instant(t);
    let mut log = String::new();
    let k = t.len(0, 8);
    let (mut msg, mut m) = history(t, k, &mut log);
    if t.chance(1, 4) {
        log.push_str("52=old ");
        set(msg.header_mut(), &mut m.s[0], 52, "old");
    }
    let want = stamp(s, n);
    let at = format!("{}clock {}.{:09} s", log, s, n);
    clock::at(s, n, || guard(|| msg.set_sending_time())).map_err(|p| fail("panic", p, at.clone()))?;
    m.s[0].fields.insert(52, want.clone());
    let got = msg.header().get_field::<String>(52);
    ensure!(got.as_ref() == Ok(&want), "time", at, "SendingTime is {:?}, expected {}", got, want);
    super::c11::compare(&msg, &m, &at)?;
    logon(s, n)?;
    let sod = s % 86400;
    if sod < 2 || sod > 86397 || n % 1_000_000 != 0 {
        ctx.nontrivial();
        ctx.key(&(s, n));
        ctx.sample(|| format!("{}.{:09} -> {}", s, n, want));
    }
    ctx.label_if(sod < 2 || sod > 86397, "day boundary");
    ctx.label_if(n % 1_000_000 != 0, "sub-millisecond part");
    ctx.label_if(want[4..8] == *"0229", "leap day");
    ctx.label_if(m.s[0].fields.len() > 1, "message with header fields");
    Ok(())
}

/// first and last second of every day of some years, every millisecond digit
fn calendar(_: &mut Ctx) -> Res {
    if stamp(1_665_045_816, 522_000_000) != "20221006-08:43:36.522" || stamp(951_782_400, 0) != "20000229-00:00:00.000" {
        return Err(fail("broken-oracle", "calendar model", ""));
    }
    for d in (0..11_000i64).chain(47_000..47_900) {
        for (o, n) in [(0, 0), (86399, 999_999_999)] {
            logon(d * 86400 + o, n)?;
        }
    }
    for ms in 0..1000u32 {
        logon(1_700_000_000, ms * 1_000_000 + 999_999)?;
    }
    Ok(())
}
