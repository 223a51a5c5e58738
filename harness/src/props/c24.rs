//! Schedules from settings.
use super::{c19, c23};
use crate::conf::{self, Layout, Sec};
use crate::engine::*;
use crate::sched::{self, Window};
use crate::tape::Tape;
use chrono::{NaiveTime, Weekday};
use chrono_tz::Tz;
use fix_rs::session::SessionSchedule;

pub static PROP: Prop = Prop {
    id: "C24",
    rule: "A case is a generated valid configuration with 1..3 sessions in which start and end time, start and end day and time zone \
stand in the section, in [Default], in both or in neither (so that every combination of present and absent occurs), written in the accepted \
spellings or, one case in six, unparsable. The schedule created for each session must be refused when the settings in effect are incomplete, and \
otherwise answer as the reference window at 6 instants around its ends. Non-trivial: a setting of the schedule overridden by the section; \
distinct by text.",
    quick: 500_000,
    thorough: 4_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("every combination of present settings", combos)],
    assumptions: &["times are written HH:MM:SS, days as English names or three-letter abbreviations in any case, zones by tz database name"],
};

const KEYS: [&str; 5] = ["start_time", "end_time", "start_day", "end_day", "default_timezone"];

fn day(d: Weekday, style: usize) -> String {
    let long = match d {
        Weekday::Mon => "Monday",
        Weekday::Tue => "Tuesday",
        Weekday::Wed => "Wednesday",
        Weekday::Thu => "Thursday",
        Weekday::Fri => "Friday",
        Weekday::Sat => "Saturday",
        Weekday::Sun => "Sunday",
    };
    match style {
        0 => long.into(),
        1 => long[..3].into(),
        2 => long.to_lowercase(),
        3 => long[..3].to_uppercase(),
        _ => long[..3].to_lowercase(),
    }
}

#[derive(Clone, Debug)]
enum Val {
    Time(NaiveTime),
    Day(Weekday),
    Zone(Tz),
    Bad,
}
fn gen_val(t: &mut Tape, k: usize, bad: bool) -> (String, Val) {
    if bad && t.chance(1, 4) {
        let s: &str = match k {
            0 | 1 => t.pick(&["", "25:00:00", "noon", "10:61:00", "10-00-00"]),
            2 | 3 => t.pick(&["", "Funday", "1", "Mo", "Mon Tue"]),
            _ => t.pick(&["", "Mars/Olympus", "UTC+1", "Europe"]),
        };
        return (s.into(), Val::Bad);
    }
    match k {
        0 | 1 => {
            let x = sched::gen_time(t);
            (x.format("%H:%M:%S").to_string(), Val::Time(x))
        }
        2 | 3 => {
            let d = *t.pick(&sched::DAYS);
            let style = t.usize(5);
            (day(d, style), Val::Day(d))
        }
        _ => {
            let z = sched::gen_tz(t);
            (z.name().to_string(), Val::Zone(z))
        }
    }
}

/// the window, or why the schedule must be refused
fn expected(own: &[Option<Val>; 5], dflt: &[Option<Val>; 5]) -> Result<Window, &'static str> {
    let eff: Vec<Option<Val>> = (0..5).map(|i| own[i].clone().or(dflt[i].clone())).collect();
    if eff.iter().any(|v| matches!(v, Some(Val::Bad))) {
        return Err("an unparsable setting");
    }
    let time = |i: usize| match eff[i] { Some(Val::Time(x)) => Some(x), _ => None };
    let day = |i: usize| match eff[i] { Some(Val::Day(x)) => Some(x), _ => None };
    let tz = match eff[4] { Some(Val::Zone(z)) => z, _ => Tz::UTC };
    let times = match (time(0), time(1)) {
        (Some(a), Some(b)) => Some((a, b)),
        (None, None) => None,
        _ => return Err("one time without the other"),
    };
    let days = match (day(2), day(3)) {
        (Some(a), Some(b)) => Some((a, b)),
        (None, None) => None,
        _ => return Err("one day without the other"),
    };
    if times.is_none() && days.is_some() {
        return Err("days without times");
    }
    Ok(Window { times, days, tz })
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut c = conf::valid(t, 2, false);
    if c.secs.len() == 1 {
        let mut s = Sec::default();
        for (k, v) in [("begin_string", "FIX.4.3"), ("sender_comp_id", "S"), ("target_comp_id", "T"), ("socket_accept_port", "1"), ("socket_connect_port", "1"), ("socket_connect_host", "h")] {
            s.set(k, v);
        }
        c.secs.push(s);
    }
    let bad = t.chance(1, 6);
    // settings usually come in pairs
    let mut vals: Vec<[Option<Val>; 5]> = vec![];
    for i in 0..c.secs.len() {
        let mut v: [Option<Val>; 5] = Default::default();
        let pairs = [t.chance(2, 3), t.chance(1, 2)];
        for k in 0..5 {
            let put = if k < 4 && t.chance(5, 6) { pairs[k / 2] } else { t.chance(1, 2) };
            if put {
                let (s, x) = gen_val(t, k, bad);
                c.secs[i].set(KEYS[k], s);
                v[k] = Some(x);
            }
        }
        vals.push(v);
    }
    let text = c.render(&Layout::gen(t));
    let props = c19::load(&text).map_err(|m| fail("refused", format!("a valid configuration is refused: {}", m), text.clone()))?;
    let (_, instants, _) = sched::gen(t, 2);
    for i in 1..c.secs.len() {
        let sid = conf::build_id(&c.id(&c.secs[i]));
        let r = guard(|| SessionSchedule::create_schedule(&sid, &props));
        let (own, dflt) = (&vals[i], &vals[0]);
        if (0..5).any(|k| own[k].is_some() && dflt[k].is_some()) {
            ctx.nontrivial();
            ctx.key(&text);
            ctx.sample(|| clip(&text, 600));
        }
        match (expected(own, dflt), r) {
            (Ok(w), Ok(sch)) => {
                ctx.label(match (w.times, w.days) {
                    (None, _) => "non-stop",
                    (_, None) => "daily",
                    _ => "weekly",
                });
                let mut ask = instants.clone();
                if let Some((s, e)) = w.times {
                    for _ in 0..4 {
                        let d = sched::at(t.below(sched::LAST as u64) as i64).date();
                        let mut l = d.and_time(if t.flip() { s } else { e });
                        if let Some((a, b)) = w.days {
                            while l.date() < d + chrono::Duration::days(7) && chrono::Datelike::weekday(&l) != if t.flip() { a } else { b } {
                                l += chrono::Duration::days(1);
                            }
                        }
                        let off = sched::offset(w.tz, l);
                        ask.push(((sched::secs(l) - off + t.below(3) as i64 - 1).clamp(0, sched::LAST), 0));
                    }
                }
                for i in ask {
                    c23::ask(&sch, &w, i).map_err(|f| fail(&f.sig, format!("session {}: {} ({})", sid, f.msg, f.repro), text.clone()))?;
                }
            }
            (Err(why), Err(_)) => ctx.label(&format!("refused: {}", why)),
            (Ok(_), Err(m)) => return Err(fail("panic", format!("creating the schedule of {} panics: {}", sid, m), text)),
            (Err(why), Ok(_)) => return Err(fail("accepted", format!("a schedule with {} is created for {}", why, sid), text)),
        }
    }
    Ok(())
}

fn combos(_: &mut Ctx) -> Res {
    let val = |k: usize, n: u32| match k {
        0 => ("09:00:00".to_string(), Val::Time(NaiveTime::from_hms(9, 0, 0))),
        1 => (format!("1{}:00:00", n), Val::Time(NaiveTime::from_hms(10 + n, 0, 0))),
        2 => ("Tue".to_string(), Val::Day(Weekday::Tue)),
        3 => ("thursday".to_string(), Val::Day(Weekday::Thu)),
        _ => ("Asia/Tokyo".to_string(), Val::Zone(Tz::Asia__Tokyo)),
    };
    for mask in 0..1usize << 10 {
        let mut secs = [Sec { default: true, kv: vec![("connection_type".into(), "acceptor".into()), ("begin_string".into(), "FIX.4.3".into()), ("socket_accept_port".into(), "1".into())] }, Sec { default: false, kv: vec![("sender_comp_id".into(), "S".into()), ("target_comp_id".into(), "T".into())] }];
        let mut vals: [[Option<Val>; 5]; 2] = Default::default();
        for b in 0..10 {
            if mask >> b & 1 == 1 {
                let (s, v) = val(b % 5, (b / 5) as u32 * 5);
                secs[b / 5].set(KEYS[b % 5], s);
                vals[b / 5][b % 5] = Some(v);
            }
        }
        let c = conf::Conf { secs: secs.to_vec() };
        let text = c.render(&Layout::plain());
        let props = c19::load(&text).map_err(|m| fail("refused", m, text.clone()))?;
        let sid = conf::build_id(&c.id(&c.secs[1]));
        match (expected(&vals[1], &vals[0]), guard(|| SessionSchedule::create_schedule(&sid, &props))) {
            (Ok(w), Ok(sch)) => {
                for h in 0..8 * 24 {
                    c23::ask(&sch, &w, (1_650_000_000 - 1_650_000_000 % 86400 + h * 3600, 0)).map_err(|f| fail(&f.sig, format!("{} ({})", f.msg, f.repro), text.clone()))?;
                }
            }
            (Err(_), Err(_)) => {}
            (Ok(_), Err(m)) => return Err(fail("panic", format!("creating the schedule panics: {}", m), text)),
            (Err(why), Ok(_)) => return Err(fail("accepted", format!("a schedule with {} is created", why), text)),
        }
    }
    Ok(())
}
