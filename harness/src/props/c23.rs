//! A session is active exactly within its schedule.
use crate::clock;
use crate::engine::*;
use crate::ensure;
use crate::sched::{self, Window, DAYS};
use crate::tape::Tape;
use chrono::{Duration, NaiveTime};
use fix_rs::session::{SessionSchedule, SessionScheduleBuilder};

pub static PROP: Prop = Prop {
    id: "C23",
    rule: "A case is a schedule (non-stop, daily or weekly, any of the time zones, start before, after or equal to the end, half of \
them near an offset change of the zone) asked at 12 instants between 1970 and 2096 set on the clock the engine reads: ends of the window and one \
nanosecond or second before and after them, offset changes and the hours around, and anywhere. The answer is compared with a reference that \
places local time on a circle of a day or week. Non-trivial: the schedule wraps or its zone changes offset near the instants; \
distinct by schedule.",
    quick: 800_000,
    thorough: 8_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("every half hour of a week, every pair of days", week), ("every zone around its changes", zones)],
    assumptions: &[
        "the zone's own offsets are taken from chrono-tz",
        "a schedule has both days or none; times without leap seconds; instants from 1970 to 2096",
    ],
};

pub fn build(t: &mut Tape, w: &Window) -> SessionSchedule {
    let zero = NaiveTime::from_hms(0, 0, 0);
    let mut w = w.clone();
    let non_stop = w.times.is_none();
    if non_stop && t.flip() {
        // a non-stop schedule is always active, whatever times and days it carries
        w.times = Some((sched::gen_time(t), sched::gen_time(t)));
        if t.flip() {
            w.days = Some((*t.pick(&DAYS), *t.pick(&DAYS)));
        }
    }
    let (s, e) = w.times.unwrap_or((zero, zero));
    if t.flip() {
        let mut b = SessionScheduleBuilder::default();
        b.start_time(s).end_time(e);
        if let Some((x, y)) = w.days {
            b.start_day(x).end_day(y);
        }
        if w.tz != chrono_tz::Tz::GMT || t.flip() {
            b.time_zone(w.tz);
        }
        if non_stop || t.flip() {
            b.is_non_stop(non_stop);
        }
        b.build().unwrap()
    } else {
        SessionSchedule::new(s, w.days.map(|d| d.0), e, w.days.map(|d| d.1), w.tz, non_stop)
    }
}

pub fn ask(sch: &SessionSchedule, w: &Window, i: (i64, u32)) -> Res {
    let want = w.active(sched::at(i.0) + Duration::nanoseconds(i.1 as i64));
    match clock::at(i.0, i.1, || guard(|| sch.is_session_time())) {
        Err(m) => Err(fail("panic", format!("is_session_time panics: {}", m), sched::show(w, i))),
        Ok(got) => {
            ensure!(got == want, "active", sched::show(w, i), "active is {}, expected {}", got, want);
            Ok(())
        }
    }
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let (w, instants, tr) = sched::gen(t, 12);
    let sch = build(t, &w);
    ctx.label(match (w.times, w.days) {
        (None, _) => "non-stop",
        (_, None) => "daily",
        _ => "weekly",
    });
    ctx.label_if(w.wraps(), "wraps");
    ctx.label_if(tr, "near an offset change");
    if w.wraps() || tr {
        ctx.nontrivial();
        ctx.key(&format!("{:?}", w));
        ctx.sample(|| sched::show(&w, instants[0]));
    }
    let mut on = 0;
    for i in instants {
        ask(&sch, &w, i)?;
        on += w.active(sched::at(i.0)) as u64;
    }
    ctx.add("asked while active", on);
    ctx.add("asked while not active", 12 - on);
    Ok(())
}

fn week(_: &mut Ctx) -> Res {
    let mut t = Tape::replay(vec![]);
    for a in DAYS {
        for b in DAYS {
            for (s, e) in [((8, 0), (17, 0)), ((17, 0), (8, 0)), ((0, 0), (0, 0)), ((12, 30), (12, 30))] {
                let w = Window {
                    times: Some((NaiveTime::from_hms(s.0, s.1, 0), NaiveTime::from_hms(e.0, e.1, 0))),
                    days: Some((a, b)),
                    tz: chrono_tz::Tz::UTC,
                };
                let sch = build(&mut t, &w);
                for h in 0..7 * 48 {
                    for d in [-1, 0, 1] {
                        ask(&sch, &w, (1_650_000_000 - 1_650_000_000 % 86400 + h * 1800 + d, 0))?;
                    }
                }
            }
        }
    }
    Ok(())
}

fn zones(_: &mut Ctx) -> Res {
    for (n, tz) in chrono_tz::TZ_VARIANTS.iter().enumerate() {
        let mut t = Tape::random(n as u64, "C23", 0, 0);
        for _ in 0..6 {
            let Some(x) = sched::transition(&mut t, *tz) else { continue };
            let mid = |s: i64| sched::local(*tz, sched::at(s)).time();
            for times in [(mid(x - 1), mid(x)), (mid(x), mid(x - 1)), (mid(x - 1800), mid(x + 1800)), (mid(x + 60), mid(x + 7200)), (mid(x - 7200), mid(x + 90))] {
                for days in [None, Some((DAYS[6], DAYS[4])), Some((DAYS[6], DAYS[6]))] {
                    let w = Window { times: Some(times), days, tz: *tz };
                    let sch = build(&mut t, &w);
                    for d in [-86400, -7200, -3600, -1, 0, 1, 1800, 3600, 5400, 7200, 86400] {
                        ask(&sch, &w, ((x + d).max(0), 0))?;
                    }
                }
            }
        }
    }
    Ok(())
}
