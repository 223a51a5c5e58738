//! BodyLength.
use super::api::*;
use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::msg::*;
use crate::tape::Tape;
use fix_rs::message::{Message, StringField};

pub static PROP: Prop = Prop {
    id: "C08",
    rule: "A case is a message built by 0..25 random operations (fields and nested groups in header, body and \
trailer, multi-byte and empty values, field orders) or parsed from a conforming text and then modified, possibly \
with a stale BodyLength or CheckSum; the body length is set once, twice, and after further changes. \
Non-trivial: a message with a group, a multi-byte value or a stale length; distinct by text.",
    quick: 220_000,
    thorough: 6_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("long messages", long), ("extreme sizes", extremes)],
    assumptions: &["tags 8, 9 and 10 stand only in header and trailer"],
};

/// a random message: built or parsed
pub fn any_message(t: &mut Tape, ctx: &mut Ctx, log: &mut String) -> Result<Message, Failure> {
    let mut m = if t.chance(1, 3) {
        let c = gen_dict(t, ctx)?;
        let text = gen_msg(t, c.d(), &GenOpt { total: 60, ..Default::default() }).text();
        log.push_str(&format!("parsed {} ", show(&text)));
        ctx.label("parsed");
        match parse(&text, c.dd()) {
            Ok(Ok(m)) => m,
            // C03 decides whether conforming messages parse
            _ => history(t, 5, log).0,
        }
    } else {
        ctx.label("built");
        let n = t.len(0, 25);
        history(t, n, log).0
    };
    if t.chance(1, 3) {
        let v = t.pick(&["0", "5", "99999999", "", "x", "12", "é"]).to_string();
        log.push_str(&format!("9={} ", v));
        m.header_mut().set_field(StringField::new(9, &v));
    }
    if t.chance(1, 3) {
        let v = t.pick(&["0", "000", "9999", "", "x", "é"]).to_string();
        log.push_str(&format!("10={} ", v));
        m.trailer_mut().set_field(StringField::new(10, &v));
    }
    Ok(m)
}

pub fn check(m: &Message, log: &str) -> Res {
    let text = m.to_string();
    let repro = || format!("{} text {}", log, show(&text));
    let Some((start, v)) = body_len_at(&text) else {
        return Err(fail("layout", "the text does not start with BeginString and BodyLength", repro()));
    };
    let (end, _) = checksum_at(&text);
    ensure!(
        v == (end - start).to_string(), "length", repro(),
        "BodyLength is {:?}, the text has {} bytes between BodyLength and CheckSum", v, end - start
    );
    let n = m.header().get_field::<usize>(9);
    ensure!(n == Ok(end - start), "length", repro(), "BodyLength reads {:?}, expected {}", n, end - start);
    Ok(())
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut log = String::new();
    let mut m = any_message(t, ctx, &mut log)?;
    let before = m.to_string();
    m.set_body_len();
    log.push_str("set_body_len ");
    check(&m, &log)?;
    let text = m.to_string();
    let multi = text.len() != text.chars().count();
    if m.body().iter().into_iter().count() > 0 && (multi || before.contains("\u{1}9=") || log.contains("group") || log.contains("parsed")) {
        ctx.nontrivial();
        ctx.key(&text);
        ctx.sample(|| show(&text));
    }
    ctx.label_if(multi, "multi-byte values");
    ctx.label_if(log.contains("group"), "groups");
    m.set_body_len();
    let again = m.to_string();
    ensure!(body_len_at(&again).map(|x| x.1) == body_len_at(&text).map(|x| x.1), "again", show(&text), "setting the body length again changes it");
    // everything else is untouched
    let strip = |s: &str| {
        let mut v: Vec<String> = fields_of(s).iter().filter(|f| tag_of(f) != "9").map(|f| f.to_string()).collect();
        v.sort();
        v
    };
    ensure!(strip(&before) == strip(&text), "touches", show(&before), "setting the body length changes other fields: {}", show(&text));
    // after further changes and a checksum it is recomputed
    let mut mm = MMsg::new();
    for _ in 0..t.len(0, 4) {
        step(t, &mut m, &mut mm, &mut log);
    }
    if t.flip() {
        log.push_str("set_checksum ");
        m.set_checksum();
    }
    if t.chance(1, 4) {
        log.push_str("set_sending_time ");
        m.set_sending_time();
    }
    m.set_body_len();
    log.push_str("set_body_len ");
    check(&m, &log)
}

fn long(_: &mut Ctx) -> Res {
    for n in [0usize, 1, 9, 10, 98, 99, 100, 255, 256, 998, 999, 1000, 65535, 65536, 300_000] {
        for c in ["x", "é"] {
            let mut m = Message::new();
            m.header_mut().set_field(StringField::new(8, "FIX.4.3"));
            m.header_mut().set_field(StringField::new(35, "B"));
            m.set_field(StringField::new(58, &c.repeat(n)));
            m.set_body_len();
            check(&m, "long value")?;
            m.set_checksum();
            m.set_body_len();
            check(&m, "long value, with checksum")?;
        }
    }
    let mut m = Message::new();
    m.set_body_len();
    check(&m, "empty message")
}

/// large in one dimension each
fn extremes(_: &mut Ctx) -> Res {
    for k in 0..crate::extreme::KINDS {
        let (what, c, m) = crate::extreme::get(k)?;
        let Ok(Ok(mut p)) = parse(&m.text(), c.dd()) else { continue };
        p.set_body_len();
        check(&p, what)?;
    }
    Ok(())
}
