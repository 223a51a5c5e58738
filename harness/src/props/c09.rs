//! CheckSum.
use super::api::*;
use super::c08::any_message;
use crate::engine::*;
use crate::ensure;
use crate::tape::Tape;
use crate::msg::parse;
use fix_rs::message::{Message, StringField};

pub static PROP: Prop = Prop {
    id: "C09",
    rule: "A case is a message built by 0..25 random operations or parsed and modified, as for C08, possibly with a \
stale CheckSum of any text; the checksum is set once, twice, after further changes and after the body length. Non-trivial: the checksum \
is below 100, or the message has groups, multi-byte values or more than 256 bytes; distinct by text.",
    quick: 220_000,
    thorough: 6_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("every checksum value", all), ("long messages", long), ("extreme sizes", extremes)],
    assumptions: &["tag 10 stands only in the trailer"],
};

pub fn check(m: &Message, log: &str) -> Res {
    let text = m.to_string();
    let repro = || format!("{} text {}", log, show(&clip(&text, 2000)));
    let (at, v) = checksum_at(&text);
    let Some(v) = v else { return Err(fail("last", "the text does not end with a CheckSum field", repro())) };
    let want = format!("{:03}", byte_sum(&text[..at]));
    ensure!(v == want, "checksum", repro(), "CheckSum is {:?}, the bytes before it sum to {}", v, want);
    let g = m.trailer().get_field::<String>(10);
    ensure!(g == Ok(want.clone()), "checksum", repro(), "CheckSum reads {:?}, expected {}", g, want);
    Ok(())
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut log = String::new();
    let mut m = any_message(t, ctx, &mut log)?;
    let before = m.to_string();
    m.set_checksum();
    log.push_str("set_checksum ");
    check(&m, &log)?;
    let text = m.to_string();
    let multi = text.len() != text.chars().count();
    let (_, v) = checksum_at(&text);
    if multi || v.is_some_and(|v| v.starts_with('0')) || text.len() > 256 || log.contains("group") {
        ctx.nontrivial();
        ctx.key(&text);
        ctx.sample(|| show(&text));
    }
    ctx.label_if(v.is_some_and(|v| v.starts_with('0')), "below 100");
    ctx.label_if(v.is_some_and(|v| v.starts_with("00")), "below 10");
    ctx.label_if(multi, "multi-byte values");
    ctx.label_if(log.contains("group"), "groups");
    m.set_checksum();
    ensure!(checksum_at(&m.to_string()).1 == v, "again", show(&text), "setting the checksum again changes it");
    let strip = |s: &str| {
        let mut v: Vec<String> = fields_of(s).iter().filter(|f| tag_of(f) != "10").map(|f| f.to_string()).collect();
        v.sort();
        v
    };
    ensure!(strip(&before) == strip(&text), "touches", show(&before), "setting the checksum changes other fields: {}", show(&text));
    let mut mm = MMsg::new();
    for _ in 0..t.len(0, 4) {
        step(t, &mut m, &mut mm, &mut log);
    }
    if t.flip() {
        log.push_str("set_body_len ");
        m.set_body_len();
        m.set_checksum();
        super::c08::check(&m, &log)?;
    }
    m.set_checksum();
    log.push_str("set_checksum ");
    check(&m, &log)
}

fn all(_: &mut Ctx) -> Res {
    // every residue, by varying one byte and the number of fields
    for a in 0..=255u32 {
        for n in 0..3 {
            let mut m = Message::new();
            m.header_mut().set_field(StringField::new(8, "FIX.4.3"));
            let v: String = (0..n).map(|_| 'z').chain(char::from_u32(if a == 1 { 2 } else { a })).collect();
            m.set_field(StringField::new(58, &v));
            m.trailer_mut().set_field(StringField::new(10, "777"));
            m.set_checksum();
            check(&m, "residue")?;
        }
    }
    Ok(())
}
fn long(_: &mut Ctx) -> Res {
    for n in [250usize, 255, 256, 257, 512, 600, 65535, 65536, 70_000, 1_000_000, 20_000_000] {
        let mut m = Message::new();
        m.set_field(StringField::new(58, &"\u{7f}".repeat(n)));
        m.set_checksum();
        check(&m, "long value")?;
    }
    // a sum of more than 2^32
    let mut m = Message::new();
    m.set_field(StringField::new(58, &"\u{ff}".repeat(12_000_000)));
    m.set_checksum();
    check(&m, "very long value")
}

/// large in one dimension each
fn extremes(_: &mut Ctx) -> Res {
    for k in 0..crate::extreme::KINDS {
        let (what, c, m) = crate::extreme::get(k)?;
        let Ok(Ok(mut p)) = parse(&m.text(), c.dd()) else { continue };
        p.set_checksum();
        check(&p, what)?;
    }
    Ok(())
}
