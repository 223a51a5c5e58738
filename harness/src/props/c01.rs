//! Any text: message or reject, no panic, bounded time and memory.
use super::common::*;
use crate::alloc::measured;
use crate::engine::*;
use crate::ensure;
use crate::msg::*;
use crate::tape::Tape;
use fix_rs::message::Message;

pub static PROP: Prop = Prop {
    id: "C01",
    rule: "A case is one text parsed with FIX43 or a generated dictionary: a conforming message with 1..5 \
byte- or field-level mutations (deleted, duplicated, swapped, truncated fields, corrupted tags, hostile group \
counts up to 2^32), a random field soup over the dictionary's tags, or arbitrary characters. Non-trivial: the \
text has at least three fields, or is empty or shorter than three fields after a BeginString; distinct by text.",
    quick: 360_000,
    thorough: 12_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("short texts", short), ("huge counts", huge), ("deep nesting", deep), ("extreme sizes", extremes)],
    assumptions: &["bounded memory is checked as: peak live bytes while parsing <= 64 KiB + 512 x (text length + dictionary order lists per instance)"],
};

const HARD: usize = 1 << 29;

pub fn check(text: &str, c: &DictCase, ctx: &mut Ctx) -> Res {
    let dd = c.dd();
    let (r, peak) = measured(HARD, || guard(|| Message::from_str(text, dd)));
    let repro = || format!("{} text {}", c.describe(), show(text));
    match r {
        Err(p) => return Err(fail("panic", format!("parsing panics: {}", p), repro())),
        Ok(Ok(_)) => ctx.label("accepted"),
        Ok(Err(e)) => ctx.label(&format!("rejected: {}", reason(&e))),
    }
    // every field costs a few small allocations; every group instance also a copy of its field order
    let order = widest(c) * 4;
    let fields = text.bytes().filter(|b| *b == 1).count() + 1;
    let bound = 65536 + 64 * text.len() + fields * (1024 + order * 2);
    ensure!(peak <= bound, "memory", repro(), "parsing {} bytes held {} bytes (bound {})", text.len(), peak, bound);
    Ok(())
}

fn widest(c: &DictCase) -> usize {
    fn w(l: &crate::dict::Level) -> usize {
        l.fields.iter().filter_map(|f| f.group.as_ref()).map(|g| g.fields.len().max(w(g))).max().unwrap_or(0)
    }
    c.d().msgs.values().map(w).max().unwrap_or(0).max(w(&c.d().header))
}

pub const COUNTS: &[&str] = &[
    "0", "1", "2", "3", "7", "100", "65535", "65536", "1000000", "2147483647", "2147483648", "4294967295",
    "4294967296", "18446744073709551616", "-1", "+1", "01", " 1", "1 ", "1.0", "x", "0x10", "１",
];

/// Mutates the token list; texts stay close to valid ones.
pub fn mutate(t: &mut Tape, toks: &mut Vec<(String, String)>, c: &DictCase, n: usize) {
    mutate_d(t, toks, c.d(), n)
}
pub fn mutate_d(t: &mut Tape, toks: &mut Vec<(String, String)>, d: &crate::dict::Dict, n: usize) {
    for _ in 0..n {
        let len = toks.len();
        if len == 0 {
            return;
        }
        let i = t.usize(len);
        match t.weighted(&[3, 3, 3, 3, 2, 2, 2, 1, 2]) {
            0 => {
                toks.remove(i);
            }
            1 => {
                let j = t.usize(len + 1);
                let x = toks[i].clone();
                toks.insert(j, x);
            }
            2 => {
                let j = t.usize(len);
                toks.swap(i, j)
            }
            3 => {
                // hostile count on a group count field if there is one, else anywhere
                let gs: Vec<usize> = (0..len)
                    .filter(|k| toks[*k].0.parse::<u32>().is_ok_and(|g| is_group(d, g)))
                    .collect();
                let k = if gs.is_empty() { i } else { *t.pick(&gs) };
                toks[k].1 = t.pick(COUNTS).to_string();
            }
            4 => toks.truncate(i),
            5 => {
                let tag = any_tag(t, d);
                toks.insert(i, (tag.to_string(), gen_value(t)));
            }
            6 => {
                toks[i].0 = t
                    .pick(&["", "0", "01", "-1", "+1", "x", "4294967295", "4294967296", "99999999999999999999", " 8", "8 ", "1e3", "٣"])
                    .to_string()
            }
            7 => toks[i].1 = String::new(),
            _ => {
                let tag = any_tag(t, d);
                toks[i].0 = tag.to_string();
            }
        }
    }
}
fn is_group(d: &crate::dict::Dict, tag: u32) -> bool {
    fn g(l: &crate::dict::Level, tag: u32) -> bool {
        l.fields.iter().any(|f| f.group.as_ref().is_some_and(|s| f.tag == tag || g(s, tag)))
    }
    g(&d.header, tag) || d.msgs.values().any(|l| g(l, tag))
}
pub fn any_tag(t: &mut Tape, d: &crate::dict::Dict) -> u32 {
    match t.weighted(&[4, 1, 1]) {
        0 => {
            let mut v: Vec<u32> = d.types.keys().copied().collect();
            v.sort();
            *t.pick(&v)
        }
        1 => t.range(0, 1000) as u32,
        _ => *t.pick(&[8u32, 9, 35, 10, 49, 56, 627, 93, 89]),
    }
}

pub fn gen_text(t: &mut Tape, c: &DictCase, ctx: &mut Ctx) -> String {
    match t.weighted(&[6, 3, 2]) {
        0 => {
            ctx.label("text: mutated message");
            let m = gen_msg(t, c.d(), &GenOpt { total: 60, ..Default::default() });
            let mut toks = m.tokens();
            let n = t.rangei(0, 4);
            mutate(t, &mut toks, c, n);
            let mut s = print(&toks);
            if t.chance(1, 3) {
                damage(t, &mut s);
            }
            s
        }
        1 => {
            ctx.label("text: field soup");
            let mut toks = vec![];
            if t.chance(3, 4) {
                let types: Vec<&String> = c.d().msgs.keys().collect();
                let mt = (*t.pick(&types)).clone();
                toks = vec![("8".into(), "FIX.4.3".into()), ("9".into(), "1".into()), ("35".into(), mt)];
            }
            for _ in 0..t.len(0, 24) {
                let tag = any_tag(t, c.d());
                let v = if t.chance(1, 3) { t.pick(COUNTS).to_string() } else { gen_value(t) };
                toks.push((tag.to_string(), v));
            }
            print(&toks)
        }
        _ => {
            ctx.label("text: arbitrary characters");
            t.string(&['\u{1}', '=', '8', '9', '3', '5', '1', '0', 'A', ' ', 'é', '\u{0}', '\n', '🦀'], 0, 40)
        }
    }
}
/// character-level damage
pub fn damage(t: &mut Tape, s: &mut String) {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..t.rangei(1, 3) {
        if cs.is_empty() {
            break;
        }
        let i = t.usize(cs.len());
        match t.usize(4) {
            0 => {
                cs.truncate(i);
            }
            1 => {
                cs.remove(i);
            }
            2 => cs.insert(i, *t.pick(&['\u{1}', '=', '1', 'x', 'é', '\u{0}'])),
            _ => cs[i] = *t.pick(&['\u{1}', '=', '1', 'x', '漢']),
        }
    }
    *s = cs.into_iter().collect();
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let c = gen_dict(t, ctx)?;
    for _ in 0..t.rangei(1, 4) {
        let s = gen_text(t, &c, ctx);
        ctx.add("texts", 1);
        if s.matches('\u{1}').count() >= 3 || s.is_empty() || s.starts_with("8=") {
            ctx.nontrivial();
            ctx.key(&s);
            ctx.sample(|| show(&s));
        }
        check(&s, &c, ctx)?;
    }
    Ok(())
}

fn short(ctx: &mut Ctx) -> Res {
    let full = "8=FIX.4.3\u{1}9=5\u{1}35=A\u{1}98=0\u{1}108=30\u{1}10=000\u{1}";
    for i in 0..=full.len() {
        check(&full[..i], &DictCase::Shipped, ctx)?;
    }
    for s in ["", "\u{1}", "\u{1}\u{1}", "=", "=\u{1}", "8", "8=", "\u{feff}8=FIX.4.3\u{1}"] {
        check(s, &DictCase::Shipped, ctx)?;
    }
    Ok(())
}

fn huge(ctx: &mut Ctx) -> Res {
    let base = "8=FIX.4.3\u{1}9=5\u{1}35=E\u{1}66=x\u{1}394=1\u{1}73=";
    for n in COUNTS {
        check(&format!("{}{}\u{1}11=a\u{1}10=000\u{1}", base, n), &DictCase::Shipped, ctx)?;
        check(&format!("{}{}\u{1}", base, n), &DictCase::Shipped, ctx)?;
        check(&format!("{}1\u{1}11=a\u{1}67=1\u{1}78={}\u{1}79=a\u{1}10=000\u{1}", base, n), &DictCase::Shipped, ctx)?;
        check(&format!("8=FIX.4.3\u{1}9=5\u{1}35=A\u{1}627={}\u{1}628=x\u{1}10=000\u{1}", n), &DictCase::Shipped, ctx)?;
    }
    Ok(())
}

/// long inputs: many fields, many instances, long values
fn deep(ctx: &mut Ctx) -> Res {
    let mut s = String::from("8=FIX.4.3\u{1}9=5\u{1}35=E\u{1}66=x\u{1}394=1\u{1}73=3000\u{1}");
    for i in 0..3000 {
        s.push_str(&format!("11=o{}\u{1}67=1\u{1}78=2\u{1}79=a\u{1}80=1\u{1}79=b\u{1}80=2\u{1}", i));
    }
    s.push_str("10=000\u{1}");
    check(&s, &DictCase::Shipped, ctx)?;
    let s = format!("8=FIX.4.3\u{1}9=5\u{1}35=B\u{1}148={}\u{1}10=000\u{1}", "x".repeat(300_000));
    check(&s, &DictCase::Shipped, ctx)?;
    let s = format!("8=FIX.4.3\u{1}9=5\u{1}35=B\u{1}{}10=000\u{1}", "148=x\u{1}".repeat(20_000));
    check(&s, &DictCase::Shipped, ctx)?;
    let s = "\u{1}".repeat(100_000);
    check(&s, &DictCase::Shipped, ctx)
}

/// large in one dimension each
fn extremes(ctx: &mut Ctx) -> Res {
    for k in 0..crate::extreme::KINDS {
        let (what, c, m) = crate::extreme::get(k)?;
        let _ = what;
        let text = m.text();
        check(&text, &c, ctx)?;
        // and cut in the middle
        let mut half = text.len() / 2;
        while !text.is_char_boundary(half) {
            half += 1;
        }
        check(&text[..half], &c, ctx)?;
        check(&text[half..], &c, ctx)?;
    }
    Ok(())
}
