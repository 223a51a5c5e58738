//! Broken fields.
use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::msg::*;
use crate::tape::Tape;

pub static PROP: Prop = Prop {
    id: "C04",
    rule: "A case is a conforming message in which one or two fields, anywhere, are broken: no '=', a tag that is \
empty, signed, padded, zero-led, non-decimal or over 32 bits, or an empty value; sometimes instead all values \
are replaced by unusual ones ('=' inside, '=' first, other control characters), which must be accepted unchanged. Non-trivial: a \
broken field not in first position or a value containing '='; distinct by text.",
    quick: 260_000,
    thorough: 6_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("each kind at each place", grid), ("extreme sizes", extremes)],
    assumptions: &["a field that has both a bad tag and no value may be rejected for either"],
};

/// broken forms of a field, with the reasons that fit
pub fn breakage(kind: usize, tag: &str, val: &str) -> (String, Vec<&'static str>) {
    let it = INVALID_TAG;
    match kind {
        0 => (tag.to_string(), vec![it]),
        1 => (String::new(), vec![it]),
        2 => (format!("={}", val), vec![it]),
        3 => (format!("+{}={}", tag, val), vec![it]),
        4 => (format!("-{}={}", tag, val), vec![it]),
        5 => (format!("0{}={}", tag, val), vec![it]),
        6 => (format!("{} ={}", tag, val), vec![it]),
        7 => (format!(" {}={}", tag, val), vec![it]),
        8 => (format!("{}x={}", tag, val), vec![it]),
        9 => (format!("4294967296={}", val), vec![it]),
        10 => (format!("{}={}", "9".repeat(25), val), vec![it]),
        11 => (format!("0={}", val), vec![it]),
        12 => (format!("0x{}={}", tag, val), vec![it]),
        13 => (format!("{}.0={}", tag, val), vec![it]),
        14 => (format!("٣={}", val), vec![it]),
        15 => (format!("{}=", tag), vec![NO_VALUE]),
        16 => ("=".to_string(), vec![it, NO_VALUE]),
        17 => ("x=".to_string(), vec![it, NO_VALUE]),
        18 => (val.replace('=', "").to_string() + "y", vec![it]),
        19 => (format!("{}\t={}", tag, val), vec![it]),
        _ => (format!("{}=", tag), vec![NO_VALUE]),
    }
}
const KINDS: usize = 21;

pub fn expect(text: &str, want: &[&str], c: &DictCase) -> Res {
    let repro = || format!("{} text {}", c.describe(), show(text));
    match parse(text, c.dd()) {
        Err(p) => Err(fail("panic", format!("parsing panics: {}", p), repro())),
        Ok(Ok(_)) => Err(fail("accepts", format!("a text with a broken field is accepted, not rejected as {:?}", want), repro())),
        Ok(Err(e)) => {
            ensure!(want.contains(&e.as_str()), "reason", repro(), "rejected as {}, expected {:?}", e, want);
            Ok(())
        }
    }
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let c = gen_dict(t, ctx)?;
    if t.chance(1, 6) {
        return tangled(t, &c, ctx, &[INVALID_TAG, NO_VALUE]);
    }
    for _ in 0..t.rangei(1, 4) {
        let mut m = gen_msg(t, c.d(), &GenOpt { total: 60, ..Default::default() });
        if t.chance(1, 4) {
            for sc in scopes(&m) {
                let lead = if sc.sec == 0 && sc.steps.is_empty() { 3 } else { 0 };
                for n in sc.nodes_mut(&mut m).iter_mut().skip(lead).filter(|n| n.grp.is_none()) {
                    n.val = gen_value(t);
                    if t.chance(1, 3) {
                        n.val.insert(0, '=');
                    }
                }
            }
            ctx.label("unusual values");
            ctx.nontrivial();
            ctx.key(&m.text());
            super::c03::check(&m, &c, ctx)?;
            continue;
        }
        let mut toks: Vec<String> = m.tokens().into_iter().map(|(a, b)| format!("{}={}", a, b)).collect();
        let n = t.rangei(1, 2);
        let mut at: Vec<usize> = vec![];
        for _ in 0..n {
            let i = t.usize(toks.len());
            if !at.contains(&i) {
                at.push(i)
            }
        }
        at.sort();
        let mut want = vec![];
        for (k, i) in at.iter().enumerate() {
            let kind = t.usize(KINDS);
            let (tag, val) = toks[*i].split_once('=').map(|(a, b)| (a.to_string(), b.to_string())).unwrap();
            let (f, w) = breakage(kind, &tag, &val);
            toks[*i] = f;
            if k == 0 {
                ctx.label(&format!("kind {:02}", kind));
                want = w;
            }
        }
        if t.chance(1, 12) {
            // further separators at the end: every one but the last ends an empty field
            ctx.label("empty fields at the end");
            toks.extend(std::iter::repeat(String::new()).take(t.rangei(1, 3) as usize));
        }
        if t.chance(1, 12) {
            // nothing broken but empty fields at the end
            toks = m.tokens().into_iter().map(|(a, b)| format!("{}={}", a, b)).collect();
            toks.extend(std::iter::repeat(String::new()).take(t.rangei(1, 3) as usize));
            at[0] = toks.len();
            want = vec![INVALID_TAG];
            ctx.label("only empty fields at the end");
        }
        let mut text = toks.join("\u{1}");
        if !t.chance(1, 6) || toks.last().is_some_and(|s| s.is_empty()) {
            text.push(SOH);
        }
        if at[0] > 0 {
            ctx.nontrivial();
            ctx.key(&text);
            ctx.sample(|| format!("{} -> {:?}", show(&text), want));
        }
        expect(&text, &want, &c)?;
    }
    Ok(())
}

fn grid(_: &mut Ctx) -> Res {
    let c = DictCase::Shipped;
    let base = "8=FIX.4.3|9=1|35=E|627=1|628=h|66=l|394=1|73=2|11=a|67=1|78=1|79=x|80=1|11=b|58=t|93=1|89=s|10=000|";
    let fields: Vec<&str> = base.trim_end_matches('|').split('|').collect();
    for i in 0..fields.len() {
        for k in 0..KINDS {
            let (tag, val) = fields[i].split_once('=').unwrap();
            let (f, w) = breakage(k, tag, val);
            let mut v: Vec<String> = fields.iter().map(|s| s.to_string()).collect();
            v[i] = f;
            expect(&(v.join("\u{1}") + "\u{1}"), &w, &c)?;
        }
    }
    Ok(())
}

/// large in one dimension each
fn extremes(_: &mut Ctx) -> Res {
    for k in 0..crate::extreme::KINDS {
        let (what, c, m) = crate::extreme::get(k)?;
        let _ = what;
        let toks: Vec<String> = m.tokens().into_iter().map(|(a, b)| format!("{}={}", a, b)).collect();
        let n = toks.len();
        for i in [3, n / 3, n / 2, n - 2, n - 1] {
            for kind in [0, 3, 9, 15] {
                let (tag, val) = toks[i].split_once('=').unwrap();
                let (f, w) = breakage(kind, tag, val);
                let text = [&toks[..i], &[f], &toks[i + 1..]].concat().join("\u{1}") + "\u{1}";
                expect(&text, &w, &c)?;
            }
        }
    }
    Ok(())
}
