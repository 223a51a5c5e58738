//! Accepted texts survive serialisation.
use super::c01::{gen_text, mutate};
use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::msg::*;
use crate::tape::Tape;
use std::collections::BTreeMap;

pub static PROP: Prop = Prop {
    id: "C02",
    rule: "A case is a dictionary (FIX43 or generated) and 1..4 texts: conforming messages, near-conforming \
mutations of them (moved, duplicated, foreign fields) and field soups. Every text the engine accepts is \
serialised and parsed again. Non-trivial: an accepted text with at least one repeating group or six fields; \
distinct by text.",
    quick: 160_000,
    thorough: 5_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("samples", samples), ("extreme sizes", extremes)],
    assumptions: &["dictionaries keep a group's tags distinct from those of the levels around it"],
};

fn count_tags(x: &XMap, out: &mut Vec<(u32, String, bool)>) {
    for (t, v) in &x.fields {
        out.push((*t, v.clone(), x.groups.contains_key(t)));
    }
    for i in x.groups.values().flatten() {
        count_tags(i, out)
    }
}

fn bag(toks: &[(String, String)], groups: &BTreeMap<String, ()>) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = toks
        .iter()
        .map(|(t, v)| {
            let n = if groups.contains_key(t) { v.parse::<u64>().map(|n| n.to_string()).unwrap_or(v.clone()) } else { v.clone() };
            (t.clone(), n)
        })
        .collect();
    v.sort();
    v
}
pub fn toks_of(s: &str) -> Vec<(String, String)> {
    split_fields(s)
        .into_iter()
        .map(|f| f.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((f.to_string(), "<none>".into())))
        .collect()
}

pub fn check(text: &str, c: &DictCase, ctx: &mut Ctx) -> Res {
    let repro = || format!("{} text {}", c.describe(), show(text));
    let m = match parse(text, c.dd()) {
        Err(p) => return Err(fail("panic", format!("parsing panics: {}", p), repro())),
        Ok(Err(_)) => {
            ctx.label("rejected");
            return Ok(());
        }
        Ok(Ok(m)) => m,
    };
    ctx.label("accepted");
    let u = c.d().universe();
    let x = extract(&m, &u).map_err(|e| fail("read", format!("reading the parsed message: {}", e), repro()))?;
    let mut all_defined = true;
    // what was accepted is what the reference parser understands
    match ref_parse(text, c.d()) {
        Ref::Accept(r) => {
            ensure!(r.norm() == x.norm(), "tree", repro(), "the parsed message differs from the text: {}", diff(&r.norm(), &x.norm()))
        }
        Ref::Open(_, Some(r)) => {
            ctx.label("accepted with undefined or unordered fields");
            all_defined = false;
            let (mut a, mut b) = (vec![], vec![]);
            for s in [&r.header, &r.body, &r.trailer] {
                all_fields(&s.norm(), &mut a);
            }
            for s in [&x.header, &x.body, &x.trailer] {
                all_fields(&s.norm(), &mut b);
            }
            a.sort();
            b.sort();
            ensure!(a == b, "tree", repro(), "the parsed message has other fields than the text: {:?} vs {:?}", b, a);
        }
        Ref::Open(_, None) => all_defined = false,
        Ref::Reject(_) => ctx.label("accepted although the other properties ask for a reject"),
    }
    let out = guard(|| m.to_string()).map_err(|p| fail("panic", format!("serialising panics: {}", p), repro()))?;
    let mut gt = BTreeMap::new();
    let mut fl = vec![];
    for s in [&x.header, &x.body, &x.trailer] {
        count_tags(s, &mut fl);
    }
    for (t, _, g) in &fl {
        if *g {
            gt.insert(t.to_string(), ());
        }
    }
    let (a, b) = (bag(&toks_of(text), &gt), bag(&toks_of(&out), &gt));
    if a != b {
        let miss: Vec<_> = a.iter().filter(|x| !b.contains(x)).take(5).collect();
        let extra: Vec<_> = b.iter().filter(|x| !a.contains(x)).take(5).collect();
        return Err(fail(
            "fields",
            format!("serialised text has other fields ({} instead of {}): missing {:?}, added {:?}", b.len(), a.len(), miss, extra),
            format!("{} serialised {}", repro(), show(&out)),
        ));
    }
    ensure!(out.ends_with(SOH), "soh", repro(), "the serialised text does not end with SOH");
    match parse(&out, c.dd()) {
        Err(p) => return Err(fail("panic", format!("parsing the serialised text panics: {}", p), show(&out))),
        // a field that its place does not define may be taken for a group's on the way back
        Ok(_) if !all_defined => {}
        Ok(Err(e)) => {
            return Err(fail("reparse", format!("the serialised text is rejected: {}", e), format!("{} serialised {}", repro(), show(&out))))
        }
        Ok(Ok(m2)) => {
            let y = extract(&m2, &u).map_err(|e| fail("read", e, repro()))?;
            ensure!(
                x.norm() == y.norm(), "reparse", format!("{} serialised {}", repro(), show(&out)),
                "the serialised text parses differently: {}", diff(&x.norm(), &y.norm())
            );
        }
    }
    if !gt.is_empty() || fl.len() >= 6 {
        ctx.nontrivial();
        ctx.key(&text);
        ctx.sample(|| format!("{} -> {}", show(text), show(&out)));
    }
    ctx.label_if(!gt.is_empty(), "accepted with groups");
    Ok(())
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let c = gen_dict(t, ctx)?;
    for _ in 0..t.rangei(1, 4) {
        let s = match t.weighted(&[3, 3, 1]) {
            0 => gen_msg(t, c.d(), &GenOpt::default()).text(),
            1 => {
                let m = gen_msg(t, c.d(), &GenOpt { total: 60, ..Default::default() });
                let mut toks = m.tokens();
                let n = t.rangei(1, 2);
                mutate(t, &mut toks, &c, n);
                // a moved body field, an undefined field: often still accepted
                if toks.len() > 4 && t.flip() {
                    let i = 3 + t.usize(toks.len() - 3);
                    let j = 3 + t.usize(toks.len() - 3);
                    let x = toks.remove(i);
                    toks.insert(j.min(toks.len()), x);
                }
                print(&toks)
            }
            _ => gen_text(t, &c, ctx),
        };
        check(&s, &c, ctx)?;
    }
    Ok(())
}

fn samples(ctx: &mut Ctx) -> Res {
    for s in [
        "8=FIX.4.3|9=73|35=A|34=0|49=BANZAI|52=20221006-08:43:36.522|56=FIXIMULATOR|98=0|108=30|10=061|",
        "8=FIX.4.3|9=73|35=A|34=0|627=1|628=hop|629=t|630=0|98=0|108=30|10=061|",
        "8=FIX.4.4|9=108|35=E|66=l|394=1|73=2|11=a|67=1|78=2|79=x|80=10|79=y|80=20|11=b|67=2|78=1|79=z|80=30|10=075",
        // a field that belongs to a group, standing behind the group
        "8=FIX.4.3|9=1|35=E|66=l|73=1|11=a|394=1|67=9|10=000|",
        "8=FIX.4.3|9=1|35=D|55=a=b|5001=x|54=1|10=000|93=1|89=x|",
        "8=FIX.4.3|9=1|35=E|73=0|66=l|10=000|",
        "8=FIX.4.3|9=1|35=E|73=02|11=a|11=b|66=l|10=000|",
        "8=FIX.4.3|9=1|35=A|",
        "8=FIX.4.3|9=1|35=A|10=1",
    ] {
        check(&s.replace('|', "\u{1}"), &DictCase::Shipped, ctx)?;
    }
    Ok(())
}

/// large in one dimension each
fn extremes(ctx: &mut Ctx) -> Res {
    for k in 0..crate::extreme::KINDS {
        let (what, c, m) = crate::extreme::get(k)?;
        ctx.label(what);
        check(&m.text(), &c, ctx)?;
    }
    Ok(())
}
