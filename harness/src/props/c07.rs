//! Duplicate tags.
use super::c04_expect;
use super::common::*;
use crate::engine::*;
use crate::msg::*;
use crate::tape::Tape;

pub static PROP: Prop = Prop {
    id: "C07",
    rule: "A case is a conforming message in which one field (or whole group) of the header, body, trailer or of a \
group instance at any depth is repeated at another position of the same scope, with the same or another value, sometimes followed by a defect of another kind; \
one case in six is left conforming. Non-trivial: a duplicate was placed; distinct by text.",
    quick: 280_000,
    thorough: 8_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("known shapes", shapes), ("extreme sizes", extremes)],
    assumptions: &["a repeated delimiter starts a new instance and is not a duplicate"],
};

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let c = gen_dict(t, ctx)?;
    if t.chance(1, 6) {
        return tangled(t, &c, ctx, &[DUP]);
    }
    for _ in 0..t.rangei(1, 4) {
        let mut m = gen_msg(t, c.d(), &GenOpt { total: 70, fill: 5, ..Default::default() });
        if t.chance(1, 6) {
            super::c03::check(&m, &c, ctx)?;
            ctx.label("conforming");
            continue;
        }
        let all = scopes(&m);
        let usable: Vec<&Scope> = all
            .iter()
            .filter(|s| s.nodes(&m).len() > if s.steps.is_empty() { 0 } else { 1 })
            .collect();
        let deep: Vec<&Scope> = usable.iter().copied().filter(|s| !s.steps.is_empty()).collect();
        let sc = if !deep.is_empty() && t.flip() { (*t.pick(&deep)).clone() } else { (*t.pick(&usable)).clone() };
        let grouped = !sc.steps.is_empty();
        let nodes = sc.nodes_mut(&mut m);
        let i = if grouped { 1 + t.usize(nodes.len() - 1) } else { t.usize(nodes.len()) };
        let mut n = nodes[i].clone();
        if n.grp.is_none() && t.flip() {
            n.val = gen_value(t);
        }
        // in a group behind the first one, so that the duplicate is the first defect
        let lo = if grouped { i + 1 } else if sc.sec == 0 { 3 } else { 0 };
        let at = t.rangei(lo, nodes.len());
        nodes.insert(at, n);
        // a later defect of another kind changes nothing
        if t.chance(1, 4) {
            if !m.trailer.is_empty() {
                let mut tag = t.range(1, 20000) as u32;
                while c.d().trailer.get(tag).is_some() {
                    tag += 1;
                }
                m.trailer.push(if t.flip() { Node::field(tag, "1") } else { m.header[t.usize(m.header.len())].clone() });
                ctx.label("a later defect as well");
            } else if !m.body.is_empty() {
                let n = m.header[t.usize(m.header.len())].clone();
                m.body.push(n);
                ctx.label("a later defect as well");
            }
        }
        let text = m.text();
        let what = ["header", "body", "trailer"][sc.sec];
        ctx.label(&format!("duplicate in {}{}", what, if grouped { format!(" group, depth {}", sc.steps.len()) } else { String::new() }));
        ctx.nontrivial();
        ctx.key(&text);
        ctx.sample(|| show(&text));
        c04_expect(&text, &[DUP], &c)?;
    }
    Ok(())
}

fn shapes(ctx: &mut Ctx) -> Res {
    let c = DictCase::Shipped;
    for s in [
        "8=FIX.4.3|9=1|35=A|8=FIX.4.3|98=0|10=000|", "8=FIX.4.3|9=1|35=A|34=1|34=1|98=0|10=000|", "8=FIX.4.3|9=1|35=A|9=1|10=000|",
        "8=FIX.4.3|9=1|35=A|35=B|10=000|", "8=FIX.4.3|9=1|35=A|98=0|108=30|98=0|10=000|", "8=FIX.4.3|9=1|35=A|98=0|10=000|10=000|",
        "8=FIX.4.3|9=1|35=A|98=0|93=1|89=x|93=1|10=000|", "8=FIX.4.3|9=1|35=A|627=1|628=a|629=b|629=b|98=0|10=000|",
        "8=FIX.4.3|9=1|35=A|627=1|628=a|627=1|628=a|98=0|10=000|", "8=FIX.4.3|9=1|35=E|73=1|11=a|67=1|67=1|10=000|",
        "8=FIX.4.3|9=1|35=E|73=1|11=a|67=1|583=b|67=1|10=000|", "8=FIX.4.3|9=1|35=E|73=1|11=a|394=1|73=1|11=a|10=000|",
        "8=FIX.4.3|9=1|35=E|73=1|11=a|78=1|79=a|78=1|79=b|10=000|", "8=FIX.4.3|9=1|35=E|73=1|11=a|78=1|79=a|80=1|80=2|10=000|",
        "8=FIX.4.3|9=1|35=E|73=1|11=a|78=0|78=0|10=000|", "8=FIX.4.3|9=1|35=A|10=000|10=001|", "8=FIX.4.3|9=1|35=E|66=l|66=l|",
    ] {
        c04_expect(&s.replace('|', "\u{1}"), &[DUP], &c)?;
    }
    for s in [
        "8=FIX.4.3|9=1|35=E|73=2|11=a|67=1|11=b|67=1|10=000|", "8=FIX.4.3|9=1|35=E|73=2|11=a|78=1|79=x|11=a|78=1|79=x|10=000|",
        "8=FIX.4.3|9=1|35=A|627=2|628=a|628=a|98=0|10=000|",
    ] {
        super::c02::check(&s.replace('|', "\u{1}"), &c, ctx)?;
        if let Ref::Accept(_) = ref_parse(&s.replace('|', "\u{1}"), c.d()) {
            if !matches!(parse(&s.replace('|', "\u{1}"), c.dd()), Ok(Ok(_))) {
                return Err(fail("reject", "a message without duplicates is rejected", s));
            }
        }
    }
    Ok(())
}

/// large in one dimension each
fn extremes(_: &mut Ctx) -> Res {
    for k in 0..crate::extreme::KINDS {
        let (what, c, m) = crate::extreme::get(k)?;
        let _ = what;
        // the first or last field of the section or instance again, at its end
        let all = scopes(&m);
        for sc in all.iter().take(3).chain(all.iter().rev().take(20)) {
            let len = sc.nodes(&m).len();
            let lo = if sc.steps.is_empty() { 0 } else { 1 };
            if len <= lo {
                continue;
            }
            for i in [lo, len / 2, len - 1] {
                let mut g = m.clone();
                let nodes = sc.nodes_mut(&mut g);
                let n = nodes[i.max(lo)].clone();
                nodes.push(n);
                c04_expect(&g.text(), &[DUP], &c)?;
            }
        }
    }
    Ok(())
}
