//! Conforming messages parse into the right places.
use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::msg::*;
use crate::tape::Tape;

pub static PROP: Prop = Prop {
    id: "C03",
    rule: "A case is a dictionary (FIX43 with all 66 message types, or generated with groups up to depth 4) and \
1..4 messages built to conform to it, sections shuffled; the tree read back through header/body/trailer, \
get_field, get_group and indexing must equal the tree it was built from. Non-trivial: at least one repeating \
group with an instance, or eight fields; distinct by text.",
    quick: 200_000,
    thorough: 6_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("every FIX43 message type", every_type), ("extreme sizes", extremes)],
    assumptions: &["one dictionary in five lets the levels of a body share tags, and then only messages that read in one way are used; trailers have no groups, as in FIX"],
};

pub fn check(m: &GMsg, c: &DictCase, ctx: &mut Ctx) -> Res {
    let text = m.text();
    let repro = || format!("{} text {}", c.describe(), show(&text));
    let r = match parse(&text, c.dd()) {
        Err(p) => return Err(fail("panic", format!("parsing a conforming message panics: {}", p), repro())),
        Ok(Err(e)) => return Err(fail("reject", format!("a conforming message is rejected: {}", e), repro())),
        Ok(Ok(r)) => r,
    };
    let x = extract(&r, &c.d().universe()).map_err(|e| fail("read", e, repro()))?;
    let want = m.x();
    ensure!(want == x, "tree", repro(), "{}", diff(&want, &x));
    let depth = m.depth();
    ctx.label(&format!("group depth {}", depth));
    ctx.label_if(m.x().header.depth() > 0, "header group");
    let big = m.groups() > 0 || want.count() >= 8;
    if big && (depth > 0 || want.count() >= 8) {
        ctx.nontrivial();
        ctx.key(&text);
        ctx.sample(|| show(&text));
    }
    Ok(())
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let overlap = t.chance(1, 5);
    let c = if overlap { gen_overlap(t, ctx)? } else { gen_dict(t, ctx)? };
    if !overlap && t.chance(1, 6) {
        return tangled(t, &c, ctx, &[]);
    }
    for _ in 0..t.rangei(1, 4) {
        let o = GenOpt { max_inst: t.rangei(1, 4), fill: t.range(1, 7), ..Default::default() };
        let m = gen_msg(t, c.d(), &o);
        if overlap {
            // what follows a group may read as a part of it: then it is another message
            match ref_parse(&m.text(), c.d()) {
                Ref::Accept(x) if x == m.x() => {}
                _ => {
                    ctx.label("ambiguous");
                    continue;
                }
            }
        }
        check(&m, &c, ctx)?;
    }
    Ok(())
}

/// Each type of the shipped dictionary, once with all fields and groups present.
fn every_type(ctx: &mut Ctx) -> Res {
    let c = DictCase::Shipped;
    let types: Vec<String> = c.d().msgs.keys().cloned().collect();
    for (i, mt) in types.iter().enumerate() {
        for k in 0..8u64 {
            let mut t = Tape::random(77, "every", i as u64, k);
            let o = GenOpt { max_inst: 1 + k as usize % 3, fill: 8 * 40, shuffle: k % 2 == 1, total: 400 };
            let m = gen_msg_of(&mut t, c.d(), mt, &o);
            check(&m, &c, ctx)?;
        }
    }
    Ok(())
}

/// large in one dimension each
fn extremes(ctx: &mut Ctx) -> Res {
    for k in 0..crate::extreme::KINDS {
        let (what, c, m) = crate::extreme::get(k)?;
        ctx.label(what);
        check(&m, &c, ctx)?;
    }
    Ok(())
}
