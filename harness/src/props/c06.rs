//! Malformed repeating groups.
use super::c04_expect;
use super::common::*;
use crate::engine::*;
use crate::msg::*;
use crate::tape::Tape;

pub static PROP: Prop = Prop {
    id: "C06",
    rule: "A case is a conforming message with groups in which one group, at a random depth, gets one defect: a \
count that is not a number, a count above or below the instances present, an instance added or removed, the \
first delimiter missing or preceded by another instance field, two plain instance fields swapped, a count that is right only modulo 2^31..2^64; or no defect. \
The expected reasons come from the reference parser. Non-trivial: a defect in a group; distinct by text.",
    quick: 300_000,
    thorough: 8_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("known shapes", shapes), ("extreme sizes", extremes)],
    assumptions: &[
        "dictionaries keep a group's tags distinct from those of the levels around it",
        "where a subgroup stands among the plain fields of its instance is left open",
        "signed, fractional and over-32-bit counts may be refused as either of two reasons",
    ],
};

const NOTNUM: &[&str] = &["x", "1x", "0x1", "two", " 1", "1 ", "1,0", "=", "1=1", "１", "é", "--1", "N"];

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let c = gen_dict(t, ctx)?;
    if t.chance(1, 6) {
        return tangled(t, &c, ctx, &[BAD_FORMAT, GRP_COUNT, REQ_MISSING, GRP_ORDER]);
    }
    let d = c.d();
    for _ in 0..t.rangei(1, 4) {
        let mut m = GMsg::default();
        for _ in 0..4 {
            m = gen_msg(t, d, &GenOpt { total: 80, fill: 5, ..Default::default() });
            if m.groups() > 0 {
                break;
            }
        }
        // all group nodes: scope and index
        let mut gs: Vec<(Scope, usize)> = vec![];
        for s in scopes(&m) {
            for (i, n) in s.nodes(&m).iter().enumerate() {
                if n.grp.is_some() {
                    gs.push((s.clone(), i));
                }
            }
        }
        if gs.is_empty() {
            super::c03::check(&m, &c, ctx)?;
            continue;
        }
        // prefer deep ones half of the time
        let pick = if t.flip() {
            let deep = gs.iter().map(|g| g.0.steps.len()).max().unwrap();
            let v: Vec<usize> = (0..gs.len()).filter(|i| gs[*i].0.steps.len() == deep).collect();
            *t.pick(&v)
        } else {
            t.usize(gs.len())
        };
        let (sc, gi) = gs[pick].clone();
        let level = sc.level(&m, d).get(sc.nodes(&m)[gi].tag).unwrap().group.as_ref().unwrap();
        let depth = sc.steps.len() + 1;
        let node = &mut sc.nodes_mut(&mut m)[gi];
        let n = node.grp.as_ref().unwrap().len();
        let kind = t.usize(10);
        let want: &[&str];
        match kind {
            0 => {
                node.val = t.pick(NOTNUM).to_string();
                want = &[BAD_FORMAT];
            }
            1 => {
                let k = t.pick(&[1u64, 1, 2, 10, 256, 65535, 65536, 2147483647, 4294967290]);
                node.val = (n as u64 + k).min(u32::MAX as u64).to_string();
                want = &[GRP_COUNT];
            }
            9 => {
                // equal to the number of instances only modulo a power of two
                let w = t.pick(&[1i128 << 32, 1 << 33, 1 << 63, 1 << 64, -(1 << 32), -(1 << 64), 1 << 31]);
                node.val = (n as i128 + w).to_string();
                want = &[BAD_FORMAT, GRP_COUNT];
            }
            2 if n > 0 => {
                node.val = t.usize(n).to_string();
                want = &[GRP_COUNT];
            }
            3 if n > 0 => {
                let insts = node.grp.as_mut().unwrap();
                insts.remove(t.usize(n));
                want = &[GRP_COUNT];
            }
            4 if n > 0 => {
                let insts = node.grp.as_mut().unwrap();
                let k = t.usize(n);
                let x = insts[k].clone();
                insts.push(x);
                want = &[GRP_COUNT];
            }
            5 if n > 0 && node.grp.as_ref().unwrap()[0].len() > 1 => {
                // the first instance lacks its delimiter
                let insts = node.grp.as_mut().unwrap();
                insts[0].remove(0);
                want = &[REQ_MISSING];
            }
            6 if n > 0 && level.fields.len() > 1 => {
                // an instance field before the first delimiter
                let i = 1 + t.usize(level.fields.len() - 1);
                let f = &level.fields[i];
                let insts = node.grp.as_mut().unwrap();
                let here = insts[0].iter().position(|x| x.tag == f.tag);
                let x = match here {
                    Some(p) if t.flip() => insts[0].remove(p),
                    _ => match &f.group {
                        None => Node::field(f.tag, "1"),
                        Some(_) => Node { tag: f.tag, val: "0".into(), grp: Some(vec![]) },
                    },
                };
                insts[0].insert(0, x);
                want = &[REQ_MISSING];
            }
            7 | 8 if n > 0 => {
                let k = t.usize(n);
                let insts = node.grp.as_mut().unwrap();
                let plain: Vec<usize> = (1..insts[k].len()).filter(|i| insts[k][*i].grp.is_none()).collect();
                if plain.len() >= 2 {
                    let a = t.usize(plain.len() - 1);
                    let b = a + 1 + t.usize(plain.len() - a - 1);
                    insts[k].swap(plain[a], plain[b]);
                    want = &[GRP_ORDER];
                } else if plain.len() == 1 {
                    // put an earlier plain field of the group behind it
                    let p = level.pos(insts[k][plain[0]].tag).unwrap();
                    let cand: Vec<u32> =
                        (1..p).filter(|i| level.fields[*i].group.is_none()).map(|i| level.fields[i].tag).collect();
                    if cand.is_empty() {
                        continue;
                    }
                    let tag = *t.pick(&cand);
                    insts[k].insert(plain[0] + 1, Node::field(tag, "1"));
                    want = &[GRP_ORDER];
                } else {
                    continue;
                }
            }
            _ => {
                super::c03::check(&m, &c, ctx)?;
                ctx.label("well-formed");
                continue;
            }
        }
        let text = m.text();
        match ref_parse(&text, d) {
            Ref::Reject(r) => {
                let mut w: Vec<&str> = want.to_vec();
                w.extend(r.iter());
                if !r.iter().any(|x| want.contains(x)) {
                    return Err(fail("broken-oracle", format!("defect {:?} but the reference parser says {:?}", want, r), show(&text)));
                }
                ctx.label(&format!("{} at depth {}", want[0], depth));
                ctx.nontrivial();
                ctx.key(&text);
                ctx.sample(|| format!("{} -> {:?}", show(&text), r));
                let rr: Vec<&str> = r.into_iter().collect();
                c04_expect(&text, &rr, &c)?;
            }
            Ref::Open(_, _) if kind == 9 => {
                ctx.label("signed count");
                c04_expect(&text, &[BAD_FORMAT, GRP_COUNT], &c)?
            }
            Ref::Open(o, _) => ctx.label(&format!("open: {}", o)),
            Ref::Accept(_) => {
                // removing a duplicate-looking instance can leave a conforming message only if nothing changed
                return Err(fail("broken-oracle", "the injected defect left a conforming message", show(&text)));
            }
        }
    }
    Ok(())
}

fn shapes(_: &mut Ctx) -> Res {
    let c = DictCase::Shipped;
    let h = "8=FIX.4.3|9=1|35=E|66=l|394=1|";
    for (s, w) in [
        ("73=x|11=a|", BAD_FORMAT), ("73=2|11=a|", GRP_COUNT), ("73=1|11=a|11=b|", GRP_COUNT), ("73=0|11=a|", GRP_COUNT),
        ("73=1|67=1|11=a|", REQ_MISSING), ("73=1|78=0|11=a|", REQ_MISSING), ("73=1|", GRP_COUNT), ("73=1|58=t|11=a|", REQ_MISSING),
        ("73=1|11=a|160=1|67=1|", GRP_ORDER), ("73=2|11=a|67=1|11=b|160=1|67=2|", GRP_ORDER),
        ("73=1|11=a|78=x|79=b|", BAD_FORMAT), ("73=1|11=a|78=2|79=b|", GRP_COUNT), ("73=1|11=a|78=1|79=b|79=c|", GRP_COUNT),
        ("73=1|11=a|78=1|80=1|79=b|", REQ_MISSING), ("73=1|11=a|78=1|79=b|80=1|467=x|", GRP_ORDER),
        ("73=3|11=a|11=b|", GRP_COUNT), ("73=4294967295|11=a|", GRP_COUNT), ("73=2147483648|11=a|", GRP_COUNT),
    ] {
        for tail in ["10=000|", "", "58=z|10=000|"] {
            // 58 (Text) is a plain field of NoOrders: skip it where the group is still open
            if tail.starts_with("58") && !s.contains("58=") && w != BAD_FORMAT {
                continue;
            }
            let text = format!("{}{}{}", h, s, tail).replace('|', "\u{1}");
            match ref_parse(&text, c.d()) {
                Ref::Reject(r) => {
                    if !r.contains(w) {
                        return Err(fail("broken-oracle", format!("{} vs {:?}", w, r), show(&text)));
                    }
                    let rr: Vec<&str> = r.into_iter().collect();
                    c04_expect(&text, &rr, &c)?
                }
                o => return Err(fail("broken-oracle", format!("{:?}", o), show(&text))),
            }
        }
    }
    Ok(())
}

/// large in one dimension each
fn extremes(ctx: &mut Ctx) -> Res {
    for k in 0..crate::extreme::KINDS {
        let (what, c, m) = crate::extreme::get(k)?;
        let d = c.d();
        let mut gs: Vec<(Scope, usize)> = vec![];
        for s in scopes(&m) {
            gs.extend(s.nodes(&m).iter().enumerate().filter(|(_, n)| n.grp.is_some()).map(|(i, _)| (s.clone(), i)));
        }
        let n = gs.len();
        let mut some: Vec<usize> = (0..n.min(3)).chain([n / 2]).chain(n.saturating_sub(3)..n).filter(|i| *i < n).collect();
        some.dedup();
        for at in some {
            let (sc, i) = &gs[at];
            let level = sc.level(&m, d).get(sc.nodes(&m)[*i].tag).unwrap().group.as_ref().unwrap();
            for kind in 0..8 {
                let mut g = m.clone();
                let node = &mut sc.nodes_mut(&mut g)[*i];
                let insts = node.grp.as_mut().unwrap();
                let len = insts.len();
                let last = insts.last_mut().unwrap();
                let plain: Vec<usize> = (1..last.len()).filter(|i| last[*i].grp.is_none()).collect();
                match kind {
                    0 => {
                        insts.pop();
                    }
                    1 => {
                        let x = last.clone();
                        insts.push(x);
                    }
                    2 => node.val = format!("{}x", len),
                    3 => node.val = (len - 1).to_string(),
                    4 => node.val = (len + 1).to_string(),
                    5 if plain.len() > 1 => last.swap(plain[plain.len() - 2], plain[plain.len() - 1]),
                    6 if plain.len() > 1 => last.swap(plain[0], plain[plain.len() - 1]),
                    7 if insts[0].len() > 1 => {
                        insts[0].remove(0);
                    }
                    _ => continue,
                }
                let _ = level;
                let text = g.text();
                match ref_parse(&text, d) {
                    Ref::Reject(r) => {
                        let rr: Vec<&str> = r.into_iter().collect();
                        c04_expect(&text, &rr, &c)?;
                        ctx.label(what);
                    }
                    Ref::Open(..) => {}
                    Ref::Accept(_) => return Err(fail("broken-oracle", format!("{}: defect {} is none", what, kind), clip(&text, 500))),
                }
            }
        }
    }
    Ok(())
}
