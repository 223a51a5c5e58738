//! Repeating groups of a dictionary.
use super::c14::{gen_any, others};
use super::c15::check_level;
use crate::dict::{self, Dict, Level};
use crate::engine::*;
use crate::ensure;
use crate::tape::Tape;
use fix_rs::data_dictionary::DataDictionary;

pub static PROP: Prop = Prop {
    id: "C16",
    rule: "A case is a generated well-formed dictionary as for C15; every group of every message and of the header, \
at every depth, is asked for its delimiter, order, fields, required fields and subgroups, and all other tags at the same level for not \
being groups. Non-trivial: a group of depth two or one whose content comes from a component; distinct by document.",
    quick: 40_000,
    thorough: 1_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("shipped dictionary", shipped), ("extreme sizes", extremes)],
    assumptions: &["the delimiter of a group that lists no field at all is not constrained"],
};

fn groups(dd: &DataDictionary, mt: &str, l: &Level, tags: &[u32], place: &str, xml: &str, n: &mut u64) -> Res {
    for t in tags {
        let g = dd.get_msg_group(mt, *t);
        let w = l.get(*t).and_then(|f| f.group.as_ref());
        ensure!(g.is_some() == w.is_some(), "known", xml, "{}: group {} known: {}, declared: {}", place, t, g.is_some(), w.is_some());
        ensure!(dd.is_msg_group(mt, *t) == w.is_some(), "known", xml, "{}: is_msg_group({}) is wrong", place, t);
        let (Some(g), Some(w)) = (g, w) else { continue };
        *n += 1;
        let at = format!("{}/{}", place, t);
        if let Some(d) = w.delim() {
            ensure!(g.delimiter() == d, "delimiter", xml, "{}: delimiter {}, the first field is {}", at, g.delimiter(), d);
        }
        let order = g.data_dictionary().get_ordered_fields();
        let want: Vec<u32> = w.fields.iter().map(|f| f.tag).collect();
        ensure!(order == want, "order", xml, "{}: field order {:?}, declared {:?}", at, order, want);
        check_level(g.data_dictionary(), mt, w, tags, &at, false, xml)?;
        for other in ["header", "trailer", "zz-none"] {
            if other != mt {
                ensure!(g.data_dictionary().get_msg_fields(other).is_none(), "leak", xml, "{}: fields for {:?} in the group of {:?}", at, other, mt);
            }
        }
        groups(g.data_dictionary(), mt, w, tags, &at, xml, n)?;
    }
    Ok(())
}
pub fn check(d: &Dict, dd: &DataDictionary, xml: &str) -> Result<u64, Failure> {
    let tags = others(d);
    let mut n = 0;
    for (mt, l) in &d.msgs {
        groups(dd, mt, l, &tags, &format!("message {}", mt), xml, &mut n)?;
    }
    groups(dd, "header", &d.header, &tags, "header", xml, &mut n)?;
    groups(dd, "trailer", &d.trailer, &tags, "trailer", xml, &mut n)?;
    Ok(n)
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let (spec, d, dd, xml) = gen_any(t, ctx)?;
    let depth = d.msgs.values().map(|l| l.depth()).max().unwrap_or(0);
    fn comp_in_group(v: &[dict::Item], inside: bool) -> bool {
        v.iter().any(|i| match i {
            dict::Item::Comp { .. } => inside,
            dict::Item::Group { items, .. } => comp_in_group(items, true),
            _ => false,
        })
    }
    let cg = spec.messages.iter().any(|m| comp_in_group(&m.items, false));
    if depth >= 2 || cg {
        ctx.nontrivial();
        ctx.key(&xml);
        ctx.sample(|| clip(&xml, 700));
    }
    ctx.label(&format!("depth {}", depth));
    ctx.label_if(cg, "component in group");
    let n = check(&d, &dd, &xml)?;
    ctx.add("groups checked", n);
    Ok(())
}

fn shipped(_: &mut Ctx) -> Res {
    let n = check(&dict::fix43().1, dict::fix43_dd(), "FIX43.xml")?;
    if n < 50 {
        return Err(fail("broken-oracle", format!("only {} groups in FIX43", n), ""));
    }
    Ok(())
}

/// large in one dimension each
fn extremes(_: &mut Ctx) -> Res {
    for k in 0..crate::extreme::KINDS {
        if let super::common::DictCase::Own(b) = crate::extreme::get(k)?.1 {
            check(&b.1, &b.2, &b.3)?;
        }
    }
    Ok(())
}
