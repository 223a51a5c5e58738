//! Membership and required flags of messages, header and trailer.
use super::c14::{gen_any, others};
use crate::dict::{self, Dict, Level};
use crate::engine::*;
use crate::ensure;
use crate::tape::Tape;
use fix_rs::data_dictionary::DataDictionary;
use std::collections::{BTreeSet, HashSet};

pub static PROP: Prop = Prop {
    id: "C15",
    rule: "A case is a generated well-formed dictionary: 1..5 messages, header and trailer mixing fields, groups (to \
depth 4) and components (nested in components, groups, messages, shared between them), all required/optional combinations. All membership queries \
are asked for every tag and every message, header and trailer, and unknown message types. Non-trivial: a message \
with a component and a group; distinct by document.",
    quick: 40_000,
    thorough: 1_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("shipped dictionary", shipped), ("extreme sizes", extremes)],
    assumptions: &["message types named header or trailer are not generated"],
};

fn set(s: Option<&HashSet<u32>>) -> Option<BTreeSet<u32>> {
    s.map(|s| s.iter().copied().collect())
}

/// queries for one message type against one level
pub fn check_level(dd: &DataDictionary, mt: &str, l: &Level, tags: &[u32], place: &str, top: bool, xml: &str) -> Res {
    let want: BTreeSet<u32> = l.fields.iter().map(|f| f.tag).collect();
    let req: BTreeSet<u32> = l.fields.iter().filter(|f| f.req).map(|f| f.tag).collect();
    let got = set(dd.get_msg_fields(mt));
    let greq = set(dd.get_msg_required_field(mt));
    let ok = |g: &Option<BTreeSet<u32>>, w: &BTreeSet<u32>| match g {
        Some(s) => s == w,
        // a group without (required) fields may have no entry
        None => w.is_empty() && !top,
    };
    ensure!(ok(&got, &want), "fields", xml, "{}: fields {:?}, declared {:?}", place, got, want);
    ensure!(ok(&greq, &req), "required", xml, "{}: required fields {:?}, expected {:?}", place, greq, req);
    for t in tags {
        let (a, b) = (dd.is_msg_field(mt, *t), want.contains(t));
        ensure!(a == b, "is_field", xml, "{}: is_msg_field({}) is {}", place, t, a);
        let (a, b) = (dd.is_msg_req_field(mt, *t), req.contains(t));
        ensure!(a == b, "is_req", xml, "{}: is_msg_req_field({}) is {}", place, t, a);
        let g = l.get(*t).is_some_and(|f| f.group.is_some());
        ensure!(dd.is_msg_group(mt, *t) == g, "is_group", xml, "{}: is_msg_group({}) is {}", place, t, !g);
    }
    Ok(())
}

pub fn check(d: &Dict, dd: &DataDictionary, xml: &str) -> Res {
    let tags = others(d);
    for (mt, l) in &d.msgs {
        check_level(dd, mt, l, &tags, &format!("message {}", mt), true, xml)?;
    }
    for (name, l) in [("header", &d.header), ("trailer", &d.trailer)] {
        check_level(dd, name, l, &tags, name, true, xml)?;
        for t in &tags {
            let a = if name == "header" { dd.is_header_field(*t) } else { dd.is_trailer_field(*t) };
            ensure!(a == l.get(*t).is_some(), "section", xml, "{} field query for {} is {}", name, t, a);
        }
    }
    for mt in ["zz-none", "", "HEADER", "M0", "messages"] {
        if !d.msgs.contains_key(mt) {
            ensure!(dd.get_msg_fields(mt).is_none() && dd.get_msg_required_field(mt).is_none(), "unknown", xml, "unknown message type {:?} has fields", mt);
            for t in &tags {
                ensure!(!dd.is_msg_field(mt, *t) && !dd.is_msg_req_field(mt, *t) && !dd.is_msg_group(mt, *t), "unknown", xml, "unknown message type {:?} has field {}", mt, t);
            }
        }
    }
    Ok(())
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let (spec, d, dd, xml) = gen_any(t, ctx)?;
    let rich = spec.messages.iter().any(|m| {
        m.items.iter().any(|i| matches!(i, dict::Item::Comp { .. })) && m.items.iter().any(|i| matches!(i, dict::Item::Group { .. }))
    });
    if rich {
        ctx.nontrivial();
        ctx.key(&xml);
        ctx.sample(|| clip(&xml, 700));
    }
    ctx.label_if(spec.comps.iter().any(|c| c.1.iter().any(|i| matches!(i, dict::Item::Comp { .. }))), "component in component");
    ctx.label_if(spec.comps.iter().any(|c| c.1.iter().any(|i| matches!(i, dict::Item::Group { .. }))), "group in component");
    ctx.label_if(d.header.groups() > 0, "header group");
    check(&d, &dd, &xml)
}

fn shipped(_: &mut Ctx) -> Res {
    check(&dict::fix43().1, dict::fix43_dd(), "FIX43.xml")
}

/// large in one dimension each
fn extremes(_: &mut Ctx) -> Res {
    for k in 0..crate::extreme::KINDS {
        if let super::common::DictCase::Own(b) = crate::extreme::get(k)?.1 {
            check(&b.1, &b.2, &b.3)?;
        }
    }
    Ok(())
}
