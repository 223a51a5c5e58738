//! Messages and groups as maps.
use super::api::*;
use crate::engine::*;
use crate::ensure;
use crate::msg::*;
use crate::tape::Tape;
use fix_rs::message::{FieldMap, Message};
use std::collections::BTreeSet;
use std::str::FromStr;

pub static PROP: Prop = Prop {
    id: "C11",
    rule: "A case is a history of 1..40 (one in 500: up to 600) operations (set a field in a section or through the message, set or replace a \
group with 0..3 instances and fill its instances, nested to depth 3, set field orders, clone) on a message, with \
reads of random tags, as text and converted to numbers, characters and booleans, after every operation and a full \
comparison at the end, against a reference map. Non-trivial: a tag overwritten or a group replaced, or the same \
tag live in two sections; distinct by history.",
    quick: 160_000,
    thorough: 5_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("replaced groups", replaced), ("extreme sizes", extremes)],
    assumptions: &["groups are filled through the reference set_group returns; Group::add_group is not used"],
};

fn typed<T: FromStr + PartialEq + std::fmt::Debug>(fm: &FieldMap, tag: u32, v: Option<&String>, log: &str) -> Res {
    let got = fm.get_field::<T>(tag).ok();
    let want = v.and_then(|v| v.parse::<T>().ok());
    ensure!(got == want, "read", log, "reading tag {} gives {:?}, expected {:?}", tag, got, want);
    Ok(())
}
fn read(t: &mut Tape, fm: &FieldMap, m: &MMap, tag: u32, log: &str) -> Res {
    let v = m.fields.get(&tag);
    typed::<String>(fm, tag, v, log)?;
    match t.usize(6) {
        0 => typed::<u32>(fm, tag, v, log),
        1 => typed::<i64>(fm, tag, v, log),
        2 => {
            let got = fm.get_field::<f64>(tag).ok().map(|x| x.to_bits());
            let want = v.and_then(|v| v.parse::<f64>().ok()).map(|x| x.to_bits());
            ensure!(got == want, "read", log, "reading tag {} as a number gives {:?}", tag, got);
            Ok(())
        }
        3 => typed::<char>(fm, tag, v, log),
        4 => typed::<bool>(fm, tag, v, log),
        _ => typed::<u8>(fm, tag, v, log),
    }?;
    let g = fm.get_group(tag).map(|g| g.size() as usize);
    let w = m.groups.get(&tag).map(|g| g.1.len());
    ensure!(g == w, "group", log, "group {} has {:?} instances, expected {:?}", tag, g, w);
    Ok(())
}
pub fn compare(msg: &Message, m: &MMsg, log: &str) -> Res {
    let mut u: BTreeSet<u32> = (1..=420).collect();
    u.extend([600, 627, 1000, 5093, u32::MAX, 0]);
    let x = extract(msg, &u).map_err(|e| fail("read", e, log))?;
    let y = XMsg { header: m.s[0].x(), body: m.s[1].x(), trailer: m.s[2].x() };
    ensure!(x == y, "state", log, "the message does not hold what was set: {}", diff(&y, &x));
    // the message's shorthands are the body's
    for tag in y.body.fields.keys() {
        ensure!(msg.get_field::<String>(*tag).ok().as_ref() == y.body.fields.get(tag), "shorthand", log, "Message::get_field({})", tag);
        let n = msg.get_group(*tag).map(|g| g.size() as usize);
        ensure!(n == y.body.groups.get(tag).map(|g| g.len()), "shorthand", log, "Message::get_group({})", tag);
    }
    Ok(())
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut log = String::new();
    let (mut msg, mut m) = (Message::new(), MMsg::new());
    let long = t.chance(1, 500);
    let n = if long { t.rangei(100, 600) } else { t.rangei(1, 5) + t.len(0, 35) };
    let mut over = false;
    let mut old: Option<(Message, MMsg)> = None;
    for _ in 0..n {
        let before: Vec<usize> = m.s.iter().map(|s| s.fields.len()).collect();
        let prev = m.clone();
        step(t, &mut msg, &mut m, &mut log);
        if prev != m && before == m.s.iter().map(|s| s.fields.len()).collect::<Vec<_>>() {
            over = true;
        }
        if t.chance(1, 20) {
            old = Some((msg.clone(), m.clone()));
            log.push_str("clone ");
        }
        for _ in 0..t.len(0, 3) {
            let sec = t.usize(3);
            let tag = if t.chance(1, 8) { 2000 } else { { let q = t.flip(); gen_tag(t, sec, q) } };
            read(t, section(&msg, sec), &m.s[sec], tag, &log)?;
        }
    }
    compare(&msg, &m, &log)?;
    if let Some((a, b)) = &old {
        compare(a, b, &(log.clone() + "(the clone)"))?;
        ctx.label("clone kept apart");
    }
    let shared = m.s[1].fields.keys().any(|k| m.s[0].fields.contains_key(k) || m.s[2].fields.contains_key(k));
    if over || shared {
        ctx.nontrivial();
        ctx.key(&log);
        ctx.sample(|| log.clone());
    }
    ctx.label_if(over, "overwritten");
    ctx.label_if(long, "history of over 100 operations");
    ctx.label(&format!("group depth {}", m.depth()));
    Ok(())
}

fn replaced(_: &mut Ctx) -> Res {
    for a in 0..5u32 {
        for b in 0..5u32 {
            for nested in [false, true] {
                let mut msg = Message::new();
                let g = if nested {
                    let o = msg.set_group(1, 1, 2);
                    o[0].set_group(73, a, 11)
                } else {
                    msg.set_group(73, a, 11)
                };
                for i in 0..a as usize {
                    g[i].set_field(fix_rs::message::StringField::new(11, "old"));
                }
                let mut inst = MMap::default();
                inst.fields.insert(73, b.to_string());
                inst.groups.insert(73, (12, vec![MMap::default(); b as usize]));
                let mut m = MMsg::new();
                if nested {
                    let o = msg.set_group(1, 1, 2);
                    o[0].set_group(73, a, 11);
                    o[0].set_group(73, b, 12);
                    m.s[1].fields.insert(1, "1".into());
                    m.s[1].groups.insert(1, (2, vec![inst]));
                } else {
                    msg.set_group(73, b, 12);
                    m.s[1] = inst;
                }
                compare(&msg, &m, &format!("a group set to {} and then to {} instances", a, b))?;
            }
        }
    }
    Ok(())
}

/// many fields and instances, deep groups, long values, every edge tag
fn extremes(_: &mut Ctx) -> Res {
    let mut msg = Message::new();
    let mut m = MMsg::new();
    let tags: Vec<u32> = (1..3000).chain(crate::extreme::EDGES).collect();
    let long = "\u{e9}=".repeat(40_000);
    let all = |fm: &mut FieldMap, m: &mut MMap, skip: usize, word: &str| {
        for t in tags.iter().skip(skip).step_by(skip + 1) {
            let v = if t % 1000 == 7 { long.clone() } else { format!("{}{}", word, t) };
            set(fm, m, *t, &v);
        }
    };
    for (word, skip) in [("a", 0), ("b", 1), ("c", 2)] {
        for sec in 0..3 {
            all(section_mut(&mut msg, sec), &mut m.s[sec], skip, word);
        }
    }
    // groups: many instances, many fields, deep
    for (tag, n) in [(5001u32, 5000u32), (5002, 300), (5003, 70_000)] {
        let g = msg.set_group(tag, n, 11);
        let mut insts = vec![MMap { delim: Some(11), order: vec![11], ..Default::default() }; n as usize];
        for (k, i) in insts.iter_mut().enumerate() {
            set(&mut g[k], i, 11, &k.to_string());
        }
        for k in [0, 1, 127, 128, 255, 256, n as usize - 1] {
            let k = k.min(n as usize - 1);
            all(&mut g[k], &mut insts[k], 1, "i");
        }
        m.s[1].fields.insert(tag, n.to_string());
        m.s[1].groups.insert(tag, (11, insts));
    }
    fn nest(fm: &mut FieldMap, m: &mut MMap, depth: u32) {
        set(fm, m, 1000 + depth, "x");
        if depth < 60 {
            let g = fm.set_group(2, 2, 3);
            let mut insts = vec![MMap { delim: Some(3), order: vec![3], ..Default::default() }; 2];
            set(&mut g[0], &mut insts[0], 3, "y");
            nest(&mut g[1], &mut insts[1], depth + 1);
            m.fields.insert(2, "2".into());
            m.groups.insert(2, (3, insts));
        }
    }
    nest(msg.body_mut(), &mut m.s[1], 0);
    nest(msg.header_mut(), &mut m.s[0], 0);
    for s in 0..3 {
        let fm = section(&msg, s);
        for t in tags.iter().chain(&[0, 5004, 70_001]) {
            ensure!(fm.get_field::<String>(*t).ok().as_ref() == m.s[s].fields.get(t), "read", "", "section {} tag {}", s, t);
        }
        let same = |fm: &FieldMap, mm: &MMap| -> Res {
            fn walk(fm: &FieldMap, mm: &MMap) -> Res {
                for (t, v) in &mm.fields {
                    ensure!(fm.get_field::<String>(*t).ok().as_ref() == Some(v), "read", "", "tag {} holds {:?}, not {}", t, fm.get_field::<String>(*t).ok().map(|v| clip(&v, 50)), clip(v, 50));
                }
                for t in [0u32, 11, 3, 70_001] {
                    ensure!(mm.fields.contains_key(&t) || fm.get_field::<String>(t).is_err(), "read", "", "tag {} was never set", t);
                }
                for (t, g) in &mm.groups {
                    let Some(h) = fm.get_group(*t) else { return Err(fail("group", format!("group {} is gone", t), "")) };
                    ensure!(h.size() as usize == g.1.len(), "group", "", "group {} has {} instances, expected {}", t, h.size(), g.1.len());
                    for (k, i) in g.1.iter().enumerate() {
                        walk(&h[k], i)?;
                    }
                }
                Ok(())
            }
            walk(fm, mm)
        };
        same(fm, &m.s[s])?;
    }
    Ok(())
}
