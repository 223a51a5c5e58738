//! Messages built through the public API, together with a reference model of what they must hold.
use crate::engine::*;
use crate::ensure;
use crate::msg::{gen_value, XMap, SOH};
use crate::tape::Tape;
use fix_rs::message::{FieldMap, Message, StringField};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MMap {
    pub order: Vec<u32>,
    pub fields: BTreeMap<u32, String>,
    pub groups: BTreeMap<u32, (u32, Vec<MMap>)>,
    /// group delimiter, for instances
    pub delim: Option<u32>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct MMsg {
    pub s: [MMap; 3],
}
impl MMap {
    pub fn x(&self) -> XMap {
        XMap {
            fields: self.fields.clone(),
            groups: self.groups.iter().map(|(t, g)| (*t, g.1.iter().map(|i| i.x()).collect())).collect(),
        }
    }
    pub fn depth(&self) -> usize {
        self.groups.values().flat_map(|g| &g.1).map(|i| 1 + i.depth()).max().unwrap_or(0)
    }
    pub fn count(&self) -> usize {
        self.fields.len() + self.groups.values().flat_map(|g| &g.1).map(|i| i.count()).sum::<usize>()
    }
}
impl MMsg {
    pub fn new() -> MMsg {
        let mut m = MMsg::default();
        m.s[0].order = vec![8, 9, 35];
        m
    }
    pub fn depth(&self) -> usize {
        self.s.iter().map(|s| s.depth()).max().unwrap()
    }
    pub fn count(&self) -> usize {
        self.s.iter().map(|s| s.count()).sum()
    }
}

pub fn section(m: &Message, s: usize) -> &FieldMap {
    [m.header(), m.body(), m.trailer()][s]
}
pub fn section_mut(m: &mut Message, s: usize) -> &mut FieldMap {
    match s {
        0 => m.header_mut(),
        1 => m.body_mut(),
        _ => m.trailer_mut(),
    }
}

const HDR: &[u32] = &[8, 35, 49, 56, 9, 34, 52, 50, 57, 115, 128, 90, 43];
const TRL: &[u32] = &[10, 93, 89, 5093, 4];
const HGRP: &[u32] = &[627, 600];
const BODY: &[u32] = &[1, 11, 55, 54, 38, 44, 58, 73, 78, 268, 269, 1000, 4294967295, 100];

pub fn gen_tag(t: &mut Tape, sec: usize, inst: bool) -> u32 {
    if inst || sec == 1 {
        return if t.chance(1, 6) { 101 + t.below(300) as u32 } else { *t.pick(BODY) };
    }
    *t.pick(if sec == 0 { HDR } else { TRL })
}
pub fn value(t: &mut Tape) -> String {
    match t.weighted(&[6, 1, 1]) {
        0 => gen_value(t),
        1 => String::new(),
        _ => {
            let n = t.range(1, 400) as usize;
            t.pick(&["x", "é", "漢", "9"]).repeat(n)
        }
    }
}

pub fn set(fm: &mut FieldMap, m: &mut MMap, tag: u32, v: &str) {
    fm.set_field(StringField::new(tag, v));
    m.fields.insert(tag, v.to_string());
}

/// one operation on a map; `log` tells the story
pub fn op(t: &mut Tape, fm: &mut FieldMap, m: &mut MMap, sec: usize, inst: bool, depth: usize, log: &mut String) {
    match t.weighted(&[6, 2, 1]) {
        0 => {
            let tag = gen_tag(t, sec, inst);
            let v = value(t);
            log.push_str(&format!("set {}={} ", tag, show(&clip(&v, 20))));
            set(fm, m, tag, &v);
        }
        1 if depth < 3 && (inst || sec < 2 || t.chance(1, 4)) => group_op(t, fm, m, sec, inst, depth, log),
        _ => {
            let mut o = vec![];
            if sec == 0 && !inst {
                o.extend([8, 9, 35]);
            }
            if let Some(d) = m.delim {
                o.push(d);
            }
            for _ in 0..t.len(0, 6) {
                let tag = gen_tag(t, sec, inst);
                if !o.contains(&tag) && (tag != 10) {
                    o.push(tag);
                }
            }
            log.push_str(&format!("order {:?} ", o));
            fm.set_field_order(&o);
            m.order = o;
        }
    }
}
pub fn group_op(t: &mut Tape, fm: &mut FieldMap, m: &mut MMap, sec: usize, inst: bool, depth: usize, log: &mut String) {
    let tag = if !inst && sec == 0 {
        *t.pick(HGRP)
    } else if !inst && sec == 2 {
        5093
    } else {
        gen_tag(t, sec, inst)
    };
    let n = t.usize(4) as u32;
    let mut delim = gen_tag(t, sec, true);
    if delim == tag {
        delim = 99;
    }
    log.push_str(&format!("group {}x{} delim {} [ ", tag, n, delim));
    let g = fm.set_group(tag, n, delim);
    let mut insts: Vec<MMap> =
        (0..n).map(|_| MMap { delim: Some(delim), order: vec![delim], ..Default::default() }).collect();
    let steps = t.len(0, 8);
    for _ in 0..steps {
        if n == 0 {
            break;
        }
        let k = t.usize(n as usize);
        log.push_str(&format!("@{} ", k));
        if t.chance(1, 3) {
            let v = value(t);
            log.push_str(&format!("delim={} ", show(&clip(&v, 10))));
            set(&mut g[k], &mut insts[k], delim, &v);
        } else {
            op(t, &mut g[k], &mut insts[k], sec, true, depth + 1, log);
        }
    }
    log.push_str("] ");
    m.fields.insert(tag, n.to_string());
    m.groups.insert(tag, (delim, insts));
}

/// a message after a history of operations on random sections
pub fn history(t: &mut Tape, n: usize, log: &mut String) -> (Message, MMsg) {
    let (mut msg, mut m) = (Message::new(), MMsg::new());
    for _ in 0..n {
        step(t, &mut msg, &mut m, log);
    }
    (msg, m)
}
pub fn step(t: &mut Tape, msg: &mut Message, m: &mut MMsg, log: &mut String) {
    let sec = t.weighted(&[3, 5, 2]);
    log.push_str(["H:", "B:", "T:"][sec]);
    if sec == 1 && t.chance(1, 4) {
        // the message's own shorthands for the body
        let (tag, v) = (gen_tag(t, 1, false), value(t));
        log.push_str(&format!("msg.set {}={} ", tag, show(&clip(&v, 20))));
        msg.set_field(StringField::new(tag, &v));
        m.s[1].fields.insert(tag, v);
        return;
    }
    op(t, section_mut(msg, sec), &mut m.s[sec], sec, false, 0, log);
}

pub fn fields_of(text: &str) -> Vec<&str> {
    let mut v: Vec<&str> = text.split(SOH).collect();
    v.pop();
    v
}
pub fn tag_of(f: &str) -> &str {
    f.split_once('=').map(|x| x.0).unwrap_or(f)
}

/// (start of CheckSum field or end of text, value of the CheckSum field)
pub fn checksum_at(text: &str) -> (usize, Option<&str>) {
    let body = text.strip_suffix(SOH).unwrap_or(text);
    let start = body.rfind(SOH).map(|i| i + 1).unwrap_or(0);
    match body[start..].strip_prefix("10=") {
        Some(v) => (start, Some(v)),
        None => (text.len(), None),
    }
}
/// end of the BodyLength field, and its value, when the text starts [8=..|]9=..|
pub fn body_len_at(text: &str) -> Option<(usize, &str)> {
    let mut at = 0;
    if text.starts_with("8=") {
        at = text.find(SOH)? + 1;
    }
    let rest = text[at..].strip_prefix("9=")?;
    let e = rest.find(SOH)?;
    Some((at + 2 + e + 1, &rest[..e]))
}
pub fn byte_sum(s: &str) -> u32 {
    (s.bytes().map(|b| b as u64).sum::<u64>() % 256) as u32
}

/// Consumes the tokens of one map from the serialised text and checks them against the model: every
/// field once, in the given order, each group as count then instances.
pub fn layout(toks: &[&str], at: &mut usize, m: &MMap, place: &str) -> Result<(), String> {
    let mut seen: Vec<u32> = vec![];
    while seen.len() < m.fields.len() {
        let Some(f) = toks.get(*at) else { return Err(format!("{}: the text ends early", place)) };
        let Some((t, v)) = f.split_once('=') else { return Err(format!("{}: {:?} is no field", place, f)) };
        let Ok(tag) = t.parse::<u32>() else { return Err(format!("{}: bad tag {:?}", place, t)) };
        match m.fields.get(&tag) {
            None => return Err(format!("{}: field {} does not belong here", place, tag)),
            Some(w) if w != v => return Err(format!("{}: field {} written as {:?}, set to {:?}", place, tag, v, w)),
            _ => {}
        }
        if seen.contains(&tag) {
            return Err(format!("{}: field {} written twice", place, tag));
        }
        seen.push(tag);
        *at += 1;
        if let Some((_, insts)) = m.groups.get(&tag) {
            for (i, inst) in insts.iter().enumerate() {
                layout(toks, at, inst, &format!("{}/{}[{}]", place, tag, i))?;
            }
        }
    }
    let pos = |t: u32| m.order.iter().position(|o| *o == t).unwrap_or(usize::MAX);
    for w in seen.windows(2) {
        if pos(w[0]) > pos(w[1]) && w[0] != 10 && w[1] != 10 {
            return Err(format!("{}: field {} stands before {} although the field order is {:?}", place, w[0], w[1], m.order));
        }
    }
    if let Some(d) = m.delim {
        if m.fields.contains_key(&d) && seen[0] != d {
            return Err(format!("{}: the instance starts with {}, its delimiter is {}", place, seen[0], d));
        }
    }
    Ok(())
}

/// the whole message's text against the model
pub fn check_layout(msg: &Message, m: &MMsg, log: &str) -> Res {
    let text = msg.to_string();
    let repro = || format!("{} text {}", log, show(&text));
    ensure!(text.is_empty() || text.ends_with(SOH), "soh", repro(), "the last field is not terminated by SOH");
    let toks = fields_of(&text);
    let mut it: Vec<String> = vec![];
    for s in 0..3 {
        for f in section(msg, s).iter() {
            it.push(format!("{}={}", f.tag(), f.value()));
        }
    }
    ensure!(
        it.iter().map(|s| s.as_str()).eq(toks.iter().copied()), "iteration", repro(),
        "iteration yields {:?}", it
    );
    let lead: Vec<u32> = [8, 9, 35].into_iter().filter(|t| m.s[0].fields.contains_key(t)).collect();
    let got: Vec<&str> = toks.iter().take(lead.len()).map(|f| tag_of(f)).collect();
    ensure!(
        got.iter().zip(&lead).all(|(a, b)| *a == b.to_string()) && got.len() == lead.len(), "lead", repro(),
        "the text starts with {:?}, expected {:?}", got, lead
    );
    let mut at = 0;
    for (s, name) in ["header", "body", "trailer"].iter().enumerate() {
        if let Err(e) = layout(&toks, &mut at, &m.s[s], name) {
            return Err(fail("layout", e, repro()));
        }
    }
    ensure!(at == toks.len(), "layout", repro(), "{} fields more than were set", toks.len() - at);
    if m.s[2].fields.contains_key(&10) {
        ensure!(tag_of(toks[toks.len() - 1]) == "10", "checksum-last", repro(), "CheckSum is not the last field");
    }
    Ok(())
}
