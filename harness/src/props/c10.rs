//! Layout of the serialised text.
use super::api::*;
use super::common::*;
use crate::dict::Level;
use crate::engine::*;
use crate::msg::*;
use crate::tape::Tape;
use fix_rs::message::{Message, StringField};

pub static PROP: Prop = Prop {
    id: "C10",
    rule: "A case is a message built by 0..30 random operations on header, body and trailer (fields, groups nested to \
depth 3 with fields set in any order, replaced groups, field orders) checked against a reference model after \
every few steps, or a parsed conforming message (whose instances follow the dictionary's order), possibly \
completed through the API. Non-trivial: at least one group instance with two fields or a trailer with \
CheckSum and another field; distinct by text.",
    quick: 200_000,
    thorough: 5_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("orders", orders), ("extreme sizes", extremes)],
    assumptions: &[
        "a header given its own field order has BeginString, BodyLength, MsgType first; an instance's starts with the delimiter",
        "messages are made with Message::new() or by parsing",
    ],
};

/// the model of a parsed conforming message
fn of_parsed(nodes: &[Node], l: Option<&Level>, delim: Option<u32>) -> MMap {
    let mut m = MMap { delim, ..Default::default() };
    if let (Some(l), Some(_)) = (l, delim) {
        m.order = l.fields.iter().map(|f| f.tag).collect();
    }
    for n in nodes {
        m.fields.insert(n.tag, n.val.clone());
        if let Some(g) = &n.grp {
            let gl = l.and_then(|l| l.get(n.tag)).and_then(|f| f.group.as_ref());
            let d = gl.and_then(|g| g.delim());
            m.groups.insert(n.tag, (d.unwrap_or(0), g.iter().map(|i| of_parsed(i, gl, d)).collect()));
        }
    }
    m
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut log = String::new();
    let (mut msg, mut m);
    if t.chance(1, 4) {
        let c = gen_dict(t, ctx)?;
        let g = gen_msg(t, c.d(), &GenOpt { total: 60, ..Default::default() });
        let Ok(Ok(p)) = parse(&g.text(), c.dd()) else { return Ok(()) };
        log = format!("{} parsed {} ", c.describe(), show(&g.text()));
        msg = p;
        let d = c.d();
        m = MMsg { s: [of_parsed(&g.header, Some(&d.header), None), of_parsed(&g.body, d.msgs.get(&g.mtype), None), of_parsed(&g.trailer, Some(&d.trailer), None)] };
        m.s[0].order = vec![8, 9, 35];
        ctx.label("parsed");
    } else {
        msg = Message::new();
        m = MMsg::new();
        ctx.label("built");
    }
    check_layout(&msg, &m, &log)?;
    let n = t.len(0, 30);
    for i in 0..n {
        step(t, &mut msg, &mut m, &mut log);
        if i % 7 == 6 {
            check_layout(&msg, &m, &log)?;
        }
    }
    if t.flip() {
        msg.set_body_len();
        msg.set_checksum();
        log.push_str("set_body_len set_checksum ");
        m.s[0].fields.insert(9, msg.header().get_field(9).unwrap_or_default());
        m.s[2].fields.insert(10, msg.trailer().get_field(10).unwrap_or_default());
    }
    let copy = msg.clone();
    check_layout(&msg, &m, &log)?;
    check_layout(&copy, &m, &(log.clone() + "clone "))?;
    let big = |m: &MMap| m.groups.values().flat_map(|g| &g.1).any(|i| i.fields.len() > 1);
    if m.s.iter().any(big) || (m.s[2].fields.len() > 1 && m.s[2].fields.contains_key(&10)) {
        ctx.nontrivial();
        ctx.key(&msg.to_string());
        ctx.sample(|| show(&msg.to_string()));
    }
    ctx.label(&format!("group depth {}", m.depth()));
    ctx.label_if(m.s[2].fields.len() > 1 && m.s[2].fields.contains_key(&10), "CheckSum with other trailer fields");
    Ok(())
}

/// many field insertion orders of a small group and trailer
fn orders(_: &mut Ctx) -> Res {
    let tags = [11u32, 1, 99, 4000, 2];
    for rot in 0..120usize {
        let mut pool = tags.to_vec();
        let mut seq = vec![];
        let mut r = rot;
        while !pool.is_empty() {
            let k = r % pool.len();
            r /= pool.len();
            seq.push(pool.remove(k));
        }
        let mut msg = Message::new();
        let mut m = MMsg::new();
        for t in [35u32, 9, 8] {
            set(msg.header_mut(), &mut m.s[0], t, "1");
        }
        for t in &seq {
            set(msg.trailer_mut(), &mut m.s[2], if *t == 11 { 10 } else { *t }, "1");
        }
        let g = msg.set_group(73, 2, 11);
        let mut insts = vec![MMap { delim: Some(11), order: vec![11], ..Default::default() }; 2];
        for k in 0..2 {
            for t in &seq {
                g[k].set_field(StringField::new(*t, "v"));
                insts[k].fields.insert(*t, "v".into());
            }
        }
        m.s[1].fields.insert(73, "2".into());
        m.s[1].groups.insert(73, (11, insts));
        check_layout(&msg, &m, &format!("orders {:?}", seq))?;
    }
    Ok(())
}

/// large in one dimension each
fn extremes(ctx: &mut Ctx) -> Res {
    for k in 0..crate::extreme::KINDS {
        let (what, c, g) = crate::extreme::get(k)?;
        let Ok(Ok(p)) = parse(&g.text(), c.dd()) else { continue };
        let d = c.d();
        let mut m = MMsg { s: [of_parsed(&g.header, Some(&d.header), None), of_parsed(&g.body, d.msgs.get(&g.mtype), None), of_parsed(&g.trailer, Some(&d.trailer), None)] };
        m.s[0].order = vec![8, 9, 35];
        check_layout(&p, &m, what)?;
        ctx.label(what);
    }
    // long orders of sections and instances, with and without all the fields
    for (n, step) in [(300u32, 1usize), (1000, 1), (1000, 3), (70_000, 1000), (70_000, 999)] {
        let mut msg = Message::new();
        let mut m = MMsg::new();
        let order: Vec<u32> = (0..n).map(|i| 100_000 + (i * 7919) % n).collect();
        let some: Vec<u32> = order.iter().rev().copied().step_by(step).collect();
        for sec in 0..3 {
            let mut o = if sec == 0 { vec![8, 9, 35] } else { vec![] };
            o.extend(&order);
            for t in [35u32, 9, 8].iter().filter(|_| sec == 0).chain(&some) {
                set(section_mut(&mut msg, sec), &mut m.s[sec], *t, "v");
            }
            section_mut(&mut msg, sec).set_field_order(&o);
            m.s[sec].order = o;
        }
        let g = msg.set_group(73, 2, 11);
        let mut o = vec![11];
        o.extend(&order);
        let mut insts = vec![MMap { delim: Some(11), order: o.clone(), ..Default::default() }; 2];
        for k in 0..2 {
            g[k].set_field_order(&o);
            for t in some.iter().chain([&11]) {
                set(&mut g[k], &mut insts[k], *t, "w");
            }
        }
        m.s[1].fields.insert(73, "2".into());
        m.s[1].groups.insert(73, (11, insts));
        check_layout(&msg, &m, &format!("orders of {} tags", n))?;
    }
    Ok(())
}
