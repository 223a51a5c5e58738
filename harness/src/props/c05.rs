//! Section order.
use super::c04_expect;
use super::common::*;
use crate::engine::*;
use crate::msg::*;
use crate::tape::Tape;

pub static PROP: Prop = Prop {
    id: "C05",
    rule: "A case is a conforming message in which one order rule is broken: the three leading fields permuted, \
dropped, preceded or split by another field, or the text cut short; a header field moved or copied behind a body or trailer field; a \
body, undefined or header field placed behind a trailer field; a trailer field placed in the header or body. \
One case in six is left conforming and must be accepted. Non-trivial: the rule broken is not the very first \
field; distinct by text.",
    quick: 260_000,
    thorough: 6_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("leading fields", leading), ("extreme sizes", extremes)],
    assumptions: &["dictionaries keep a group's tags distinct from those of the levels around it"],
};

fn node_toks(n: &Node) -> Vec<(String, String)> {
    let mut v = vec![];
    flatten(std::slice::from_ref(n), &mut v);
    v
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let c = gen_dict(t, ctx)?;
    if t.chance(1, 6) {
        return tangled(t, &c, ctx, &[OUT_OF_ORDER]);
    }
    let d = c.d();
    for _ in 0..t.rangei(1, 4) {
        let m = gen_msg(t, d, &GenOpt { total: 60, ..Default::default() });
        let mut text = None;
        let kind = t.usize(6);
        match kind {
            0 => {
                super::c03::check(&m, &c, ctx)?;
                ctx.label("conforming");
                continue;
            }
            1 => {
                // the leading three
                let mut toks = m.tokens();
                match t.usize(5) {
                    0 => {
                        let (i, j) = *t.pick(&[(0, 1), (1, 2), (0, 2)]);
                        toks.swap(i, j)
                    }
                    1 => {
                        toks.remove(t.usize(3));
                    }
                    2 => {
                        let i = t.usize(3);
                        let tag = super::c01::any_tag(t, d).max(1);
                        if [8, 9, 35].contains(&tag) {
                            continue;
                        }
                        toks.insert(i, (tag.to_string(), "x".into()));
                    }
                    3 => toks.truncate(t.usize(3)),
                    _ => {
                        // one of the three stands later in the header instead
                        let i = t.usize(3);
                        let x = toks.remove(i);
                        let mut hd = vec![];
                        flatten(&m.header, &mut hd);
                        if hd.len() < 4 {
                            continue;
                        }
                        toks.insert(3.min(hd.len() - 1), x);
                    }
                }
                text = Some(print(&toks));
            }
            2 | 3 => {
                // a header field behind the first body or trailer field
                let mut g = m.clone();
                if g.body.is_empty() && g.trailer.is_empty() {
                    continue;
                }
                let i = t.usize(g.header.len());
                let n = if i >= 3 && t.flip() { g.header.remove(i) } else { g.header[i].clone() };
                // or a header field that was absent
                let n = if t.chance(1, 3) {
                    let f = t.pick(&d.header.fields);
                    Node::field(f.tag, "1")
                } else {
                    n
                };
                if kind == 2 && !g.body.is_empty() {
                    let at = t.rangei(1, g.body.len());
                    g.body.insert(at, n);
                } else if !g.trailer.is_empty() {
                    let lo = if g.body.is_empty() { 1 } else { 0 };
                    let at = t.rangei(lo, g.trailer.len());
                    g.trailer.insert(at, n);
                } else {
                    continue;
                }
                text = Some(g.text());
            }
            4 => {
                // a non-trailer field behind a trailer field
                let mut g = m.clone();
                if g.trailer.is_empty() {
                    continue;
                }
                let n = match t.usize(3) {
                    0 if !g.body.is_empty() => {
                        let i = t.usize(g.body.len());
                        if t.flip() { g.body.remove(i) } else { g.body[i].clone() }
                    }
                    1 => {
                        let l = &d.msgs[&g.mtype];
                        if l.fields.is_empty() {
                            continue;
                        }
                        Node::field(t.pick(&l.fields).tag, "1")
                    }
                    _ => {
                        let mut tag = t.range(1, 20000) as u32;
                        while d.trailer.get(tag).is_some() {
                            tag += 1;
                        }
                        Node::field(tag, "1")
                    }
                };
                let at = t.rangei(1, g.trailer.len());
                g.trailer.insert(at, n);
                text = Some(g.text());
            }
            _ => {
                // a trailer field inside the header or body
                let mut g = m.clone();
                let n = if g.trailer.is_empty() || t.flip() {
                    Node::field(t.pick(&d.trailer.fields).tag, "1")
                } else {
                    let i = t.usize(g.trailer.len());
                    g.trailer.remove(i)
                };
                if t.flip() && g.header.len() > 3 {
                    let at = t.rangei(3, g.header.len() - 1);
                    g.header.insert(at, n);
                } else if !g.body.is_empty() {
                    let at = t.usize(g.body.len());
                    g.body.insert(at, n);
                } else {
                    continue;
                }
                text = Some(g.text());
            }
        }
        let text = text.unwrap();
        let _ = node_toks;
        ctx.label(&format!("kind {}", kind));
        if kind != 1 {
            ctx.nontrivial();
            ctx.key(&text);
            ctx.sample(|| show(&text));
        }
        c04_expect(&text, &[OUT_OF_ORDER], &c)?;
    }
    Ok(())
}

fn leading(_: &mut Ctx) -> Res {
    let c = DictCase::Shipped;
    for s in [
        "", "8=FIX.4.3|", "8=FIX.4.3|9=1|", "9=1|8=FIX.4.3|35=A|98=0|", "8=FIX.4.3|35=A|9=1|", "35=A|8=FIX.4.3|9=1|",
        "8=FIX.4.3|9=1|34=1|35=A|", "8=FIX.4.3|9=1|98=0|35=A|", "34=1|8=FIX.4.3|9=1|35=A|", "8=FIX.4.3|8=FIX.4.3|9=1|35=A|",
        "10=000|", "35=A|", "8=FIX.4.3|9=1|10=000|", "8=FIX.4.3|9=1|35=A|10=000|98=0|", "8=FIX.4.3|9=1|35=A|10=000|34=1|",
        "8=FIX.4.3|9=1|35=A|98=0|34=1|", "8=FIX.4.3|9=1|35=A|34=1|98=0|49=X|10=000|", "8=FIX.4.3|9=1|35=A|10=000|5001=1|",
        "8=FIX.4.3|9=1|35=A|93=1|98=0|10=000|", "8=FIX.4.3|9=1|35=A|98=0|627=1|628=x|10=000|",
        "8=FIX.4.3|9=1|35=A|98=0|8=FIX.4.3|10=000|", "8=FIX.4.3|9=1|35=A|98=0|10=000|35=A|",
    ] {
        c04_expect(&s.replace('|', "\u{1}"), &[OUT_OF_ORDER], &c)?;
    }
    Ok(())
}

/// large in one dimension each
fn extremes(ctx: &mut Ctx) -> Res {
    for k in 0..crate::extreme::KINDS {
        let (what, c, m) = crate::extreme::get(k)?;
        let _ = what;
        super::c03::check(&m, &c, ctx)?;
        // a header field behind body and trailer fields, a body field behind trailer fields
        let (b, t) = (m.body.len(), m.trailer.len());
        for (sec, at) in [(1, b.min(1)), (1, b), (2, t)] {
            if sec == 1 && at == 0 {
                continue;
            }
            for h in [2, m.header.len() - 1] {
                let mut g = m.clone();
                let n = g.header[h].clone();
                g.section_mut(sec).insert(at, n);
                c04_expect(&g.text(), &[OUT_OF_ORDER], &c)?;
            }
        }
        for at in [1, t] {
            let mut g = m.clone();
            if g.body.is_empty() {
                continue;
            }
            let n = g.body.pop().unwrap();
            g.trailer.insert(at, n);
            c04_expect(&g.text(), &[OUT_OF_ORDER], &c)?;
        }
    }
    Ok(())
}
