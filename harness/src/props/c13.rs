//! Session identity from raw text.
use super::c01::{damage, gen_text, mutate};
use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::msg::*;
use crate::tape::Tape;
use fix_rs::message::Message;
use fix_rs::session::{SessionId, SessionIdBuilder};

pub static PROP: Prop = Prop {
    id: "C13",
    rule: "A case is a conforming message (FIX43 or a generated dictionary; identity parts present or absent, anywhere \
in the header, values with any character including '=' and text that looks like other fields) whose identity is compared with its header \
fields and its reverse with the swapped ones; one case in three is instead damaged or arbitrary text, for which only termination \
without panic is required. Non-trivial: an optional part present or absent while the rest of the text contains its \
digits, or a damaged text; distinct by text.",
    quick: 260_000,
    thorough: 8_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("prefixes", prefixes), ("look-alikes", lookalikes), ("extreme sizes", extremes)],
    assumptions: &["only conforming messages have an identity to compare; other texts must merely not panic"],
};

pub fn id_of(part: &dyn Fn(u32) -> Option<String>, swap: bool) -> SessionId {
    let (s, t) = ([49u32, 50, 142], [56u32, 57, 143]);
    let (s, t) = if swap { (t, s) } else { (s, t) };
    let p = |tag: u32| part(tag).unwrap_or_default();
    let mut b = SessionIdBuilder::new(p(8), p(s[0]), p(t[0]));
    b.sender_subid(p(s[1])).sender_locationid(p(s[2])).target_subid(p(t[1])).target_locationid(p(t[2]));
    b.build().unwrap()
}
fn parts(id: &SessionId) -> [Option<String>; 7] {
    [
        Some(id.begin_string().clone()), Some(id.sender_compid().clone()), id.sender_subid().clone(), id.sender_locationid().clone(),
        Some(id.target_compid().clone()), id.target_subid().clone(), id.target_locationid().clone(),
    ]
}

pub fn check(text: &str, part: &dyn Fn(u32) -> Option<String>) -> Res {
    let repro = || show(text);
    let id = guard(|| Message::get_session_id(text)).map_err(|p| fail("panic", format!("extraction panics: {}", p), repro()))?;
    let rev = guard(|| Message::get_reverse_session_id(text)).map_err(|p| fail("panic", format!("extraction panics: {}", p), repro()))?;
    let order = [8u32, 49, 50, 142, 56, 57, 143];
    let got = parts(&id);
    for (i, tag) in order.iter().enumerate() {
        let want = part(*tag);
        let want = if [8, 49, 56].contains(tag) { Some(want.unwrap_or_default()) } else { want };
        ensure!(got[i] == want, "identity", repro(), "part {} is {:?}, the header has {:?}", tag, got[i], want);
    }
    let r = parts(&rev);
    let swapped = [r[0].clone(), r[4].clone(), r[5].clone(), r[6].clone(), r[1].clone(), r[2].clone(), r[3].clone()];
    ensure!(swapped == got, "reverse", repro(), "the reverse identity is {}, the identity {}", rev, id);
    ensure!(id == id_of(part, false) && rev == id_of(part, true), "equality", repro(), "{} is not equal to the identity built from its parts", id);
    Ok(())
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let c = gen_dict(t, ctx)?;
    if t.chance(1, 3) {
        let text = if t.flip() {
            gen_text(t, &c, ctx)
        } else {
            let m = gen_msg(t, c.d(), &GenOpt { total: 30, ..Default::default() });
            let mut toks = m.tokens();
            let n = t.usize(3);
            mutate(t, &mut toks, &c, n);
            let mut s = print(&toks);
            if t.flip() {
                let cs: Vec<char> = s.chars().collect();
                s = cs[..t.usize(cs.len() + 1)].iter().collect();
            }
            if t.flip() {
                damage(t, &mut s);
            }
            s
        };
        ctx.label("damaged or arbitrary");
        ctx.nontrivial();
        ctx.key(&text);
        guard(|| Message::get_session_id(&text)).map_err(|p| fail("panic", format!("extraction panics: {}", p), show(&text)))?;
        guard(|| Message::get_reverse_session_id(&text)).map_err(|p| fail("panic", format!("extraction panics: {}", p), show(&text)))?;
        return Ok(());
    }
    let mut m = gen_msg(t, c.d(), &GenOpt { total: 40, fill: 5, ..Default::default() });
    // identity parts: force them often
    for tag in [49u32, 56, 50, 57, 142, 143] {
        if c.d().header.get(tag).is_some_and(|f| f.group.is_none()) && t.chance(1, 3) && !m.header.iter().any(|n| n.tag == tag) {
            let at = 3 + t.usize(m.header.len() - 2);
            m.header.insert(at, Node::field(tag, ""));
        }
    }
    for n in m.header.iter_mut() {
        if [49u32, 56, 50, 57, 142, 143].contains(&n.tag) && n.grp.is_none() {
            n.val = match t.usize(3) {
                0 => t.string(&['A', 'B', 'c', '1', '/', '-', '>', ':'], 1, 6),
                1 => gen_value(t),
                _ => t.pick(&["49=X", "56=", "=", "=8=", "8=FIX.4.2", "->", "a/b", "é漢", " x "]).to_string(),
            };
        }
    }
    let text = m.text();
    let part = |tag: u32| m.header.iter().find(|n| n.tag == tag).map(|n| n.val.clone());
    check(&text, &part)?;
    if t.chance(1, 4) {
        // a part the header has, once more behind the header: the header's is the one that counts
        let tag = *t.pick(&[8u32, 49, 56, 50, 57, 142, 143]);
        if part(tag).is_some() {
            let toks: Vec<&str> = text.split_inclusive('\u{1}').collect();
            let behind = m.body.len() + m.trailer.len();
            let at = toks.len() - t.usize(behind.min(6) + 1);
            let again = format!("{}={}\u{1}", tag, gen_value(t));
            let twice = [toks[..at].concat(), again, toks[at..].concat()].concat();
            ctx.label("a part once more behind the header");
            check(&twice, &part)?;
        }
    }
    for tag in [50u32, 57, 142, 143] {
        let here = part(tag).is_some();
        ctx.label(&format!("{} {}", tag, if here { "present" } else { "absent" }));
        if here || text.contains(&format!("{}=", tag)) {
            ctx.nontrivial();
        }
    }
    ctx.key(&text);
    ctx.sample(|| format!("{} -> {}", show(&text), Message::get_session_id(&text)));
    // the identity agrees with the parsed header
    if let Ok(Ok(p)) = parse(&text, c.dd()) {
        let f = |tag: u32| p.header().get_field::<String>(tag).ok();
        check(&text, &f)?;
    }
    Ok(())
}

fn prefixes(_: &mut Ctx) -> Res {
    let s = "8=FIX.4.3|9=73|35=A|49=é=B|50=sub|142=loc|56=T|57=ts|143=tl|98=0|10=061|".replace('|', "\u{1}");
    for (i, _) in s.char_indices().chain([(s.len(), ' ')]) {
        let p = &s[..i];
        for q in [p.to_string(), format!("\u{1}{}", p), format!("{}\u{1}", p)] {
            guard(|| Message::get_session_id(&q)).map_err(|e| fail("panic", format!("extraction panics: {}", e), show(&q)))?;
            guard(|| Message::get_reverse_session_id(&q)).map_err(|e| fail("panic", format!("extraction panics: {}", e), show(&q)))?;
        }
    }
    Ok(())
}
fn lookalikes(_: &mut Ctx) -> Res {
    for body in ["150=x|151=49|249=y|", "58=49=Z|", "1142=q|5057=w|357=e|", "58=\n49=Z\n|", "157=1|256=2|149=u|", "99949=1|99956=2|"] {
        for mask in 0..64u32 {
            let tags = [49u32, 50, 142, 56, 57, 143];
            let mut s = String::from("8=FIX.4.3|9=5|35=B|34=149|115=49|");
            for (i, t) in tags.iter().enumerate() {
                if mask >> i & 1 == 1 {
                    s.push_str(&format!("{}=v{}|", t, i));
                }
            }
            s.push_str(body);
            s.push_str("10=000|");
            let s = s.replace('|', "\u{1}");
            check(&s, &|tag| {
                if tag == 8 {
                    return Some("FIX.4.3".into());
                }
                tags.iter().position(|x| *x == tag).filter(|i| mask >> i & 1 == 1).map(|i| format!("v{}", i))
            })?;
        }
    }
    Ok(())
}

/// large in one dimension each
fn extremes(_: &mut Ctx) -> Res {
    for k in 0..crate::extreme::KINDS {
        let (what, c, m) = crate::extreme::get(k)?;
        let _ = what;
        let part = |tag: u32| m.header.iter().find(|n| n.tag == tag).map(|n| n.val.clone());
        check(&m.text(), &part)?;
    }
    Ok(())
}
