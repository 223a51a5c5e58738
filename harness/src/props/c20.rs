//! Valid configurations load, invalid ones are refused.
use super::c19::load;
use crate::conf::{self, Conf, Layout, Sec, BEGINS};
use crate::engine::*;
use crate::ensure;
use crate::tape::Tape;

pub static PROP: Prop = Prop {
    id: "C20",
    rule: "A case is a generated valid configuration to which 0..2 edits are applied: a setting removed from a section or from \
[Default], a connection type, begin string or port replaced by a valid or an invalid one at either place, a section dropped, added, \
doubled or moved before [Default]. A reference validator decides whether it must load. Non-trivial: an edited configuration; distinct by \
text; counted per reason of refusal.",
    quick: 800_000,
    thorough: 8_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("smallest configurations", smallest), ("one missing setting each", each)],
    assumptions: &[
        "every non-blank line is a section header or key = value; sections are [Default] and [Session]",
        "ports with sign or blanks, and empty comp ids are not generated",
        "an unparsable port counts where it is in effect: in the section, or in [Default] when the section has none",
    ],
};

/// Why a configuration must be refused; None when it must load
pub fn invalid(c: &Conf) -> Option<&'static str> {
    let nd = c.secs.iter().filter(|s| s.default).count();
    if nd == 0 {
        return Some("no [Default]");
    }
    if nd > 1 {
        return Some("two [Default]");
    }
    if !c.secs[0].default {
        return Some("[Session] before [Default]");
    }
    let ct = match c.secs[0].get("connection_type").map(|s| s.as_str()) {
        Some("acceptor") => true,
        Some("initiator") => false,
        None => return Some("no connection type"),
        Some(_) => return Some("bad connection type"),
    };
    for s in c.sessions() {
        let port = |k: &str, none: &'static str, bad: &'static str| match c.look(s, k) {
            None => Some(none),
            Some(v) if v.parse::<u16>().is_err() => Some(bad),
            _ => None,
        };
        let bad = if ct {
            port("socket_accept_port", "no accept port", "bad accept port")
        } else if c.look(s, "socket_connect_host").is_none() {
            Some("no connect host")
        } else {
            port("socket_connect_port", "no connect port", "bad connect port")
        };
        if bad.is_some() {
            return bad;
        }
        match c.look(s, "begin_string") {
            None => return Some("no begin string"),
            Some(b) if !BEGINS.contains(&b.as_str()) => return Some("bad begin string"),
            _ => {}
        }
        if c.look(s, "sender_comp_id").is_none() {
            return Some("no sender comp id");
        }
        if c.look(s, "target_comp_id").is_none() {
            return Some("no target comp id");
        }
    }
    None
}

pub fn check(c: &Conf, text: &str) -> Res {
    match (invalid(c), load(text)) {
        (None, Err(m)) => Err(fail("refused", format!("a valid configuration is refused: {}", m), text)),
        (Some(why), Ok(_)) => Err(fail("accepted", format!("a configuration with {} loads", why), text)),
        _ => Ok(()),
    }
}

const MAND: [&str; 7] = [
    "connection_type", "begin_string", "sender_comp_id", "target_comp_id", "socket_accept_port", "socket_connect_port", "socket_connect_host",
];
pub fn edit(t: &mut Tape, c: &mut Conf) {
    let n = c.secs.len();
    let i = t.usize(n.max(1));
    match t.weighted(&[6, 2, 2, 3, 1, 1, 1, 2]) {
        0 => {
            // removed from one place, or from everywhere
            let k = *t.pick(&MAND);
            if t.flip() {
                c.secs.iter_mut().for_each(|s| s.del(k));
            } else if let Some(s) = c.secs.get_mut(i) {
                s.del(k);
            }
        }
        1 => {
            let v = *t.pick(&["acceptor", "initiator", "", "client", "acceptors", "initiato", "acceptor initiator", "Acceptor", "INITIATOR"]);
            if let Some(d) = c.secs.iter_mut().find(|s| s.default) {
                d.set("connection_type", v)
            }
        }
        2 => {
            let v = *t.pick(&["FIX.4.4", "FIX.4.1", "FIX.4.0", "FIX.5.0", "FIXT.1.1", "FIX43", "", "FIX.4.", "FIX.4.33", "4.3", "fix.4.3", "Fix.4.4"]);
            if let Some(s) = c.secs.get_mut(i) {
                s.set("begin_string", v)
            }
        }
        3 => {
            let k = *t.pick(&["socket_accept_port", "socket_connect_port"]);
            let v = *t.pick(&["9878", "65535", "65536", "-1", "abc", "", "99999999999", "80a", "1.5", "0x50", "10 114"]);
            // a bad port of the kind not in use says nothing
            let used = match c.default().and_then(|d| d.get("connection_type")).map(|s| s.as_str()) {
                Some("initiator") => "socket_connect_port",
                _ => "socket_accept_port",
            };
            if k == used || v.parse::<u16>().is_ok() {
                if let Some(s) = c.secs.get_mut(i) {
                    s.set(k, v)
                }
            }
        }
        4 => {
            if n > 0 {
                c.secs.remove(i);
            }
        }
        5 => {
            let d = if t.flip() { Sec { default: true, kv: vec![] } } else { c.default().cloned().unwrap_or(Sec { default: true, kv: vec![] }) };
            let at = t.usize(n + 1);
            c.secs.insert(at, d);
        }
        6 => {
            // [Default] somewhere else
            if let Some(p) = c.secs.iter().position(|s| s.default) {
                let d = c.secs.remove(p);
                let at = t.usize(c.secs.len() + 1);
                c.secs.insert(at, d);
            }
        }
        _ => {
            // the other connection kind with its settings partly there
            if let Some(d) = c.secs.iter_mut().find(|s| s.default) {
                let now = d.get("connection_type").cloned();
                d.set("connection_type", if now.as_deref() == Some("acceptor") { "initiator" } else { "acceptor" });
                for k in ["socket_accept_port", "socket_connect_port", "socket_connect_host"] {
                    if t.flip() {
                        d.set(k, if k.ends_with("host") { "localhost" } else { "1234" });
                    }
                }
            }
        }
    }
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut c = conf::valid(t, 4, false);
    let edits = t.weighted(&[1, 4, 2]);
    for _ in 0..edits {
        edit(t, &mut c);
    }
    // identities may have become equal: that is outside the property
    let mut seen = std::collections::BTreeSet::new();
    let ids: Vec<String> = c.sessions().map(|s| format!("{:?}", c.id(s))).collect();
    if ids.iter().any(|i| !seen.insert(i.clone())) {
        ctx.label("identities collide");
        return Ok(());
    }
    let text = c.render(&Layout::gen(t));
    let why = invalid(&c);
    ctx.label(&why.map(|w| format!("refused: {}", w)).unwrap_or("loads".into()));
    if edits > 0 {
        ctx.nontrivial();
        ctx.key(&text);
        ctx.sample(|| clip(&text, 500));
    }
    check(&c, &text)
}

fn smallest(_: &mut Ctx) -> Res {
    for (text, ok) in [
        ("", false),
        ("\n\n  \n", false),
        ("[Default]", false),
        ("[Default]\nconnection_type=acceptor", true),
        ("[Default]\nconnection_type=\"initiator\"\n", true),
        ("[Session]\n[Default]\nconnection_type=acceptor\n", false),
        ("[Default]\nconnection_type=acceptor\n[Default]\nconnection_type=acceptor\n", false),
        ("[Default]\nconnection_type=acceptor\n[Session]\n", false),
    ] {
        let r = load(text);
        ensure!(r.is_ok() == ok, "smallest", text, "expected {}, got {:?}", if ok { "loads" } else { "refused" }, r.err());
    }
    Ok(())
}

/// each mandatory setting in either place, missing from both
fn each(_: &mut Ctx) -> Res {
    for ct in ["acceptor", "initiator"] {
        let keys: &[(&str, &str)] = if ct == "acceptor" { &[("socket_accept_port", "1000")] } else { &[("socket_connect_host", "h"), ("socket_connect_port", "1000")] };
        let mut keys = keys.to_vec();
        keys.extend([("begin_string", "FIX.4.2"), ("sender_comp_id", "S"), ("target_comp_id", "T")]);
        for mask in 0..3usize.pow(keys.len() as u32) {
            let mut d = Sec { default: true, kv: vec![("connection_type".into(), ct.into())] };
            let mut s = Sec::default();
            let mut m = mask;
            for (k, v) in &keys {
                match m % 3 {
                    0 => d.set(k, *v),
                    1 => s.set(k, *v),
                    _ => {}
                }
                m /= 3;
            }
            let c = Conf { secs: vec![d, s] };
            check(&c, &c.render(&Layout::plain()))?;
        }
    }
    Ok(())
}
