//! Settings lookups.
use crate::conf::{self, Conf, Layout, Sec, EXTRA, ID_KEYS};
use crate::engine::*;
use crate::ensure;
use crate::tape::Tape;
use fix_rs::quickfix_errors::ConfigErr;
use fix_rs::session::{Properties, SessionId};
use std::collections::BTreeSet;

pub static PROP: Prop = Prop {
    id: "C19",
    rule: "A case is a generated valid configuration (acceptor or initiator, 0..6 sessions, every identity part in the section, in \
[Default], in both or in neither, nearly colliding identities, extra keys with values of any characters, any layout) loaded from text or \
file. Every lookup function is asked for every key of the text and absent ones, typed as String, u16, u32 and bool, for every session, \
for [Default] and for an unknown session. Non-trivial: two or more sessions with a key that is in [Default] and overridden in only some; \
distinct by text.",
    quick: 16_000,
    thorough: 600_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("shipped configuration", shipped), ("sessions differing only in session_qualifier", qualifier)],
    assumptions: &[
        "keys are not repeated within a section; values have no line break, no quote at either end, and blanks there only when quoted",
        "sessions have distinct identities",
    ],
};

pub fn load(text: &str) -> Result<Properties, String> {
    guard(|| Properties::from_str(text))
}

fn class<T>(r: Result<T, ConfigErr>) -> Result<T, &'static str> {
    r.map_err(|e| match e {
        ConfigErr::NotFound(_) => "NotFound",
        ConfigErr::ParseError(_) => "ParseError",
    })
}
fn typed<F: std::str::FromStr>(v: Option<&String>) -> Result<F, &'static str> {
    match v {
        None => Err("NotFound"),
        Some(s) => s.parse::<F>().map_err(|_| "ParseError"),
    }
}

fn probe<F>(p: &Properties, sid: &SessionId, key: &str, own: Option<&String>, dflt: Option<&String>, ty: &str, text: &str) -> Res
where
    F: std::str::FromStr + PartialEq + std::fmt::Debug,
    F::Err: std::fmt::Debug,
{
    let at = |f: &str| format!("{}::<{}>({}, {:?})", f, ty, sid, key);
    let own_w = typed::<F>(own);
    let fb_w = typed::<F>(own.or(dflt));
    let d_w = typed::<F>(dflt);
    let got = class(p.get_config::<F>(sid, key));
    ensure!(got == own_w, "get_config", text, "{} gives {:?}, expected {:?}", at("get_config"), got, own_w);
    let got = class(p.get_or_default_config::<F>(sid, key));
    ensure!(got == fb_w, "get_or_default", text, "{} gives {:?}, expected {:?}", at("get_or_default_config"), got, fb_w);
    let got = class(p.get_default_config::<F>(key));
    ensure!(got == d_w, "get_default", text, "{} gives {:?}, expected {:?}", at("get_default_config"), got, d_w);
    match guard(|| p.get_optional_config::<F>(sid, key)) {
        Ok(g) => {
            let want = match &fb_w {
                Ok(v) => Some(v),
                Err("NotFound") => None,
                _ => return Err(fail("get_optional", format!("{} accepts an unparsable value as {:?}", at("get_optional_config"), g), text)),
            };
            ensure!(g.as_ref() == want, "get_optional", text, "{} gives {:?}, expected {:?}", at("get_optional_config"), g, want);
        }
        Err(m) => {
            ensure!(fb_w == Err("ParseError"), "get_optional", text, "{} panics ({}), expected {:?}", at("get_optional_config"), m, fb_w);
        }
    }
    Ok(())
}

pub fn check(c: &Conf, p: &Properties, text: &str) -> Res {
    let want: BTreeSet<String> = c.sessions().map(|s| format!("{:?}", c.id(s))).collect();
    let ids = p.session_ids();
    let got: BTreeSet<String> = ids.iter().map(|i| format!("{:?}", conf::parts(i))).collect();
    ensure!(ids.len() == got.len() && got == want, "sessions", text, "sessions {:?}, configured {:?}", got, want);
    let mut keys: BTreeSet<&str> = c.secs.iter().flat_map(|s| s.kv.iter().map(|x| x.0.as_str())).collect();
    keys.extend(EXTRA);
    keys.extend(ID_KEYS);
    keys.extend(["", "absent", "[Default]", "session_qualifier"]);
    let empty = Sec::default();
    let default = c.default().unwrap();
    let mut subjects: Vec<(SessionId, &Sec)> = vec![];
    for s in c.sessions() {
        let id = c.id(s);
        let sid = conf::build_id(&id);
        ensure!(ids.iter().any(|i| **i == sid), "sessions", text, "no session equal to {}", sid);
        subjects.push((sid, s));
    }
    let stranger = conf::build_id(&[Some("FIX.4.3".into()), Some("NOBODY".into()), None, None, Some("KNOWN".into()), None, None]);
    if !subjects.iter().any(|s| s.0 == stranger) {
        subjects.push((stranger, &empty));
    }
    for (sid, s) in &subjects {
        for k in &keys {
            let (own, dflt) = (s.get(k), default.get(k));
            let got = p.get_property(sid, k);
            ensure!(got == own, "get_property", text, "get_property({}, {:?}) gives {:?}, the section has {:?}", sid, k, got, own);
            probe::<String>(p, sid, k, own, dflt, "String", text)?;
            probe::<u16>(p, sid, k, own, dflt, "u16", text)?;
            probe::<u32>(p, sid, k, own, dflt, "u32", text)?;
            probe::<bool>(p, sid, k, own, dflt, "bool", text)?;
        }
    }
    for k in &keys {
        let got = p.get_property(&SessionId::default(), k);
        ensure!(got == default.get(k), "get_property", text, "get_property(default, {:?}) gives {:?}", k, got);
    }
    Ok(())
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let c = conf::valid(t, 6, true);
    let l = Layout::gen(t);
    let text = c.render(&l);
    let from_file = t.chance(1, 8);
    let p = if from_file {
        ctx.label("from file");
        let f = std::env::temp_dir().join(format!("fixcheck-c19-{}-{:?}", std::process::id(), std::thread::current().id()));
        std::fs::write(&f, &text).map_err(|e| fail("broken-oracle", e.to_string(), ""))?;
        let p = guard(|| Properties::new(&f));
        let _ = std::fs::remove_file(&f);
        p
    } else {
        load(&text)
    };
    let p = p.map_err(|m| fail("refused", format!("a valid configuration is refused: {}", m), text.clone()))?;
    let d = c.default().unwrap();
    let over = d.kv.iter().any(|(k, _)| {
        let n = c.sessions().filter(|s| s.get(k).is_some()).count();
        n > 0 && n < c.secs.len() - 1
    });
    ctx.label(&format!("{} sessions", c.secs.len() - 1));
    ctx.label_if(c.sessions().any(|s| s.kv.iter().any(|x| x.1.is_empty() && d.get(&x.0).is_some())), "an empty value over a default");
    if over && c.secs.len() > 2 {
        ctx.nontrivial();
        ctx.key(&text);
        ctx.sample(|| clip(&text, 700));
    }
    check(&c, &p, &text)
}

fn shipped(_: &mut Ctx) -> Res {
    let text = std::fs::read_to_string(crate::dict::repo() + "/src/FixConfig.toml").map_err(|e| fail("broken-oracle", e.to_string(), ""))?;
    let mut c = Conf { secs: vec![] };
    for l in text.lines().map(|l| l.trim()).filter(|l| !l.is_empty()) {
        if l.starts_with('[') {
            c.secs.push(Sec { default: l == "[Default]", kv: vec![] });
        } else {
            let (k, v) = l.split_once('=').unwrap();
            c.secs.last_mut().unwrap().set(k.trim(), v.trim().trim_matches('"'));
        }
    }
    let p = load(&text).map_err(|m| fail("refused", m, text.clone()))?;
    check(&c, &p, &text)
}

/// two sections that differ in nothing but session_qualifier are two sessions
fn qualifier(_: &mut Ctx) -> Res {
    let text = "[Default]\nconnection_type = \"acceptor\"\nbegin_string = \"FIX.4.3\"\nsocket_accept_port = 10114\n\
sender_comp_id = \"S\"\ntarget_comp_id = \"T\"\n[Session]\nsession_qualifier = \"one\"\n[Session]\nsession_qualifier = \"two\"\n";
    let p = load(text).map_err(|m| fail("refused", m, text))?;
    ensure!(p.session_ids().len() == 2, "qualifier", text, "two sections differing only in session_qualifier give {} session", p.session_ids().len());
    Ok(())
}
