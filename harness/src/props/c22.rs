//! Sessions are created with their configured settings.
use super::{c14, c15, c19};
use crate::conf::{self, Conf, Layout};
use crate::dict::{self, Dict, Profile, Style};
use crate::engine::*;
use crate::ensure;
use crate::tape::Tape;
use fix_rs::session::Session;
use std::path::PathBuf;

pub static PROP: Prop = Prop {
    id: "C22",
    rule: "A case is a generated valid configuration in which heartbeat interval, the three reset flags and the dictionary path stand \
in the section, in [Default], in both or in neither, with valid or (one case in four) unparsable values; dictionaries are generated files. \
Every session is created from it; its identity and its dictionary (types, fields, required flags of all messages) are compared with the \
reference, and its interval and flags as it prints itself. Non-trivial: a setting that is in [Default] and overridden in a section; \
distinct by text.",
    quick: 6_000,
    thorough: 250_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("shipped dictionary by default", by_default)],
    assumptions: &[
        "interval and flags have no accessor: they are read from the Debug form (fields heartbeat_intrvl, reset_on_*) and not checked if it lacks them",
        "flags are written true or false, the interval as a decimal number",
    ],
};

const KEYS: [&str; 4] = ["heartbeat_interval", "reset_on_logon", "reset_on_logout", "reset_on_disconnect"];
const SHOWN: [&str; 4] = ["heartbeat_intrvl: ", "reset_on_logon: ", "reset_on_logout: ", "reset_on_disconnect: "];

struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub fn dir() -> PathBuf {
    use std::sync::atomic::*;
    static N: AtomicU64 = AtomicU64::new(0);
    let p = std::env::temp_dir().join(format!("fixcheck-dir-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&p).expect("scratch");
    p
}

fn shown(dbg: &str, key: &str) -> Option<String> {
    let at = dbg.find(key)? + key.len();
    Some(dbg[at..].chars().take_while(|c| c.is_ascii_alphanumeric()).collect())
}

/// Ok(values) or the key that does not parse
fn expected(c: &Conf, s: &conf::Sec) -> Result<[String; 4], &'static str> {
    let mut out: [String; 4] = Default::default();
    for (i, k) in KEYS.iter().enumerate() {
        out[i] = match c.look(s, k) {
            None => if i == 0 { "30".into() } else { "true".into() },
            Some(v) if i == 0 => v.parse::<u32>().map_err(|_| *k)?.to_string(),
            Some(v) => v.parse::<bool>().map_err(|_| *k)?.to_string(),
        };
    }
    Ok(out)
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let _ = std::env::set_current_dir(dict::repo());
    let d = Dir(dir());
    let mut dicts: Vec<(String, Dict, String)> = vec![];
    for i in 0..t.rangei(1, 3) {
        let (spec, m) = dict::gen(t, Profile::Any);
        let xml = spec.to_xml(&Style::plain());
        let f = d.0.join(format!("dict{}.xml", i)).display().to_string();
        std::fs::write(&f, &xml).map_err(|e| fail("broken-oracle", e.to_string(), ""))?;
        dicts.push((f, m, xml));
    }
    let mut c = conf::valid(t, 4, false);
    let bad = t.chance(1, 4);
    let n = c.secs.len();
    for i in 0..n {
        for k in KEYS {
            if t.chance(2, 5) {
                let v = if bad && t.chance(1, 4) {
                    if k == KEYS[0] { *t.pick(&["", "abc", "-1", "3.5", "4294967296", "30s", "1e3"]) } else { *t.pick(&["", "maybe", "Y", "no", "1", "0", "truefalse"]) }
                } else if k == KEYS[0] {
                    *t.pick(&["0", "1", "10", "29", "30", "31", "60", "3600", "4294967295"])
                } else {
                    *t.pick(&["true", "false"])
                };
                c.secs[i].set(k, v);
            }
        }
        // mostly in [Default], so that the large shipped dictionary is loaded rarely
        if t.chance(if i == 0 { 15 } else { 5 }, 16) {
            let f = t.pick(&dicts).0.clone();
            c.secs[i].set("data_dictionary", f);
        }
    }
    let text = c.render(&Layout::gen(t));
    let props = c19::load(&text).map_err(|m| fail("refused", format!("a valid configuration is refused: {}", m), text.clone()))?;
    let def = c.default().unwrap();
    if c.sessions().any(|s| KEYS.iter().any(|k| s.get(k).is_some_and(|v| def.get(k).is_some_and(|w| w != v)))) {
        ctx.nontrivial();
        ctx.key(&text);
        ctx.sample(|| clip(&text, 600));
    }
    let mut made: Vec<(Session, &conf::Sec)> = vec![];
    for s in c.sessions() {
        let sid = conf::build_id(&c.id(s));
        let r = guard(|| Session::with_settings(&sid, &props));
        match (expected(&c, s), r) {
            (Ok(_), Ok(session)) => made.push((session, s)),
            (Err(_), Err(_)) => ctx.label("unparsable setting refused"),
            (Ok(_), Err(m)) => return Err(fail("panic", format!("creating session {} panics: {}", sid, m), text)),
            (Err(k), Ok(_)) => return Err(fail("accepted", format!("session {} is created with an unparsable {}", sid, k), text)),
        }
    }
    // compared only now: creating one session must not change another
    for (session, s) in &made {
        let id = c.id(s);
        let sid = conf::build_id(&id);
        ensure!(session.session_id == sid && conf::parts(&session.session_id) == id, "identity", text, "session {} has identity {}", sid, session.session_id);
        match c.look(s, "data_dictionary") {
            Some(f) => {
                let (_, m, xml) = dicts.iter().find(|d| d.0 == *f).unwrap();
                same_dict(m, session, xml, &text)?;
                ctx.label("own dictionary");
            }
            None => {
                same_dict(&dict::fix43().1, session, "FIX43.xml", &text)?;
                ctx.label("shipped dictionary");
            }
        }
        let dbg = format!("{:?}", session);
        let want = expected(&c, s).unwrap();
        for (i, k) in SHOWN.iter().enumerate() {
            match shown(&dbg, k) {
                Some(v) => {
                    ensure!(v == want[i], "setting", text, "session {} has {}{}, expected {}", sid, k, v, want[i]);
                    ctx.add("settings compared", 1);
                }
                None => ctx.label("setting not shown"),
            }
        }
    }
    Ok(())
}

fn same_dict(m: &Dict, s: &Session, xml: &str, text: &str) -> Res {
    let r = c14::check(m, s.data_dictionary(), xml).and_then(|_| c15::check(m, s.data_dictionary(), xml));
    r.map_err(|f| fail("dictionary", format!("session {} has another dictionary: {}", s.session_id, f.msg), text))
}

fn by_default(_: &mut Ctx) -> Res {
    let _ = std::env::set_current_dir(dict::repo());
    let text = "[Default]\nconnection_type = \"acceptor\"\nbegin_string = \"FIX.4.3\"\nsocket_accept_port = 10114\n[Session]\nsender_comp_id=S\ntarget_comp_id=T\n";
    let p = c19::load(text).map_err(|m| fail("refused", m, text))?;
    let s = guard(|| Session::with_settings(p.session_ids()[0], &p)).map_err(|m| fail("panic", m, text))?;
    same_dict(&dict::fix43().1, &s, "FIX43.xml", text)
}
