//! Configuration texts as data: sections, a renderer with layout choices, generators, and a reference
//! lookup written from properties C19-C24.
use crate::tape::Tape;
use fix_rs::session::{SessionId, SessionIdBuilder};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sec {
    pub default: bool,
    pub kv: Vec<(String, String)>,
}
impl Sec {
    pub fn get(&self, k: &str) -> Option<&String> {
        self.kv.iter().find(|x| x.0 == k).map(|x| &x.1)
    }
    pub fn set(&mut self, k: &str, v: impl Into<String>) {
        let v = v.into();
        match self.kv.iter_mut().find(|x| x.0 == k) {
            Some(x) => x.1 = v,
            None => self.kv.push((k.into(), v)),
        }
    }
    pub fn del(&mut self, k: &str) {
        self.kv.retain(|x| x.0 != k)
    }
}
#[derive(Clone, Debug, Default)]
pub struct Conf {
    pub secs: Vec<Sec>,
}

pub type Id = [Option<String>; 7];
pub const ID_KEYS: [&str; 7] =
    ["begin_string", "sender_comp_id", "sender_sub_id", "sender_location_id", "target_comp_id", "target_sub_id", "target_location_id"];
pub const BEGINS: [&str; 3] = ["FIX.4.2", "FIX.4.3", "FIX.4.4"];

impl Conf {
    pub fn default(&self) -> Option<&Sec> {
        self.secs.iter().find(|s| s.default)
    }
    pub fn default_mut(&mut self) -> &mut Sec {
        self.secs.iter_mut().find(|s| s.default).unwrap()
    }
    pub fn sessions(&self) -> impl Iterator<Item = &Sec> {
        self.secs.iter().filter(|s| !s.default)
    }
    /// section over default
    pub fn look<'a>(&'a self, s: &'a Sec, k: &str) -> Option<&'a String> {
        s.get(k).or_else(|| self.default().and_then(|d| d.get(k)))
    }
    pub fn id(&self, s: &Sec) -> Id {
        let mut id: Id = Default::default();
        for (i, k) in ID_KEYS.iter().enumerate() {
            id[i] = self.look(s, k).cloned();
            if [2, 3, 5, 6].contains(&i) && id[i].as_deref() == Some("") {
                id[i] = None;
            }
        }
        id
    }
    pub fn render(&self, l: &Layout) -> String {
        let mut o = String::new();
        let nl = if l.crlf { "\r\n" } else { "\n" };
        let mut n = 0usize;
        let mut blank = |o: &mut String| {
            n += 1;
            if l.blanks != 0 && n % l.blanks == 0 {
                o.push_str(["", "   ", "\t"][n % 3]);
                o.push_str(nl);
            }
        };
        for (i, s) in self.secs.iter().enumerate() {
            blank(&mut o);
            o.push_str(&l.indent);
            o.push_str(if s.default { "[Default]" } else { "[Session]" });
            if l.trail {
                o.push_str("  ");
            }
            o.push_str(nl);
            for (j, (k, v)) in s.kv.iter().enumerate() {
                blank(&mut o);
                o.push_str(&l.indent);
                if l.qkeys && (i + 2 * j) % 3 != 0 {
                    o.push('"');
                    o.push_str(k);
                    o.push('"');
                } else {
                    o.push_str(k);
                }
                o.push_str(&l.eq);
                let quote = match l.quote {
                    _ if v.trim() != v => true,
                    0 => true,
                    1 => false,
                    _ => (i + j) % 2 == 0,
                };
                if quote {
                    o.push('"');
                    o.push_str(v);
                    o.push('"');
                } else {
                    o.push_str(v);
                }
                if l.trail {
                    o.push_str(" \t");
                }
                let last = i + 1 == self.secs.len() && j + 1 == s.kv.len();
                if !(last && l.no_final) {
                    o.push_str(nl);
                }
            }
        }
        o
    }
}
#[derive(Clone, Debug)]
pub struct Layout {
    pub indent: String,
    pub eq: String,
    pub quote: u8,
    pub blanks: usize,
    pub trail: bool,
    pub crlf: bool,
    pub qkeys: bool,
    pub no_final: bool,
}
impl Layout {
    pub fn plain() -> Self {
        Layout { indent: "".into(), eq: " = ".into(), quote: 0, blanks: 0, trail: false, crlf: false, qkeys: false, no_final: false }
    }
    pub fn gen(t: &mut Tape) -> Self {
        Layout {
            indent: t.pick(&["", "    ", "\t", " "]).to_string(),
            eq: t.pick(&[" = ", "=", " =", "= ", "\t=  "]).to_string(),
            quote: t.usize(3) as u8,
            blanks: t.usize(4),
            trail: t.chance(1, 4),
            crlf: t.chance(1, 6),
            qkeys: t.chance(1, 8),
            no_final: t.chance(1, 5),
        }
    }
}

/// any value a line can carry: no line break, no blank or quote at either end
pub fn value(t: &mut Tape) -> String {
    const EDGE: &[char] = &['a', 'B', '7', '=', '/', 'é', '.', '-', ':', '#', ']', '[', '>', '日', '\\', '\'', ';', ',', '!', '$', '%', '&', '*', '(', '}', '~', '+', '?', '`', '|', '^', '@', '_', '<', '{', ')', '\u{1F600}'];
    const IN: &[char] = &['x', 'Y', '0', '=', ' ', '"', 'ß', '[', ']', '#', '/', '-', '>', '\t', ',', ';', '\'', '\\', '\u{a0}', '.', ':'];
    if t.chance(1, 40) {
        // quoted blanks belong to the value
        return t.pick(&[" x", "x ", "\ta", "  ", "a\t", " a b ", "\u{a0}"]).to_string();
    }
    if t.chance(1, 1500) {
        return format!("{}z", t.string(&['A', 'b', ' ', '=', 'é'], 1, 4).trim_start().repeat(t.rangei(70, 20_000)));
    }
    match t.weighted(&[5, 3, 1]) {
        0 => t.string(&['A', 'b', 'C', 'd', '1', '2', '_'], 1, 8),
        1 => {
            let mut s = t.pick(EDGE).to_string();
            if t.chance(3, 4) {
                for _ in 0..t.rangei(0, 8) {
                    s.push(*t.pick(IN));
                }
                s.push(*t.pick(EDGE));
            }
            s
        }
        _ => String::new(),
    }
}
/// a comp id or sub id part; few values so that identities nearly collide
pub fn part(t: &mut Tape) -> String {
    if t.chance(1, 4) {
        let v = value(t);
        if !v.is_empty() {
            return v;
        }
    }
    t.pick(&["A", "B", "C", "AB", "A/B", "B/C", "A->B", "a", "BANZAI", "FIXIMULATOR"]).to_string()
}

fn port(t: &mut Tape) -> String {
    match t.weighted(&[3, 1]) {
        0 => t.range(1024, 65535).to_string(),
        _ => t.pick(&["1", "65535", "80", "10114", "010114"]).to_string(),
    }
}
pub const EXTRA: [&str; 12] = [
    "heartbeat_interval", "reset_on_logon", "custom", "Default_x", "data_dictionary", "start_time", "x.y", "socket_timeout",
    "SENDER_COMP_ID", "sender_comp", "port", "session",
];

/// A valid configuration with sessions of distinct identity.
pub fn valid(t: &mut Tape, max_sessions: usize, extra: bool) -> Conf {
    let acceptor = !t.chance(1, 3);
    let mut d = Sec { default: true, kv: vec![] };
    d.set("connection_type", if acceptor { "acceptor" } else { "initiator" });
    for k in ID_KEYS {
        let mandatory = !k.contains("sub") && !k.contains("location");
        if t.chance(if mandatory { 3 } else { 1 }, 4) {
            let v = if k == "begin_string" { t.pick(&BEGINS).to_string() } else { part(t) };
            d.set(k, v);
        }
    }
    let conn: &[&str] = if acceptor { &["socket_accept_port"] } else { &["socket_connect_port", "socket_connect_host"] };
    let conn_value = |t: &mut Tape, k: &str| if k.ends_with("host") { t.pick(&["localhost", "127.0.0.1", "fix.example.org"]).to_string() } else { port(t) };
    for k in conn {
        if t.chance(1, 2) {
            let v = conn_value(t, k);
            d.set(k, v);
        }
    }
    if extra {
        for k in EXTRA {
            if t.chance(1, 4) {
                let v = extra_value(t, k);
                d.set(k, v);
            }
        }
        if t.chance(1, 6) {
            odd_keys(t, &mut d);
        }
    }
    if t.chance(1, 2) {
        let mut kv = std::mem::take(&mut d.kv);
        t.shuffle(&mut kv);
        d.kv = kv;
    }
    let mut c = Conf { secs: vec![d] };
    let n = if max_sessions > 3 && t.chance(1, 60) { t.rangei(9, 45) } else { t.rangei(0, max_sessions) };
    let mut seen: Vec<Id> = vec![];
    for i in 0..n {
        let mut s = Sec::default();
        for k in ID_KEYS {
            let mandatory = !k.contains("sub") && !k.contains("location");
            let need = mandatory && c.secs[0].get(k).is_none();
            if need || t.chance(1, 2) {
                let v = if k == "begin_string" {
                    t.pick(&BEGINS).to_string()
                } else if !mandatory && t.chance(1, 6) {
                    String::new()
                } else {
                    part(t)
                };
                s.set(k, v);
            }
        }
        for k in conn {
            if c.secs[0].get(k).is_none() || t.chance(1, 3) {
                let v = conn_value(t, k);
                s.set(k, v);
            }
        }
        if extra {
            for k in EXTRA {
                if t.chance(1, 4) {
                    let v = extra_value(t, k);
                    s.set(k, v);
                }
            }
            if t.chance(1, 10) {
                odd_keys(t, &mut s);
            }
        }
        if seen.contains(&c.id(&s)) {
            s.set("sender_comp_id", format!("UNIQUE{}", i));
        }
        seen.push(c.id(&s));
        if t.chance(1, 2) {
            let mut kv = std::mem::take(&mut s.kv);
            t.shuffle(&mut kv);
            s.kv = kv;
        }
        c.secs.push(s);
    }
    c
}
/// keys nobody knows
fn odd_keys(t: &mut Tape, s: &mut Sec) {
    let n = if t.chance(1, 150) { t.rangei(60, 400) } else { t.rangei(0, 4) };
    for i in 0..n {
        let k = match t.usize(8) {
            0 => t.pick(&ID_KEYS).to_uppercase(),
            1 => format!("{}{}", t.pick(&ID_KEYS), t.pick(&["_", "2", ".x", "s", " x", "-"])),
            2 => t.pick(&ID_KEYS)[1..].to_string(),
            3 => t.pick(&["ключ", "k]", "a b", "a\tb", "#k", "//", ";k", "'k'", "k\"k", "connection", "type", "é", "{", "*", "0", "default", "Default", "DEFAULT", "x[1"]).to_string(),
            4 => t.string(&['k', 'K', '_', '.', '1'], 1, 5),
            5 if t.chance(1, 50) => "long_key".repeat(t.rangei(10, 300)),
            _ => format!("key_{}", i),
        };
        if k.trim() == k && !k.is_empty() && s.get(&k).is_none() && !ID_KEYS.contains(&k.as_str()) {
            let v = value(t);
            s.kv.push((k, v));
        }
    }
}
fn extra_value(t: &mut Tape, _k: &str) -> String {
    match t.weighted(&[3, 2, 1]) {
        0 => value(t),
        1 => t.pick(&["0", "30", "65535", "65536", "4294967295", "4294967296", "-1", "007", "1.5"]).to_string(),
        _ => t.pick(&["true", "false", "True", "Y", "N", "yes", "09:30:00", "2022-01-01"]).to_string(),
    }
}

pub fn build_id(p: &Id) -> SessionId {
    let s = |i: usize| p[i].clone().unwrap_or_default();
    let mut b = SessionIdBuilder::new(s(0), s(1), s(4));
    if let Some(v) = &p[2] {
        b.sender_subid(v);
    }
    if let Some(v) = &p[3] {
        b.sender_locationid(v);
    }
    if let Some(v) = &p[5] {
        b.target_subid(v);
    }
    if let Some(v) = &p[6] {
        b.target_locationid(v);
    }
    b.build().unwrap()
}
pub fn parts(id: &SessionId) -> Id {
    [
        Some(id.begin_string().clone()),
        Some(id.sender_compid().clone()),
        id.sender_subid().clone(),
        id.sender_locationid().clone(),
        Some(id.target_compid().clone()),
        id.target_subid().clone(),
        id.target_locationid().clone(),
    ]
}
pub fn print(p: &Id) -> String {
    let mut s = format!("{}:{}", p[0].as_deref().unwrap_or(""), p[1].as_deref().unwrap_or(""));
    for i in [2, 3] {
        if let Some(v) = &p[i] {
            s.push('/');
            s.push_str(v);
        }
    }
    s.push_str("->");
    s.push_str(p[4].as_deref().unwrap_or(""));
    for i in [5, 6] {
        if let Some(v) = &p[i] {
            s.push('/');
            s.push_str(v);
        }
    }
    s
}
/// identity -> section, for the sessions of a configuration
pub fn by_id(c: &Conf) -> BTreeMap<String, (Id, &Sec)> {
    c.sessions().map(|s| (format!("{:?}", c.id(s)), (c.id(s), s))).collect()
}
