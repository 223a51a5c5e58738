//! Messages as trees: generator of conforming messages, printing, scopes for defect injection, the
//! reference parser, and extraction of the engine's view through its public getters.
use crate::dict::{Dict, Level};
use crate::engine::guard;
use crate::tape::Tape;
use fix_rs::data_dictionary::DataDictionary;
use fix_rs::message::{FieldMap, Message};
use std::collections::{BTreeMap, BTreeSet};

pub const SOH: char = '\u{1}';

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub tag: u32,
    pub val: String,
    /// Some for a group count field: its instances
    pub grp: Option<Vec<Vec<Node>>>,
}
impl Node {
    pub fn field(tag: u32, val: &str) -> Node {
        Node { tag, val: val.to_string(), grp: None }
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct GMsg {
    pub mtype: String,
    pub header: Vec<Node>,
    pub body: Vec<Node>,
    pub trailer: Vec<Node>,
}

/// What a message means: per section and group instance, tag to value and tag to instances.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct XMap {
    pub fields: BTreeMap<u32, String>,
    pub groups: BTreeMap<u32, Vec<XMap>>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct XMsg {
    pub header: XMap,
    pub body: XMap,
    pub trailer: XMap,
}

impl XMap {
    pub fn of(nodes: &[Node]) -> XMap {
        let mut m = XMap::default();
        for n in nodes {
            m.fields.insert(n.tag, n.val.clone());
            if let Some(g) = &n.grp {
                m.groups.insert(n.tag, g.iter().map(|i| XMap::of(i)).collect());
            }
        }
        m
    }
    pub fn count(&self) -> usize {
        self.fields.len() + self.groups.values().flatten().map(|g| g.count()).sum::<usize>()
    }
    /// numeric form of group counts, so that "02" and "2" agree
    pub fn norm(&self) -> XMap {
        let mut m = self.clone();
        for (t, insts) in m.groups.iter_mut() {
            if let Some(v) = m.fields.get_mut(t) {
                if let Ok(n) = v.parse::<u64>() {
                    *v = n.to_string();
                }
            }
            for i in insts.iter_mut() {
                *i = i.norm();
            }
        }
        m
    }
    pub fn depth(&self) -> usize {
        self.groups.values().flatten().map(|g| 1 + g.depth()).max().unwrap_or(0)
    }
}
impl XMsg {
    pub fn norm(&self) -> XMsg {
        XMsg { header: self.header.norm(), body: self.body.norm(), trailer: self.trailer.norm() }
    }
    pub fn count(&self) -> usize {
        self.header.count() + self.body.count() + self.trailer.count()
    }
}
impl GMsg {
    pub fn x(&self) -> XMsg {
        XMsg { header: XMap::of(&self.header), body: XMap::of(&self.body), trailer: XMap::of(&self.trailer) }
    }
    pub fn tokens(&self) -> Vec<(String, String)> {
        let mut v = vec![];
        for s in [&self.header, &self.body, &self.trailer] {
            flatten(s, &mut v);
        }
        v
    }
    pub fn text(&self) -> String {
        print(&self.tokens())
    }
    pub fn section(&self, s: usize) -> &Vec<Node> {
        [&self.header, &self.body, &self.trailer][s]
    }
    pub fn section_mut(&mut self, s: usize) -> &mut Vec<Node> {
        match s {
            0 => &mut self.header,
            1 => &mut self.body,
            _ => &mut self.trailer,
        }
    }
    pub fn groups(&self) -> usize {
        fn g(n: &[Node]) -> usize {
            n.iter().filter_map(|n| n.grp.as_ref()).map(|i| 1 + i.iter().map(|x| g(x)).sum::<usize>()).sum()
        }
        g(&self.header) + g(&self.body)
    }
    pub fn depth(&self) -> usize {
        self.x().body.depth().max(self.x().header.depth())
    }
}
pub fn flatten(nodes: &[Node], out: &mut Vec<(String, String)>) {
    for n in nodes {
        out.push((n.tag.to_string(), n.val.clone()));
        for i in n.grp.iter().flatten() {
            flatten(i, out);
        }
    }
}
pub fn print(toks: &[(String, String)]) -> String {
    let mut s = String::new();
    for (t, v) in toks {
        s.push_str(t);
        s.push('=');
        s.push_str(v);
        s.push(SOH);
    }
    s
}

// ------------------------------------------------------------------ generation

const VCHARS: &[char] = &[
    'A', 'b', '1', '0', ' ', '=', '.', ':', '-', '|', 'é', '漢', '🦀', '"', '\\', '/', '\t', '\n', '\r', '\0', '+', '\u{7f}', '9', 'Z',
];
/// around the sizes at which buffers and counters end
fn long_value(t: &mut Tape) -> String {
    let n = match t.weighted(&[3, 3, 2, 2, 1]) {
        0 => 60 + t.usize(10),
        1 => 124 + t.usize(8),
        2 => 252 + t.usize(10),
        3 => 500 + t.usize(1600),
        _ => *t.pick(&[4096usize, 8192, 32768, 65536]) + t.usize(4),
    };
    let unit = *t.pick(&["x", "é", "=", "10", "🦀", " ", "7"]);
    let mut s = unit.repeat(n / unit.len());
    s.push_str(&"z".repeat(n - s.len()));
    s
}
pub fn gen_value(t: &mut Tape) -> String {
    match t.weighted(&[160, 120, 80, 80, 40, 7]) {
        5 => long_value(t),
        4 => t.pick(&["Y", "N", "1", "2", "3", "0", "00", "-0", "y", "true", "12:00:00", "20221006"]).to_string(),
        0 => t.range(0, 9999).to_string(),
        1 => t.string(&['A', 'B', 'c', 'd', '1', '-', ' ', '.'], 1, 12),
        2 => t.string(VCHARS, 1, 10),
        _ => t
            .pick(&[
                "=", "==", "10=000", "8=FIX.4.3", "20221006-08:43:36.522", "-1", "0", "1e9", "a=b=c", "35=D", "N",
                "FIX.4.3", "49=X", "=1", "4294967296", "ß", "\u{2}", "  ",
            ])
            .to_string(),
    }
}

/// A value that means something for the tag in FIX 4.3 (one it declares, or a plausible one of its type), or any other.
pub fn gen_value_of(t: &mut Tape, tag: u32) -> String {
    type Known = std::collections::HashMap<u32, (String, Vec<String>)>;
    static K: std::sync::OnceLock<Known> = std::sync::OnceLock::new();
    if !t.chance(1, 4) {
        return gen_value(t);
    }
    let known = K.get_or_init(|| {
        crate::dict::fix43().0.fields.iter().map(|f| (f.num, (f.ty.clone(), f.values.iter().map(|v| v.0.clone()).collect()))).collect()
    });
    let Some((ty, vals)) = known.get(&tag) else { return gen_value(t) };
    if !vals.is_empty() && t.chance(7, 8) {
        return t.pick(vals).clone();
    }
    match ty.as_str() {
        "BOOLEAN" => t.pick(&["Y", "N"]).to_string(),
        "UTCTIMESTAMP" => format!("2022{:02}{:02}-{:02}:{:02}:{:02}", t.rangei(1, 12), t.rangei(1, 28), t.usize(24), t.usize(60), t.usize(60)),
        "INT" | "SEQNUM" | "LENGTH" | "NUMINGROUP" => t.range(0, 99999).to_string(),
        "PRICE" | "QTY" | "AMT" | "FLOAT" | "PERCENTAGE" | "PRICEOFFSET" => format!("{}.{:02}", t.range(0, 9999), t.usize(100)),
        _ => gen_value(t),
    }
}

pub struct GenOpt {
    pub max_inst: usize,
    /// probability (of 8) that an optional field or group is present
    pub fill: u64,
    /// order of header, body and trailer fields shuffled
    pub shuffle: bool,
    pub total: usize,
}
impl Default for GenOpt {
    fn default() -> Self {
        GenOpt { max_inst: 3, fill: 4, shuffle: true, total: 220 }
    }
}

fn many(t: &mut Tape) -> usize {
    match t.weighted(&[48, 12, 6, 1]) {
        0 => t.rangei(8, 24),
        1 => t.rangei(60, 130),
        2 => t.rangei(250, 300),
        _ => t.rangei(990, 1100),
    }
}

fn gen_level(t: &mut Tape, l: &Level, o: &GenOpt, depth: usize, in_group: bool, left: &mut usize) -> Vec<Node> {
    let mut out = vec![];
    // few fields of wide levels, so that messages stay readable
    let den = if *left > 1000 { 8 } else { (l.fields.len() as u64 * 8 / o.fill / 10).max(1) * 8 };
    for (i, f) in l.fields.iter().enumerate() {
        let delim = in_group && i == 0;
        let boost = if f.group.is_some() { 3 } else { 1 };
        let keep = delim || (t.chance((o.fill * boost).min(den), den) && *left > 0);
        if !keep {
            continue;
        }
        *left = left.saturating_sub(1);
        match &f.group {
            None => out.push(Node::field(f.tag, &gen_value_of(t, f.tag))),
            Some(g) => {
                let n = if g.fields.is_empty() || *left == 0 { 0 } else { let lo = if t.chance(1, 8) { 0 } else { 1 }; if depth < 2 && t.chance(1, 60) { many(t) } else { t.rangei(lo, o.max_inst) } };
                let insts: Vec<Vec<Node>> =
                    (0..n).map(|_| gen_level(t, g, o, depth + 1, true, left)).collect();
                out.push(Node { tag: f.tag, val: n.to_string(), grp: Some(insts) });
            }
        }
    }
    out
}

/// A message that conforms to the dictionary. The three leading header fields come first; CheckSum is
/// last in the trailer when present.
pub fn gen_msg(t: &mut Tape, d: &Dict, o: &GenOpt) -> GMsg {
    let types: Vec<&String> = d.msgs.keys().collect();
    let mtype = (*t.pick(&types)).clone();
    gen_msg_of(t, d, &mtype, o)
}
pub fn gen_msg_of(t: &mut Tape, d: &Dict, mtype: &str, o: &GenOpt) -> GMsg {
    let mut left = o.total;
    if left >= 60 && t.chance(1, 150) {
        // a large message
        left += 1500;
    }
    let lead = [8u32, 9, 35];
    let mut hl = Level::default();
    for f in d.header.fields.iter().filter(|f| !lead.contains(&f.tag)) {
        hl.index.insert(f.tag, hl.fields.len());
        hl.fields.push(f.clone());
    }
    let mut header = gen_level(t, &hl, o, 0, false, &mut left);
    let mut body = gen_level(t, &d.msgs[mtype], o, 0, false, &mut left);
    let mut trailer: Vec<Node> = gen_level(t, &d.trailer, o, 0, false, &mut left);
    trailer.retain(|n| n.tag != 10);
    if o.shuffle {
        if t.flip() {
            t.shuffle(&mut header);
        }
        if t.flip() {
            t.shuffle(&mut body);
        }
        if t.flip() {
            t.shuffle(&mut trailer);
        }
    }
    if !t.chance(1, 8) {
        let v = if t.chance(1, 4) { gen_value(t) } else { format!("{:03}", t.below(256)) };
        trailer.push(Node::field(10, &v));
        if o.shuffle && t.chance(1, 8) {
            t.shuffle(&mut trailer);
        }
    }
    let mut h = vec![
        Node::field(8, if t.chance(1, 4) { "FIX.4.4" } else { "FIX.4.3" }),
        Node::field(9, &t.range(1, 9999).to_string()),
        Node::field(35, mtype),
    ];
    h.append(&mut header);
    GMsg { mtype: mtype.to_string(), header: h, body, trailer }
}

// ------------------------------------------------------------------ scopes

/// A place that holds fields: section 0 header, 1 body, 2 trailer, then (node index, instance) steps.
#[derive(Clone, Debug, PartialEq)]
pub struct Scope {
    pub sec: usize,
    pub steps: Vec<(usize, usize)>,
}
pub fn scopes(m: &GMsg) -> Vec<Scope> {
    fn walk(nodes: &[Node], s: &Scope, out: &mut Vec<Scope>) {
        out.push(s.clone());
        for (i, n) in nodes.iter().enumerate() {
            for (k, inst) in n.grp.iter().flatten().enumerate() {
                let mut c = s.clone();
                c.steps.push((i, k));
                walk(inst, &c, out);
            }
        }
    }
    let mut out = vec![];
    for sec in 0..3 {
        walk(m.section(sec), &Scope { sec, steps: vec![] }, &mut out);
    }
    out
}
impl Scope {
    pub fn nodes<'a>(&self, m: &'a GMsg) -> &'a Vec<Node> {
        let mut v = m.section(self.sec);
        for (i, k) in &self.steps {
            v = &v[*i].grp.as_ref().unwrap()[*k];
        }
        v
    }
    pub fn nodes_mut<'a>(&self, m: &'a mut GMsg) -> &'a mut Vec<Node> {
        let mut v = m.section_mut(self.sec);
        for (i, k) in &self.steps {
            v = &mut v[*i].grp.as_mut().unwrap()[*k];
        }
        v
    }
    pub fn level<'a>(&self, m: &GMsg, d: &'a Dict) -> &'a Level {
        let mut l = match self.sec {
            0 => &d.header,
            1 => &d.msgs[&m.mtype],
            _ => &d.trailer,
        };
        let mut v = m.section(self.sec);
        for (i, k) in &self.steps {
            l = l.get(v[*i].tag).unwrap().group.as_ref().unwrap();
            v = &v[*i].grp.as_ref().unwrap()[*k];
        }
        l
    }
}

// ------------------------------------------------------------------ reference parser

pub const INVALID_TAG: &str = "InvalidTag";
pub const NO_VALUE: &str = "TagSpecifiedWithoutValue";
pub const OUT_OF_ORDER: &str = "TagSpecifiedOutOfOrder";
pub const GRP_ORDER: &str = "RepeatingGroupsOutOfOrder";
pub const GRP_COUNT: &str = "IncorrectNumInGroupCountForRepeatingGroup";
pub const BAD_FORMAT: &str = "IncorrectDataFormatForValue";
pub const REQ_MISSING: &str = "RequiredTagMissing";
pub const DUP: &str = "TagAppearsMoreThanOnce";

#[derive(Clone, Debug, PartialEq)]
pub enum Ref {
    Accept(XMsg),
    /// any of these reasons is right
    Reject(BTreeSet<&'static str>),
    /// the properties leave open whether this text is accepted
    Open(&'static str, Option<XMsg>),
}

struct P<'a> {
    toks: Vec<(u32, &'a str)>,
    at: usize,
    open: Option<&'static str>,
    extra: BTreeSet<&'static str>,
}
type PR<T> = Result<T, &'static str>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<u32> {
        self.toks.get(self.at).map(|t| t.0)
    }
    fn put(&mut self, m: &mut XMap) -> PR<(u32, &'a str)> {
        let (t, v) = self.toks[self.at];
        self.at += 1;
        if m.fields.insert(t, v.to_string()).is_some() {
            return Err(DUP);
        }
        Ok((t, v))
    }
    fn group(&mut self, l: &Level, count: &str) -> PR<Vec<XMap>> {
        let digits = !count.is_empty() && count.bytes().all(|b| b.is_ascii_digit());
        if !digits {
            let num = count.trim_start_matches(['+', '-']);
            if !num.is_empty() && num.bytes().all(|b| b.is_ascii_digit() || b == b'.') {
                // a signed or fractional count: a number of sorts
                self.open = Some("odd count");
            }
            self.extra.insert(BAD_FORMAT);
            return Err(BAD_FORMAT);
        }
        let declared = match count.parse::<u32>() {
            Ok(n) => n as usize,
            Err(_) => {
                self.extra.insert(BAD_FORMAT);
                return Err(GRP_COUNT);
            }
        };
        if declared > self.toks.len() - self.at {
            self.extra.insert(GRP_COUNT);
        }
        let mut insts: Vec<XMap> = vec![];
        let mut last: Option<usize> = None;
        let delim = l.delim();
        while let Some(tag) = self.peek() {
            let Some(f) = l.get(tag) else { break };
            if Some(tag) == delim {
                if insts.len() == declared {
                    return Err(GRP_COUNT);
                }
                insts.push(XMap::default());
                last = None;
            } else if insts.is_empty() {
                return Err(REQ_MISSING);
            }
            let cur = insts.last_mut().unwrap();
            match &f.group {
                Some(g) => {
                    let (t, v) = self.put(cur)?;
                    if let Some(p) = last {
                        if l.pos(t).unwrap() < p {
                            self.open = Some("subgroup before an earlier field");
                        }
                    }
                    let sub = self.group(g, v)?;
                    insts.last_mut().unwrap().groups.insert(t, sub);
                    // whether a later plain field may precede this subgroup in the dictionary is open
                    let here = l.pos(t).unwrap();
                    if let Some(nt) = self.peek() {
                        if let Some(p) = l.pos(nt) {
                            if p < here && Some(nt) != delim && l.fields[p].group.is_none() && last.map_or(true, |q| p >= q) {
                                self.open = Some("plain field after a later subgroup");
                            }
                        }
                    }
                }
                None => {
                    let (t, _) = self.put(cur)?;
                    let p = l.pos(t).unwrap();
                    if last.is_some_and(|q| p < q) {
                        return Err(GRP_ORDER);
                    }
                    last = Some(p);
                }
            }
        }
        if insts.len() != declared {
            return Err(GRP_COUNT);
        }
        Ok(insts)
    }
    fn section(&mut self, l: &Level, m: &mut XMap, stop: &dyn Fn(u32) -> Option<PR<()>>) -> PR<()> {
        while let Some(tag) = self.peek() {
            if let Some(r) = stop(tag) {
                return r;
            }
            let (t, v) = self.put(m)?;
            if let Some(g) = l.get(t).and_then(|f| f.group.as_ref()) {
                let insts = self.group(g, v)?;
                m.groups.insert(t, insts);
            }
        }
        Ok(())
    }
}

pub fn split_fields(text: &str) -> Vec<&str> {
    let mut parts: Vec<&str> = text.split(SOH).collect();
    if parts.last() == Some(&"") {
        parts.pop();
    }
    parts
}

pub fn valid_tag(t: &str) -> Option<u32> {
    if t.is_empty() || t.starts_with('0') || !t.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    t.parse().ok()
}

pub fn ref_parse(text: &str, d: &Dict) -> Ref {
    let mut toks = vec![];
    for f in split_fields(text) {
        let Some((t, v)) = f.split_once('=') else { return Ref::Reject([INVALID_TAG].into()) };
        let mut bad = BTreeSet::new();
        let tag = valid_tag(t);
        if tag.is_none() {
            bad.insert(INVALID_TAG);
        }
        if v.is_empty() {
            bad.insert(NO_VALUE);
        }
        if !bad.is_empty() {
            return Ref::Reject(bad);
        }
        toks.push((tag.unwrap(), v));
    }
    let mut p = P { toks, at: 0, open: None, extra: BTreeSet::new() };
    let mut x = XMsg::default();
    let empty = Level::default();
    let mut undefined = false;
    let r = (|| -> PR<()> {
        let lead: Vec<u32> = p.toks.iter().take(3).map(|t| t.0).collect();
        if lead != [8, 9, 35] {
            return Err(OUT_OF_ORDER);
        }
        let (h, tr) = (&d.header, &d.trailer);
        p.section(h, &mut x.header, &|t| if h.get(t).is_none() { Some(Ok(())) } else { None })?;
        let mt = x.header.fields.get(&35).cloned().unwrap_or_default();
        let l = d.msgs.get(&mt).unwrap_or(&empty);
        p.section(l, &mut x.body, &|t| {
            if h.get(t).is_some() {
                Some(Err(OUT_OF_ORDER))
            } else if tr.get(t).is_some() {
                Some(Ok(()))
            } else {
                None
            }
        })?;
        undefined = x.body.fields.keys().any(|t| l.get(*t).is_none());
        p.section(tr, &mut x.trailer, &|t| if tr.get(t).is_none() { Some(Err(OUT_OF_ORDER)) } else { None })
    })();
    match r {
        Ok(()) => match p.open {
            Some(o) => Ref::Open(o, Some(x)),
            None if undefined => Ref::Open("undefined tag", Some(x)),
            None => Ref::Accept(x),
        },
        Err(e) => {
            if let Some(o) = p.open {
                return Ref::Open(o, None);
            }
            let mut s = p.extra.clone();
            s.insert(e);
            Ref::Reject(s)
        }
    }
}

// ------------------------------------------------------------------ the engine's view

/// Reason of a reject, from its Display.
pub fn reason(e: &impl std::fmt::Display) -> String {
    let s = e.to_string();
    s.rsplit(" - ").next().unwrap_or("").trim().to_string()
}

/// Ok(Ok(message)), Ok(Err(reason)) or Err(panic)
pub fn parse(text: &str, dd: &DataDictionary) -> Result<Result<Message, String>, String> {
    // a hostile count must not take the machine down with it
    let (r, _) = crate::alloc::measured(1 << 30, || guard(|| Message::from_str(text, dd)));
    r.map(|r| r.map_err(|e| reason(&e)))
}

pub fn extract_map(m: &FieldMap, universe: &BTreeSet<u32>) -> Result<XMap, String> {
    let mut x = XMap::default();
    for t in universe {
        if let Ok(v) = m.get_field::<String>(*t) {
            x.fields.insert(*t, v);
        }
        if let Some(g) = m.get_group(*t) {
            let mut v = vec![];
            for i in 0..g.size() as usize {
                v.push(extract_map(&g[i], universe)?);
            }
            x.groups.insert(*t, v);
        }
    }
    Ok(x)
}
/// Reads everything through getters and checks it against iteration: iteration yields each field of
/// the map and of its groups once and nothing else.
pub fn extract(m: &Message, universe: &BTreeSet<u32>) -> Result<XMsg, String> {
    guard(|| {
        let mut u = universe.clone();
        for map in [m.header(), m.body(), m.trailer()] {
            for f in map.iter() {
                u.insert(f.tag());
            }
        }
        let x = XMsg {
            header: extract_map(m.header(), &u)?,
            body: extract_map(m.body(), &u)?,
            trailer: extract_map(m.trailer(), &u)?,
        };
        for (map, xm, name) in
            [(m.header(), &x.header, "header"), (m.body(), &x.body, "body"), (m.trailer(), &x.trailer, "trailer")]
        {
            let mut a: Vec<(u32, String)> = map.iter().into_iter().map(|f| (f.tag(), f.value().to_string())).collect();
            let mut b = vec![];
            all_fields(xm, &mut b);
            a.sort();
            b.sort();
            if a != b {
                return Err(format!("iteration over the {} yields {:?} but its getters {:?}", name, a, b));
            }
        }
        Ok(x)
    })
    .and_then(|r| r)
}
pub fn all_fields(x: &XMap, out: &mut Vec<(u32, String)>) {
    out.extend(x.fields.iter().map(|(t, v)| (*t, v.clone())));
    for i in x.groups.values().flatten() {
        all_fields(i, out);
    }
}
pub fn diff(a: &XMsg, b: &XMsg) -> String {
    for (n, x, y) in [("header", &a.header, &b.header), ("body", &a.body, &b.body), ("trailer", &a.trailer, &b.trailer)] {
        if let Some(d) = diff_map(x, y, n) {
            return d;
        }
    }
    "same".into()
}
fn diff_map(a: &XMap, b: &XMap, at: &str) -> Option<String> {
    for (t, v) in &a.fields {
        match b.fields.get(t) {
            None => return Some(format!("{}: field {} is missing (expected {:?})", at, t, v)),
            Some(w) if w != v => return Some(format!("{}: field {} is {:?}, expected {:?}", at, t, w, v)),
            _ => {}
        }
    }
    if let Some((t, v)) = b.fields.iter().find(|x| !a.fields.contains_key(x.0)) {
        return Some(format!("{}: unexpected field {}={:?}", at, t, v));
    }
    for (t, v) in &a.groups {
        match b.groups.get(t) {
            None => return Some(format!("{}: group {} is missing", at, t)),
            Some(w) if w.len() != v.len() => {
                return Some(format!("{}: group {} has {} instances, expected {}", at, t, w.len(), v.len()))
            }
            Some(w) => {
                for i in 0..v.len() {
                    if let Some(d) = diff_map(&v[i], &w[i], &format!("{}/{}[{}]", at, t, i)) {
                        return Some(d);
                    }
                }
            }
        }
    }
    b.groups.keys().find(|t| !a.groups.contains_key(t)).map(|t| format!("{}: unexpected group {}", at, t))
}
