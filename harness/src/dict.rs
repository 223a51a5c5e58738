//! Data dictionaries as data: a syntax tree, an XML renderer, a generator, and a reference resolver
//! written from the properties (C14-C16), independent of the engine's loader.
use crate::tape::Tape;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct FieldDecl {
    pub num: u32,
    pub name: String,
    pub ty: String,
    pub values: Vec<(String, String)>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Field { name: String, req: bool },
    Comp { name: String, req: bool },
    Group { name: String, req: bool, items: Vec<Item> },
}
#[derive(Clone, Debug, PartialEq)]
pub struct MsgDecl {
    pub name: String,
    pub mtype: String,
    pub cat: String,
    pub items: Vec<Item>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct DictSpec {
    pub ty: String,
    pub major: String,
    pub minor: String,
    pub fields: Vec<FieldDecl>,
    pub comps: Vec<(String, Vec<Item>)>,
    pub header: Vec<Item>,
    pub trailer: Vec<Item>,
    pub messages: Vec<MsgDecl>,
}

// ------------------------------------------------------------------ resolved reference model

#[derive(Clone, Debug, Default)]
pub struct Level {
    pub fields: Vec<LField>,
    pub index: HashMap<u32, usize>,
}
#[derive(Clone, Debug)]
pub struct LField {
    pub tag: u32,
    pub req: bool,
    pub group: Option<Level>,
}
impl Level {
    pub fn get(&self, tag: u32) -> Option<&LField> {
        self.index.get(&tag).map(|i| &self.fields[*i])
    }
    pub fn pos(&self, tag: u32) -> Option<usize> {
        self.index.get(&tag).copied()
    }
    pub fn delim(&self) -> Option<u32> {
        self.fields.first().map(|f| f.tag)
    }
    fn push(&mut self, f: LField) -> Result<(), String> {
        if self.index.insert(f.tag, self.fields.len()).is_some() {
            return Err(format!("field {} listed twice", f.tag));
        }
        self.fields.push(f);
        Ok(())
    }
    pub fn depth(&self) -> usize {
        self.fields.iter().filter_map(|f| f.group.as_ref()).map(|g| 1 + g.depth()).max().unwrap_or(0)
    }
    pub fn all_tags(&self, out: &mut BTreeSet<u32>) {
        for f in &self.fields {
            out.insert(f.tag);
            if let Some(g) = &f.group {
                g.all_tags(out)
            }
        }
    }
    pub fn groups(&self) -> usize {
        self.fields.iter().filter_map(|f| f.group.as_ref()).map(|g| 1 + g.groups()).sum()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Dict {
    pub header: Level,
    pub trailer: Level,
    pub msgs: BTreeMap<String, Level>,
    pub types: HashMap<u32, (String, Vec<String>)>,
    pub begin_string: String,
}
impl Dict {
    pub fn universe(&self) -> BTreeSet<u32> {
        let mut s: BTreeSet<u32> = self.types.keys().copied().collect();
        self.header.all_tags(&mut s);
        s
    }
}

impl DictSpec {
    pub fn resolve(&self) -> Result<Dict, String> {
        let nums: HashMap<&str, u32> = self.fields.iter().map(|f| (f.name.as_str(), f.num)).collect();
        let comps: HashMap<&str, &Vec<Item>> = self.comps.iter().map(|c| (c.0.as_str(), &c.1)).collect();
        let r = Resolver { nums, comps };
        let mut d = Dict {
            header: r.message(&self.header)?,
            trailer: r.message(&self.trailer)?,
            begin_string: format!("{}.{}.{}", self.ty, self.major, self.minor),
            ..Default::default()
        };
        for m in &self.messages {
            d.msgs.insert(m.mtype.clone(), r.message(&m.items)?);
        }
        for f in &self.fields {
            d.types.insert(f.num, (f.ty.clone(), f.values.iter().map(|v| v.0.clone()).collect()));
        }
        Ok(d)
    }

    pub fn from_xml(text: &str) -> DictSpec {
        let doc = roxmltree::Document::parse(text).expect("own loader");
        let root = doc.root_element();
        let att = |n: &roxmltree::Node, a: &str| n.attribute(a).unwrap_or("").to_string();
        let sec = |name: &str| root.children().find(|n| n.has_tag_name(name)).unwrap();
        fn items(n: roxmltree::Node) -> Vec<Item> {
            n.children()
                .filter(|c| c.is_element())
                .map(|c| {
                    let name = c.attribute("name").unwrap().to_string();
                    let req = c.attribute("required").unwrap() == "Y";
                    match c.tag_name().name() {
                        "field" => Item::Field { name, req },
                        "component" => Item::Comp { name, req },
                        "group" => Item::Group { name, req, items: items(c) },
                        x => panic!("own loader: {}", x),
                    }
                })
                .collect()
        }
        let elems = |n: roxmltree::Node<'_, '_>| n.children().filter(|c| c.is_element()).map(|c| c.id()).collect::<Vec<_>>();
        let node = |id| doc.get_node(id).unwrap();
        DictSpec {
            ty: att(&root, "type"),
            major: att(&root, "major"),
            minor: att(&root, "minor"),
            fields: elems(sec("fields"))
                .into_iter()
                .map(|i| {
                    let f = node(i);
                    FieldDecl {
                        num: att(&f, "number").parse().unwrap(),
                        name: att(&f, "name"),
                        ty: att(&f, "type"),
                        values: f
                            .children()
                            .filter(|v| v.has_tag_name("value"))
                            .map(|v| (att(&v, "enum"), att(&v, "description")))
                            .collect(),
                    }
                })
                .collect(),
            comps: elems(sec("components"))
                .into_iter()
                .map(|i| (att(&node(i), "name"), items(node(i))))
                .collect(),
            header: items(sec("header")),
            trailer: items(sec("trailer")),
            messages: elems(sec("messages"))
                .into_iter()
                .map(|i| {
                    let m = node(i);
                    MsgDecl {
                        name: att(&m, "name"),
                        mtype: att(&m, "msgtype"),
                        cat: att(&m, "msgcat"),
                        items: items(m),
                    }
                })
                .collect(),
        }
    }
}

struct Resolver<'a> {
    nums: HashMap<&'a str, u32>,
    comps: HashMap<&'a str, &'a Vec<Item>>,
}
impl<'a> Resolver<'a> {
    fn num(&self, n: &str) -> Result<u32, String> {
        self.nums.get(n).copied().ok_or_else(|| format!("undefined field {}", n))
    }
    fn message(&self, items: &[Item]) -> Result<Level, String> {
        let mut l = Level::default();
        self.expand(items, true, &mut l, 0)?;
        Ok(l)
    }
    /// `holder_req`: what directly holds these items is required (a message always is; a group
    /// or component by its own declaration or reference)
    fn expand(&self, items: &[Item], holder_req: bool, l: &mut Level, depth: usize) -> Result<(), String> {
        if depth > 64 {
            return Err("component cycle".into());
        }
        for it in items {
            match it {
                Item::Field { name, req } => {
                    l.push(LField { tag: self.num(name)?, req: *req && holder_req, group: None })?
                }
                Item::Comp { name, req } => {
                    let c = self.comps.get(name.as_str()).ok_or_else(|| format!("undefined component {}", name))?;
                    self.expand(c, *req, l, depth + 1)?
                }
                Item::Group { name, req, items } => {
                    let mut g = Level::default();
                    self.expand(items, *req, &mut g, depth + 1)?;
                    l.push(LField { tag: self.num(name)?, req: *req && holder_req, group: Some(g) })?
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ XML

#[derive(Clone, Debug, Default)]
pub struct Style {
    pub order: Vec<usize>,
    pub attr_rev: bool,
    pub single: bool,
    pub indent: bool,
    pub comments: bool,
    pub lower_req: bool,
    pub extra_attr: bool,
    pub decl: bool,
    pub open_close: bool,
}
impl Style {
    pub fn gen(t: &mut Tape) -> Style {
        let mut order = vec![0, 1, 2, 3, 4];
        if t.flip() {
            t.shuffle(&mut order);
        }
        Style {
            order,
            attr_rev: t.chance(1, 4),
            single: t.chance(1, 4),
            indent: t.flip(),
            comments: t.chance(1, 5),
            lower_req: t.chance(1, 5),
            extra_attr: t.chance(1, 5),
            decl: t.chance(1, 5),
            open_close: t.chance(1, 5),
        }
    }
    pub fn plain() -> Style {
        Style { order: vec![0, 1, 2, 3, 4], ..Default::default() }
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&apos;"),
            c => o.push(c),
        }
    }
    o
}

/// A raw element tree, so that defects can be injected anywhere before printing.
#[derive(Clone, Debug)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<El>,
}
impl El {
    pub fn new(name: &str, attrs: &[(&str, &str)]) -> El {
        El {
            name: name.into(),
            attrs: attrs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
            kids: vec![],
        }
    }
    pub fn attr(&self, a: &str) -> Option<&str> {
        self.attrs.iter().find(|x| x.0 == a).map(|x| x.1.as_str())
    }
    pub fn set(&mut self, a: &str, v: &str) {
        match self.attrs.iter_mut().find(|x| x.0 == a) {
            Some(x) => x.1 = v.into(),
            None => self.attrs.push((a.into(), v.into())),
        }
    }
    pub fn kid(&self, name: &str) -> Option<&El> {
        self.kids.iter().find(|k| k.name == name)
    }
    pub fn kid_mut(&mut self, name: &str) -> Option<&mut El> {
        self.kids.iter_mut().find(|k| k.name == name)
    }
    fn print(&self, st: &Style, ind: usize, o: &mut String) {
        let nl = |o: &mut String, ind: usize| {
            if st.indent {
                o.push('\n');
                for _ in 0..ind {
                    o.push_str("  ");
                }
            }
        };
        if ind > 0 {
            nl(o, ind);
        }
        if st.comments && (self.name == "field" || self.name == "group") && self.attrs.len() % 2 == 0 {
            o.push_str("<!-- field name=\"x\" -->");
            nl(o, ind);
        }
        write!(o, "<{}", self.name).unwrap();
        let q = if st.single { '\'' } else { '"' };
        let mut a: Vec<&(String, String)> = self.attrs.iter().collect();
        if st.attr_rev {
            a.reverse();
        }
        for (k, v) in a {
            write!(o, " {}={}{}{}", k, q, esc(v), q).unwrap();
        }
        if st.extra_attr && self.name != "fix" {
            write!(o, " note={}n{}", q, q).unwrap();
        }
        if self.kids.is_empty() && !st.open_close {
            o.push_str("/>");
        } else {
            o.push('>');
            for k in &self.kids {
                k.print(st, ind + 1, o);
            }
            nl(o, ind);
            write!(o, "</{}>", self.name).unwrap();
        }
    }
    pub fn to_xml(&self, st: &Style) -> String {
        let mut o = String::new();
        if st.decl {
            o.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
        }
        self.print(st, 0, &mut o);
        o
    }
}

impl DictSpec {
    pub fn to_el(&self, st: &Style) -> El {
        let yn = |b: bool| match (b, st.lower_req) {
            (true, false) => "Y",
            (true, true) => "y",
            (false, false) => "N",
            (false, true) => "n",
        };
        fn items(v: &[Item], yn: &dyn Fn(bool) -> &'static str) -> Vec<El> {
            v.iter()
                .map(|i| match i {
                    Item::Field { name, req } => El::new("field", &[("name", name), ("required", yn(*req))]),
                    Item::Comp { name, req } => El::new("component", &[("name", name), ("required", yn(*req))]),
                    Item::Group { name, req, items: it } => {
                        let mut e = El::new("group", &[("name", name), ("required", yn(*req))]);
                        e.kids = items(it, yn);
                        e
                    }
                })
                .collect()
        }
        let mut secs: Vec<El> = vec![];
        let mut h = El::new("header", &[]);
        h.kids = items(&self.header, &yn);
        let mut tr = El::new("trailer", &[]);
        tr.kids = items(&self.trailer, &yn);
        let mut ms = El::new("messages", &[]);
        for m in &self.messages {
            let mut e = El::new("message", &[("name", &m.name), ("msgcat", &m.cat), ("msgtype", &m.mtype)]);
            e.kids = items(&m.items, &yn);
            ms.kids.push(e);
        }
        let mut cs = El::new("components", &[]);
        for (n, it) in &self.comps {
            let mut e = El::new("component", &[("name", n)]);
            e.kids = items(it, &yn);
            cs.kids.push(e);
        }
        let mut fs = El::new("fields", &[]);
        for f in &self.fields {
            let mut e = El::new("field", &[("number", &f.num.to_string()), ("name", &f.name), ("type", &f.ty)]);
            for (v, d) in &f.values {
                e.kids.push(El::new("value", &[("enum", v), ("description", d)]));
            }
            fs.kids.push(e);
        }
        secs.push(h);
        secs.push(tr);
        secs.push(ms);
        secs.push(cs);
        secs.push(fs);
        let mut root = El::new(
            "fix",
            &[("type", &self.ty), ("major", &self.major), ("minor", &self.minor), ("servicepack", "0")],
        );
        root.kids = st.order.iter().map(|i| secs[*i].clone()).collect();
        root
    }
    pub fn to_xml(&self, st: &Style) -> String {
        self.to_el(st).to_xml(st)
    }
}

// ------------------------------------------------------------------ generator

pub const TYPES: [&str; 24] = [
    "STRING", "CHAR", "BOOLEAN", "DATA", "FLOAT", "AMT", "PERCENTAGE", "PRICE", "PRICEOFFSET", "QTY", "INT",
    "LENGTH", "NUMINGROUP", "SEQNUM", "TAGNUM", "COUNTRY", "CURRENCY", "EXCHANGE", "LOCALMKTDATE", "MONTHYEAR",
    "MULTIPLEVALUESTRING", "UTCDATE", "UTCTIMEONLY", "UTCTIMESTAMP",
];

#[derive(Clone, Copy, PartialEq)]
pub enum Profile {
    /// any well-formed dictionary: one tag may stand in a message and in its groups
    Any,
    /// tags of a group are distinct from those of every level around it, as FIX requires for parsing
    Wire,
    /// like Wire, but the levels of the body may share tags
    Overlap,
}

struct G {
    profile: Profile,
    /// field indices usable per depth; body depths 0.., header depths 0..
    pools: Vec<Vec<usize>>,
    comps: Vec<Vec<usize>>,
    max_depth: usize,
    /// mostly groups
    deep: bool,
    /// levels of many fields
    wide: bool,
    /// fields of each component, all expanded
    weights: Vec<usize>,
    /// how many more there may be in this message or component
    left: std::cell::Cell<usize>,
}

fn alnum(t: &mut Tape, min: usize, max: usize) -> String {
    const A: &[char] = &['A', 'b', 'C', 'd', 'E', 'f', 'G', 'x', 'Y', 'z', '0', '1', '7', '9'];
    t.string(A, min, max)
}

/// type names of other FIX versions and spellings, none of them one of TYPES
pub const FOREIGN_TYPES: [&str; 26] = [
    "FOO", "string", "UTCTimestamp", "PERCENT", "Int", "X", "UTCDATEONLY", "DAYOFMONTH", "DAY-OF-MONTH", "TIME",
    "DATE", "MULTIPLECHARVALUE", "MULTIPLESTRINGVALUE", "TZTIMEONLY", "TZTIMESTAMP", "XMLDATA", "LANGUAGE",
    "PRICE_OFFSET", "NUM_IN_GROUP", "SEQ_NUM", "SEQNUMBER", "UTC_TIMESTAMP", "MONTH-YEAR", "UNKNOWN", "STR", "INTEGER",
];

/// a foreign type name, or one of TYPES with a small change
fn near_type(t: &mut Tape) -> String {
    if t.chance(1, 3) {
        return t.pick(&FOREIGN_TYPES).to_string();
    }
    let ty = *t.pick(&TYPES);
    let i = t.usize(ty.len());
    const S: [&str; 16] = ["8", "64", "0", " ", "_", "-", "S", "X", "ING", "(", ".", "\u{e9}", "1", "E", "UTC", "ONLY"];
    match t.usize(7) {
        0 => format!("{}{}", ty, t.pick(&S)),
        1 => format!("{}{}", t.pick(&S), ty),
        2 => format!("{}{}{}", &ty[..i], t.pick(&S), &ty[i..]),
        3 => format!("{}{}", &ty[..i], &ty[i + 1..]) + if ty.len() == 1 { "X" } else { "" },
        4 => ty.to_lowercase(),
        5 => format!("{}{}", &ty[..i], ty[i..].to_lowercase()),
        _ => format!("{}{}", ty, t.pick(&TYPES)),
    }
}

/// tags to which the standard gives a meaning that an engine might act on
const SPECIAL_TAGS: [u64; 40] = [
    36, 43, 97, 122, 123, 45, 58, 90, 91, 95, 96, 98, 108, 112, 115, 116, 128, 129, 141, 144, 145, 212, 213, 347, 348, 349, 350, 351, 354, 355, 369, 370, 371, 372,
    373, 383, 464, 627, 628, 789,
];
/// the message types of FIX 4.3 that an engine might treat specially
pub const TYPES43: [&str; 24] =
    ["0", "A", "D", "E", "W", "n", "8", "AE", "AB", "1", "2", "3", "4", "5", "6", "7", "9", "j", "B", "C", "F", "G", "V", "X"];

fn gen_tag(t: &mut Tape) -> u32 {
    (match t.weighted(&[6, 4, 2, 3, 1, 1]) {
        0 => t.range(1, 150),
        1 => t.range(1, 1200),
        2 => t.range(1, 99999),
        3 => *t.pick(&SPECIAL_TAGS),
        4 => t.range(1, u32::MAX as u64),
        _ => *t.pick(&crate::extreme::EDGES) as u64,
    }) as u32
}

/// A name unlike the earlier ones, at times only just.
fn new_name(t: &mut Tape, names: &mut Vec<String>, kind: char, i: usize) -> String {
    let mut n = if !names.is_empty() && t.chance(1, 8) {
        let mut n = t.pick(names).clone();
        match t.usize(9) {
            0 => n = n.to_uppercase(),
            1 => n = n.to_lowercase(),
            2 => n.push_str(*t.pick(&["x", "_", "1", "Group", "0"])),
            3 => {
                n.pop();
            }
            4 => n.insert(0, *t.pick(&['x', 'F', '_', 'N'])),
            5 => {
                n.remove(0);
            }
            6 => n = n.chars().rev().collect(),
            7 => {
                let k = t.usize(n.chars().count());
                let f = t.flip();
                n = n.chars().enumerate().map(|(i, c)| if i != k { c } else if f { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
            }
            _ => n = n.replace('_', *t.pick(&["-", ".", "", "__", " "])),
        }
        n
    } else if t.chance(1, 40) {
        // as the format's own words
        t.pick(&["field", "group", "component", "message", "header", "trailer", "fields", "components", "messages", "fix", "name", "value", "Heartbeat", "é", "a & b", "<x>", "it's", "\"q\""]).to_string()
    } else if t.chance(1, 3) {
        format!("{}{}_{}", kind, i, alnum(t, 0, 12))
    } else if t.chance(1, 400) {
        format!("{}{}_{}", kind, i, alnum(t, 1, 3).repeat(t.rangei(20, 150)))
    } else {
        format!("{}{}", kind, i)
    };
    n = n.trim().to_string();
    while n.is_empty() || names.contains(&n) {
        n.push_str("_z");
    }
    names.push(n.clone());
    n
}

/// Generates a well-formed dictionary together with its resolved model.
pub fn gen(t: &mut Tape, profile: Profile) -> (DictSpec, Dict) {
    let mut spec = DictSpec {
        ty: "FIX".into(),
        major: t.range(4, 5).to_string(),
        minor: t.range(0, 4).to_string(),
        ..Default::default()
    };
    // now and then something larger than any plausible limit
    let big = t.chance(1, 60);
    let (deep, wide, numerous) = (big && t.flip(), big && t.flip(), big && t.flip());
    let nfields = if big { t.rangei(100, 500) } else { t.rangei(6, 40) };
    let mut nums: HashSet<u32> = HashSet::new();
    let mut names: Vec<String> = vec![];
    let mut add = |spec: &mut DictSpec, t: &mut Tape, num: Option<u32>, nums: &mut HashSet<u32>| -> Option<usize> {
        let num = match num {
            Some(n) => n,
            None => {
                let mut n = gen_tag(t);
                while nums.contains(&n) || RESERVED.contains(&n) {
                    n = n % (u32::MAX - 1) + 1;
                }
                n
            }
        };
        if !nums.insert(num) {
            return None;
        }
        let i = spec.fields.len();
        let name = new_name(t, &mut names, 'F', i);
        let ty = match t.weighted(&[3, 5, 1]) {
            0 => "STRING".to_string(),
            1 => t.pick(&TYPES).to_string(),
            _ => near_type(t),
        };
        let nv = if t.chance(1, 500) { t.rangei(30, 300) } else if t.chance(1, 3) { t.rangei(1, 5) } else { 0 };
        let mut values: Vec<(String, String)> = vec![];
        for _ in 0..nv {
            const V: &[char] = &['0', '0', '1', '2', 'A', 'a', 'B', 'Z', ' ', '&', '<', '\'', '"', 'é', '=', '_', '-'];
            let v = if t.chance(1, 500) { t.string(V, 1, 3).repeat(t.rangei(10, 120)) } else { t.string(V, 1, 6) };
            let v = match values.last() {
                Some(l) if t.chance(1, 4) => {
                    let l: &String = &l.0;
                    match t.usize(6) {
                        0 => format!("0{}", l),
                        1 => format!("{}0", l),
                        2 => format!("{} ", l),
                        3 => l.to_uppercase(),
                        4 => l.to_lowercase(),
                        _ => format!(" {}", l),
                    }
                }
                _ => v,
            };
            if values.iter().all(|x| x.0 != v) {
                values.push((v, ["BUY", "SELL_SHORT", "1_TWO", "NONE"][t.usize(4)].to_string()));
            }
        }
        spec.fields.push(FieldDecl { num, name, ty, values });
        Some(i)
    };
    let fixed_h = [8u32, 9, 35];
    let mut hdr: Vec<usize> = vec![];
    for n in fixed_h {
        hdr.push(add(&mut spec, t, Some(n), &mut nums).unwrap());
    }
    for n in [34u32, 49, 52, 56, 50, 57, 142, 143] {
        if t.flip() {
            hdr.push(add(&mut spec, t, Some(n), &mut nums).unwrap());
        }
    }
    let mut trl: Vec<usize> = vec![add(&mut spec, t, Some(10), &mut nums).unwrap()];
    for n in [93u32, 89] {
        if t.flip() {
            trl.push(add(&mut spec, t, Some(n), &mut nums).unwrap());
        }
    }
    let mut rest: Vec<usize> = vec![];
    for _ in 0..nfields {
        rest.push(add(&mut spec, t, None, &mut nums).unwrap());
    }
    let max_depth = match t.weighted(&[2, 4, 3, 1]) {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => 4,
    };
    let max_depth = if deep { t.rangei(5, 12) } else { max_depth };
    // pools per depth: body 0..=max, then header 0..=2 for Wire
    let (body_pools, mut header_pools, trailer_pool): (Vec<Vec<usize>>, Vec<Vec<usize>>, Vec<usize>) = match profile {
        Profile::Any => {
            let all: Vec<usize> = (0..spec.fields.len()).collect();
            (vec![all.clone(); max_depth + 1], vec![all.clone(); 3], all)
        }
        Profile::Wire | Profile::Overlap => {
            let mut b = vec![vec![]; max_depth + 1];
            let mut h: Vec<Vec<usize>> = vec![hdr.clone(), vec![], vec![]];
            let mut tr = trl.clone();
            for i in &rest {
                match t.weighted(&[10, 1, 1]) {
                    0 => {
                        let d = t.usize(max_depth + 1);
                        b[d].push(*i)
                    }
                    1 => {
                        let d = t.usize(3);
                        h[d].push(*i)
                    }
                    _ => tr.push(*i),
                }
            }
            if profile == Profile::Overlap {
                b = vec![b.concat(); max_depth + 1];
            }
            (b, h, tr)
        }
    };
    if profile != Profile::Any {
        // the three leading fields are placed explicitly
        header_pools[0].retain(|i| !fixed_h.contains(&spec.fields[*i].num));
    }
    let ncomps = if numerous { t.rangei(10, 40) } else { t.len(0, 6) };
    let mut g = G { profile, pools: body_pools, comps: vec![vec![]; max_depth + 1], max_depth, deep, wide, weights: vec![], left: Default::default() };
    let mut cnames: Vec<String> = vec![];
    for _ in 0..ncomps {
        let c = spec.comps.len();
        let d = t.usize(max_depth + 1);
        let name = if t.chance(1, 12) {
            // like a field's
            let n = t.pick(&spec.fields).name.clone();
            if cnames.contains(&n) { continue }
            cnames.push(n.clone());
            n
        } else {
            new_name(t, &mut cnames, 'C', c)
        };
        let mut used = HashSet::new();
        let n = t.len(0, 5);
        g.left.set(120);
        let items = g.items(t, &spec, d, &mut used, n);
        g.weights.push(120 - g.left.get());
        spec.comps.push((name, items));
        match profile {
            Profile::Any | Profile::Overlap => g.comps.iter_mut().for_each(|v| v.push(c)),
            Profile::Wire => g.comps[d].push(c),
        }
    }
    let nmsgs = if numerous { t.rangei(20, 90) } else { t.rangei(1, 5) };
    let mut types: HashSet<String> = HashSet::new();
    let mut mnames: Vec<String> = vec![];
    for m in 0..nmsgs {
        let mut mtype = match t.weighted(&[3, 2, 1]) {
            0 => t.pick(&TYPES43).to_string(),
            1 if t.chance(1, 100) => alnum(t, 1, 3).repeat(t.rangei(2, 100)),
            1 => alnum(t, 1, 3),
            _ => t.pick(&["U1", "UÄ", "a b", "=", "d", "x/y"]).to_string(),
        };
        while !types.insert(mtype.clone()) {
            mtype.push('Q');
        }
        let mut used = HashSet::new();
        let n = if wide && m == 0 { t.rangei(40, 250) } else { t.len(0, 9) };
        g.left.set(400);
        let items = g.items(t, &spec, 0, &mut used, n);
        let cat = if t.flip() { "admin" } else { "app" };
        let name = if t.chance(1, 10) && !mnames.contains(&mtype) { mtype.clone() } else { new_name(t, &mut mnames, 'M', m) };
        mnames.push(name.clone());
        spec.messages.push(MsgDecl { name, mtype, cat: cat.into(), items });
    }
    // header and trailer
    let mut used = HashSet::new();
    let mut header: Vec<Item> = vec![];
    for n in fixed_h {
        used.insert(n);
        header.push(Item::Field { name: spec.fields.iter().find(|f| f.num == n).unwrap().name.clone(), req: true });
    }
    let hg = G { profile, comps: if profile == Profile::Any { vec![g.comps[0].clone(); 3] } else { vec![vec![]; 3] }, pools: header_pools, max_depth: 2, deep: false, wide: false, weights: g.weights.clone(), left: 100.into() };
    let n = t.len(0, 8);
    header.extend(hg.items(t, &spec, 0, &mut used, n));
    let header = in_component(t, &mut spec, &mut cnames, header);
    spec.header = header;
    let mut used = HashSet::new();
    let tg = G { profile, comps: vec![vec![]], pools: vec![trailer_pool.iter().copied().filter(|i| spec.fields[*i].num != 10).collect()], max_depth: 0, deep: false, wide: false, weights: vec![], left: 100.into() };
    let n = t.len(0, 4);
    used.insert(10);
    let mut tr = tg.items(t, &spec, 0, &mut used, n);
    let at = t.usize(tr.len() + 1);
    let ten = spec.fields.iter().find(|f| f.num == 10).unwrap().name.clone();
    tr.insert(at, Item::Field { name: ten, req: true });
    let tr = in_component(t, &mut spec, &mut cnames, tr);
    spec.trailer = tr;
    if t.chance(1, 3) {
        let mut f = spec.fields.clone();
        t.shuffle(&mut f);
        spec.fields = f;
    }
    let d = spec.resolve().expect("generated dictionary is well-formed");
    (spec, d)
}

/// now and then, moves a run of the header's or the trailer's items into a component
fn in_component(t: &mut Tape, spec: &mut DictSpec, cnames: &mut Vec<String>, mut items: Vec<Item>) -> Vec<Item> {
    if !t.chance(1, 4) {
        return items;
    }
    let from = t.usize(items.len());
    let to = t.rangei(from, items.len() - 1) + 1;
    let name = new_name(t, cnames, 'C', spec.comps.len());
    let inner: Vec<Item> = items.splice(from..to, [Item::Comp { name: name.clone(), req: t.flip() }]).collect();
    spec.comps.push((name, inner));
    items
}

/// tags with a fixed role in a message
pub const RESERVED: [u32; 14] = [8, 9, 10, 34, 35, 49, 50, 52, 56, 57, 89, 93, 142, 143];

impl G {
    fn flat(&self, spec: &DictSpec, items: &[Item], out: &mut Vec<u32>) {
        for i in items {
            match i {
                Item::Field { name, .. } | Item::Group { name, .. } => {
                    out.push(spec.fields.iter().find(|f| f.name == *name).unwrap().num)
                }
                Item::Comp { name, .. } => {
                    let c = spec.comps.iter().find(|c| c.0 == *name).unwrap();
                    self.flat(spec, &c.1, out)
                }
            }
        }
    }
    fn items(&self, t: &mut Tape, spec: &DictSpec, depth: usize, used: &mut HashSet<u32>, n: usize) -> Vec<Item> {
        let mut out = vec![];
        for _ in 0..n {
            let kind = t.weighted(if self.deep { &[3, 7, 2] } else { &[6, 3, 2] });
            if kind == 2 && !self.comps[depth].is_empty() {
                let c = *t.pick(&self.comps[depth]);
                let mut flat = vec![];
                self.flat(spec, &spec.comps[c].1, &mut flat);
                if flat.iter().all(|x| !used.contains(x)) && self.weights[c] <= self.left.get() {
                    self.left.set(self.left.get() - self.weights[c]);
                    used.extend(flat);
                    out.push(Item::Comp { name: spec.comps[c].0.clone(), req: t.flip() });
                }
                continue;
            }
            let free: Vec<usize> =
                self.pools[depth].iter().copied().filter(|i| !used.contains(&spec.fields[*i].num)).collect();
            if free.is_empty() {
                continue;
            }
            if self.left.get() == 0 {
                break;
            }
            self.left.set(self.left.get() - 1);
            let f = &spec.fields[*t.pick(&free)];
            used.insert(f.num);
            if kind == 1 && depth < self.max_depth && !self.pools[depth + 1].is_empty() {
                let mut inner = HashSet::new();
                if self.profile != Profile::Any {
                    inner.insert(0);
                }
                let k = if self.wide && depth < 2 && t.chance(1, 8) { t.rangei(10, 60) } else { 1 + t.len(0, if self.deep { 2 } else { 5 }) };
                let req = t.flip();
                let items = self.items(t, spec, depth + 1, &mut inner, k);
                if items.is_empty() && self.profile != Profile::Any {
                    out.push(Item::Field { name: f.name.clone(), req });
                } else {
                    out.push(Item::Group { name: f.name.clone(), req, items });
                }
            } else {
                out.push(Item::Field { name: f.name.clone(), req: t.flip() });
            }
        }
        out
    }
}

// ------------------------------------------------------------------ the shipped dictionary

pub fn repo() -> String {
    std::env::var("FIXCHECK_REPO").unwrap_or_else(|_| "/repo".into())
}
pub fn fix43_xml() -> &'static str {
    static X: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    X.get_or_init(|| std::fs::read_to_string(repo() + "/resources/FIX43.xml").expect("FIX43.xml"))
}
pub fn fix43() -> &'static (DictSpec, Dict) {
    static X: std::sync::OnceLock<(DictSpec, Dict)> = std::sync::OnceLock::new();
    X.get_or_init(|| {
        let s = DictSpec::from_xml(fix43_xml());
        let d = s.resolve().expect("FIX43 resolves");
        (s, d)
    })
}
pub fn fix43_dd() -> &'static fix_rs::data_dictionary::DataDictionary {
    static X: std::sync::OnceLock<fix_rs::data_dictionary::DataDictionary> = std::sync::OnceLock::new();
    X.get_or_init(|| fix43_xml().parse().expect("FIX43 loads"))
}
