//! Defective dictionaries.
use super::common::*;
use crate::dict::{self, El, Profile, Style};
use crate::engine::*;
use crate::ensure;
use crate::tape::Tape;
use fix_rs::data_dictionary::DataDictionary;
use fix_rs::quickfix_errors::XmlError;

pub static PROP: Prop = Prop {
    id: "C17",
    rule: "A case is a generated well-formed dictionary with exactly one defect injected at a random applicable place \
(missing section, missing or empty attribute, duplicate field number, field name, message name or type, allowed value, \
field listed twice, undefined field or component, unknown element, bad field number, component cycle), or with its XML text cut or damaged, \
or arbitrary text. Non-trivial: a defect was placed; distinct by document.",
    quick: 120_000,
    thorough: 3_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("component cycles", cycles), ("missing sections of the shipped file", sections)],
    assumptions: &[
        "defects inside components are placed in components some message uses; unused ones are not expanded by the loader",
        "element nesting stays below 200, component chains below 64",
    ],
};

pub fn class(e: &XmlError) -> &'static str {
    match e {
        XmlError::DocumentNotParsed(_) => "DocumentNotParsed",
        XmlError::XmlNodeNotFound(_) => "XmlNodeNotFound",
        XmlError::FieldNotParsed { .. } => "FieldNotParsed",
        XmlError::DuplicateField(_) => "DuplicateField",
        XmlError::DuplicateMessage(_) => "DuplicateMessage",
        XmlError::AttributeNotFound(_) => "AttributeNotFound",
        XmlError::UnknownXmlTag(_) => "UnknownXmlTag",
        #[allow(unreachable_patterns)]
        _ => "other",
    }
}
/// Ok(class) or Ok("accepted")
pub fn outcome(xml: &str) -> Result<&'static str, Failure> {
    match guard(|| xml.parse::<DataDictionary>().map(|_| ()).map_err(|e| class(&e))) {
        Err(p) => Err(fail("panic", format!("loading panics: {}", p), xml)),
        Ok(Ok(())) => Ok("accepted"),
        Ok(Err(c)) => Ok(c),
    }
}

/// paths to all elements of the given names below the sections
fn paths(root: &El, pred: &dyn Fn(&El, &[usize]) -> bool) -> Vec<Vec<usize>> {
    fn walk(e: &El, p: &mut Vec<usize>, pred: &dyn Fn(&El, &[usize]) -> bool, out: &mut Vec<Vec<usize>>) {
        if pred(e, p) {
            out.push(p.clone());
        }
        for (i, k) in e.kids.iter().enumerate() {
            p.push(i);
            walk(k, p, pred, out);
            p.pop();
        }
    }
    let mut out = vec![];
    walk(root, &mut vec![], pred, &mut out);
    out
}
fn at<'a>(root: &'a mut El, p: &[usize]) -> &'a mut El {
    let mut e = root;
    for i in p {
        e = &mut e.kids[*i];
    }
    e
}

/// names of components reachable from messages, header and trailer
fn used(root: &El) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    fn collect(e: &El, out: &mut Vec<String>) {
        for k in &e.kids {
            if k.name == "component" {
                out.push(k.attr("name").unwrap_or("").to_string());
            }
            collect(k, out);
        }
    }
    let mut todo = vec![];
    for s in ["messages", "header", "trailer"] {
        if let Some(e) = root.kid(s) {
            collect(e, &mut todo);
        }
    }
    while let Some(c) = todo.pop() {
        if !out.contains(&c) {
            if let Some(e) = root.kid("components").and_then(|cs| cs.kids.iter().find(|k| k.attr("name") == Some(&c))) {
                collect(e, &mut todo);
            }
            out.push(c);
        }
    }
    out
}

/// Places one defect; returns the error classes that fit, or None when the kind does not apply.
pub fn inject(t: &mut Tape, root: &mut El, kind: usize) -> Option<(String, Vec<&'static str>)> {
    let u = used(root);
    let sec = |root: &El, p: &[usize]| p.first().map(|i| root.kids[*i].name.clone()).unwrap_or_default();
    // elements whose children the loader expands: messages, header, trailer, groups and used components
    let holders: Vec<Vec<usize>> = paths(root, &|e, p| {
        let s = sec(root, p);
        match s.as_str() {
            "header" | "trailer" => e.name == s && p.len() == 1 || e.name == "group",
            "messages" => e.name == "message" || e.name == "group",
            "components" => {
                p.len() >= 2
                    && u.iter().any(|c| Some(c.as_str()) == root.kids[p[0]].kids[p[1]].attr("name"))
                    && (p.len() == 2 || e.name == "group")
            }
            _ => false,
        }
    });
    let items: Vec<Vec<usize>> = holders
        .iter()
        .flat_map(|h| {
            let mut e = &*root;
            for i in h {
                e = &e.kids[*i];
            }
            (0..e.kids.len()).map(|i| [h.clone(), vec![i]].concat()).collect::<Vec<_>>()
        })
        .collect();
    let pick = |t: &mut Tape, v: &Vec<Vec<usize>>| if v.is_empty() { None } else { Some(t.pick(v).clone()) };
    let decls = paths(root, &|e, p| sec(root, p) == "fields" && e.name == "field");
    let msgs = paths(root, &|e, p| sec(root, p) == "messages" && e.name == "message");
    let drop_attr = |t: &mut Tape, e: &mut El, a: &str| {
        if t.flip() {
            e.attrs.retain(|x| x.0 != a)
        } else {
            e.set(a, "")
        }
    };
    let att = vec!["AttributeNotFound"];
    Some(match kind {
        0 => {
            let i = t.usize(root.kids.len());
            let n = root.kids[i].name.clone();
            if t.flip() {
                root.kids.remove(i);
            } else {
                root.kids[i].name = format!("{}x", n);
            }
            (format!("section {} missing", n), vec!["XmlNodeNotFound"])
        }
        1 => {
            let a = *t.pick(&["type", "major", "minor"]);
            drop_attr(t, root, a);
            (format!("attribute {} of the root", a), att)
        }
        2 => {
            let p = pick(t, &items)?;
            let a = *t.pick(&["name", "required"]);
            let e = at(root, &p);
            drop_attr(t, e, a);
            (format!("attribute {} of a {} at depth {}", a, e.name, p.len()), att)
        }
        3 => {
            let p = pick(t, &decls)?;
            let a = *t.pick(&["name", "number", "type"]);
            drop_attr(t, at(root, &p), a);
            // an undeclared name or number is also an unknown field, found first or not
            (format!("attribute {} of a field declaration", a), att)
        }
        4 => {
            let p = pick(t, &msgs)?;
            let a = *t.pick(&["name", "msgcat", "msgtype"]);
            drop_attr(t, at(root, &p), a);
            (format!("attribute {} of a message", a), att)
        }
        5 => {
            let vals = paths(root, &|e, p| sec(root, p) == "fields" && e.name == "value");
            let p = pick(t, &vals)?;
            drop_attr(t, at(root, &p), "enum");
            ("attribute enum of a value".into(), att)
        }
        6 => {
            let comps = paths(root, &|e, p| sec(root, p) == "components" && p.len() == 2 && e.name == "component");
            let p = pick(t, &comps)?;
            drop_attr(t, at(root, &p), "name");
            ("attribute name of a component".into(), att)
        }
        7 | 8 => {
            if decls.len() < 2 {
                return None;
            }
            let p = pick(t, &decls)?;
            let q = pick(t, &decls)?;
            if p == q {
                return None;
            }
            let a = if kind == 7 { "number" } else { "name" };
            let v = at(root, &p).attr(a).unwrap().to_string();
            at(root, &q).set(a, &v);
            (format!("duplicate field {}", a), vec!["DuplicateField"])
        }
        9 | 10 => {
            if msgs.len() < 2 {
                return None;
            }
            let p = pick(t, &msgs)?;
            let q = pick(t, &msgs)?;
            if p == q {
                return None;
            }
            let a = if kind == 9 { "name" } else { "msgtype" };
            let v = at(root, &p).attr(a).unwrap().to_string();
            at(root, &q).set(a, &v);
            (format!("duplicate message {}", a), vec!["DuplicateMessage"])
        }
        11 => {
            let with: Vec<Vec<usize>> = paths(root, &|e, p| sec(root, p) == "fields" && e.name == "field" && !e.kids.is_empty());
            let p = pick(t, &with)?;
            let e = at(root, &p);
            let k = e.kids[t.usize(e.kids.len())].clone();
            let i = t.usize(e.kids.len() + 1);
            e.kids.insert(i, k);
            ("duplicate allowed value".into(), vec!["DuplicateField"])
        }
        12 => {
            // a field, group or non-empty component listed twice in one holder
            let v: Vec<Vec<usize>> = items.clone();
            let p = pick(t, &v)?;
            let (i, h) = p.split_last().unwrap();
            let k = at(root, &p).clone();
            if k.name == "component" {
                let c = root.kid("components").unwrap().kids.iter().find(|c| c.attr("name") == k.attr("name")).unwrap();
                fn has_field(root: &El, c: &El, d: usize) -> bool {
                    c.kids.iter().any(|k| {
                        k.name != "component"
                            || (d < 20
                                && root.kid("components").unwrap().kids.iter().any(|x| x.attr("name") == k.attr("name") && has_field(root, x, d + 1)))
                    })
                }
                if !has_field(root, c, 0) {
                    return None;
                }
            }
            let mut k2 = k.clone();
            if k.name == "group" && t.flip() {
                k2 = El::new("field", &[("name", k.attr("name").unwrap()), ("required", "N")]);
            }
            let e = at(root, h);
            let j = t.usize(e.kids.len() + 1);
            let _ = i;
            e.kids.insert(j, k2);
            (format!("{} listed twice at depth {}", k.name, p.len()), vec!["DuplicateField"])
        }
        13 => {
            let v: Vec<Vec<usize>> = items.clone();
            let p = pick(t, &v)?;
            let all = |root: &El, sec: &str| -> Vec<String> {
                root.kids.iter().filter(|k| k.name == sec).flat_map(|k| &k.kids).filter_map(|k| k.attr("name").map(|s| s.to_string())).collect()
            };
            let (fnames, cnames) = (all(root, "fields"), all(root, "components"));
            let names: Vec<String> = [all(root, "messages"), fnames.clone(), cnames.clone()].concat();
            let e = at(root, &p);
            let n = e.name.clone();
            let bad = if t.flip() {
                // a declared name but for a little, or of another kind
                let l = t.pick(&names).clone();
                match t.usize(7) {
                    0 => l.to_lowercase(),
                    1 => l.to_uppercase(),
                    2 => format!("{}x", l),
                    3 => l.chars().skip(1).collect(),
                    4 => l.chars().take(l.chars().count() - 1).collect(),
                    5 => format!(" {}", l),
                    _ => l,
                }
            } else {
                format!("zz{}", t.pick(&["NoSuchName", "F0x", "f0", " F0", "C0", "8", "M0_"]))
            };
            let same_kind = if n == "component" { &cnames } else { &fnames };
            if bad.is_empty() || same_kind.contains(&bad) {
                return None;
            }
            e.set("name", &bad);
            (format!("undefined {} at depth {}", n, p.len()), vec!["XmlNodeNotFound"])
        }
        14 => {
            let p = pick(t, &holders)?;
            let e = at(root, &p);
            let n = *t.pick(&["fields", "value", "message", "foo", "Field", "GROUP", "comp", "fieldx"]);
            let mut k = El::new(n, &[("name", "F0_"), ("required", "N")]);
            if t.flip() {
                k.attrs.clear();
            }
            let i = t.usize(e.kids.len() + 1);
            e.kids.insert(i, k);
            (format!("unknown element in a {} at depth {}", e.name, p.len()), vec!["UnknownXmlTag"])
        }
        15 => {
            let p = pick(t, &decls)?;
            let v = *t.pick(&["x", "1x", "-1", "4294967296", " 1", "1 ", "1.0", "0x1", "99999999999999999999999", "é", "１"]);
            at(root, &p).set("number", v);
            (format!("field number {:?}", v), vec!["FieldNotParsed"])
        }
        _ => {
            // a cycle through 1..4 components, reached from a message, header or trailer, maybe through groups
            let n = t.rangei(1, 4);
            let comps = root.kid_mut("components").unwrap();
            let base = comps.kids.len();
            for i in 0..n {
                let next = format!("Z{}", (i + 1) % n);
                let mut c = El::new("component", &[("name", &format!("Z{}", i))]);
                let r = El::new("component", &[("name", &next), ("required", if t.flip() { "Y" } else { "N" })]);
                if t.flip() {
                    let mut g = El::new("group", &[("name", "ZG"), ("required", "N")]);
                    g.kids.push(r);
                    c.kids.push(g);
                } else {
                    c.kids.push(r);
                }
                comps.kids.push(c);
            }
            let _ = base;
            let fs = root.kid_mut("fields").unwrap();
            fs.kids.push(El::new("field", &[("number", "4000000000"), ("name", "ZG"), ("type", "NUMINGROUP")]));
            let p = pick(t, &holders)?;
            let e = at(root, &p);
            let i = t.usize(e.kids.len() + 1);
            e.kids.insert(i, El::new("component", &[("name", &format!("Z{}", t.usize(n))), ("required", "N")]));
            ("component cycle".into(), vec!["any"])
        }
    })
}
pub const KINDS: usize = 17;

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    if t.chance(1, 12) {
        let s = t.string(&['<', '>', '/', 'f', 'i', 'x', '"', '=', ' ', '&', '!', '-', '?', 'é', '\0'], 0, 40);
        let o = outcome(&s)?;
        ctx.label("arbitrary text");
        ensure!(o != "accepted", "accepts", s, "arbitrary text is accepted as a dictionary");
        return Ok(());
    }
    let (spec, _) = dict::gen(t, Profile::Any);
    let st = Style::gen(t);
    let mut root = spec.to_el(&st);
    if t.chance(1, 8) {
        // text-level damage
        let xml = root.to_xml(&st);
        let mut cs: Vec<char> = xml.chars().collect();
        let cut = t.flip();
        if cut {
            let n = t.usize(cs.len() - 1);
            cs.truncate(n);
        } else {
            for _ in 0..t.rangei(1, 3) {
                let i = t.usize(cs.len());
                cs[i] = *t.pick(&['<', '>', '"', '/', '&', 'x', ' ', '0', '\u{1}']);
            }
        }
        let s: String = cs.into_iter().collect();
        let o = outcome(&s)?;
        ctx.label(if cut { "cut text" } else { "damaged text" });
        ctx.nontrivial();
        ctx.key(&s);
        if cut {
            // the XML parser may see some cut texts as an incomplete tree; any refusal is right
            ensure!(o != "accepted", "class", s, "a truncated document gives a dictionary");
        }
        return Ok(());
    }
    let kind = t.usize(KINDS);
    let Some((what, want)) = inject(t, &mut root, kind) else {
        ctx.label("defect does not apply");
        return Ok(());
    };
    let xml = root.to_xml(&st);
    ctx.label(what.split(" at depth").next().unwrap());
    ctx.nontrivial();
    ctx.key(&xml);
    ctx.sample(|| format!("{}: {}", what, clip(&xml, 600)));
    let o = outcome(&xml)?;
    ensure!(o != "accepted", "accepts", xml, "a dictionary with {} is accepted", what);
    ensure!(want.contains(&"any") || want.contains(&o), "class", xml, "{} is refused as {}, expected {:?}", what, o, want);
    Ok(())
}

fn cycles(_: &mut Ctx) -> Res {
    let doc = |comps: &str, msg: &str| {
        format!(
            "<fix type=\"FIX\" major=\"4\" minor=\"3\"><header/><trailer/><messages><message name=\"M\" msgcat=\"app\" msgtype=\"D\">{}</message></messages><components>{}</components><fields><field number=\"1\" name=\"a\" type=\"INT\"/><field number=\"2\" name=\"g\" type=\"INT\"/></fields></fix>",
            msg, comps
        )
    };
    let r = "<component name=\"A\" required=\"Y\"/>";
    for c in [
        "<component name=\"A\"><component name=\"A\" required=\"Y\"/></component>",
        "<component name=\"A\"><component name=\"B\" required=\"Y\"/></component><component name=\"B\"><component name=\"A\" required=\"N\"/></component>",
        "<component name=\"A\"><group name=\"g\" required=\"N\"><component name=\"A\" required=\"N\"/></group></component>",
        "<component name=\"A\"><field name=\"a\" required=\"N\"/><group name=\"g\" required=\"N\"><component name=\"A\" required=\"N\"/></group></component>",
        "<component name=\"A\"><field name=\"a\" required=\"N\"/><component name=\"A\" required=\"N\"/></component>",
    ] {
        let xml = doc(c, r);
        let o = outcome(&xml)?;
        ensure!(o != "accepted", "accepts", xml, "a component cycle is accepted");
    }
    // a component used twice without a cycle is fine
    let ok = doc(
        "<component name=\"A\"><group name=\"g\" required=\"N\"><component name=\"B\" required=\"N\"/></group><component name=\"B\" required=\"N\"/></component><component name=\"B\"><field name=\"a\" required=\"N\"/></component>",
        r,
    );
    let o = outcome(&ok)?;
    ensure!(o == "accepted", "refuses", ok, "components without a cycle are refused as {}", o);
    Ok(())
}

fn sections(_: &mut Ctx) -> Res {
    let st = Style::plain();
    let root = dict::fix43().0.to_el(&st);
    for i in 0..5 {
        let mut r = root.clone();
        let n = r.kids.remove(i).name;
        let o = outcome(&r.to_xml(&st))?;
        ensure!(o == "XmlNodeNotFound", "class", n, "the shipped dictionary without section {} gives {}", n, o);
    }
    let o = outcome(&root.to_xml(&st))?;
    ensure!(o == "accepted", "refuses", "FIX43", "the re-printed shipped dictionary is refused: {}", o);
    let _ = load;
    Ok(())
}
