//! Session identities as values.
use crate::conf::{self, Id, ID_KEYS};
use crate::engine::*;
use crate::ensure;
use crate::tape::Tape;
use fix_rs::session::{SessionId, SessionIdBuilder};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

pub static PROP: Prop = Prop {
    id: "C21",
    rule: "A case is a set of 2..8 identities with parts from a small alphabet (so that most pairs differ in one part, only in \
which optional part is present, or print alike), each built through the builder in several ways and through settings maps. Equality, \
hashes, printed forms and use as map keys are compared with those of the part tuples. Non-trivial: two different identities of the set \
print alike or differ in exactly one part; distinct by the set.",
    quick: 200_000,
    thorough: 8_000_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("one part at a time", one_part)],
    assumptions: &["an empty session qualifier is not generated (only sub and location ids are normalised)"],
};

/// parts and qualifier
type Full = (Id, Option<String>);

/// A part: like those in configurations, or with blanks, control characters, separators and other case.
fn part(t: &mut Tape) -> String {
    if !t.chance(1, 4) {
        return conf::part(t);
    }
    match t.usize(4) {
        0 => t.pick(&[" ", "  ", "\t", "\n", "\0", "\u{a0}", "\u{200b}", "\u{feff}", "/", ":", "->", ">", "-", "0", "None", "none", "null", "\"\""]).to_string(),
        1 => {
            let p = conf::part(t);
            match t.usize(4) {
                0 => format!(" {}", p),
                1 => format!("{} ", p),
                2 => p.to_lowercase(),
                _ => p.to_uppercase(),
            }
        }
        2 => t.string(&['A', 'a', 'é', '\u{301}', ' ', '/', '\u{1}', 'Å', '\u{212b}'], 1, 4),
        _ => conf::part(t).repeat(t.rangei(2, 40)),
    }
}

fn gen(t: &mut Tape, base: Option<&Full>) -> Full {
    if let Some(b) = base {
        let mut f = b.clone();
        match t.usize(8) {
            7 => f.1 = if f.1.is_some() { None } else { Some("q".into()) },
            i => {
                let optional = [2, 3, 5, 6].contains(&i);
                f.0[i] = if optional && f.0[i].is_some() && t.flip() { None } else { Some(part(t)) };
            }
        }
        if t.chance(1, 4) {
            // the same words in other places: prints alike
            f.0.swap(2, 3);
        }
        return f;
    }
    let mut id: Id = Default::default();
    for i in 0..7 {
        if ![2, 3, 5, 6].contains(&i) || t.flip() {
            id[i] = Some(if i == 0 { t.pick(&["FIX.4.3", "FIX.4.2", "FIX.4.3:A", ""]).to_string() } else { part(t) });
        }
    }
    let q = if t.chance(1, 4) { Some(t.pick(&["q", "order", "A"]).to_string()) } else { None };
    (id, q)
}

/// builds the identity in one of several equivalent ways
fn build(t: &mut Tape, f: &Full) -> SessionId {
    let p = &f.0;
    let s = |i: usize| p[i].clone().unwrap_or_default();
    // an absent optional part may be given as empty
    let empties = t.flip();
    let opt = |i: usize| p[i].clone().or(if empties { Some(String::new()) } else { None });
    match t.weighted(&[2, 2, if f.1.is_none() { 2 } else { 0 }]) {
        0 => {
            let mut b = SessionIdBuilder::new(s(0), s(1), s(4));
            if let Some(v) = opt(2) {
                b.sender_subid(v);
            }
            if let Some(v) = opt(3) {
                b.sender_locationid(v);
            }
            if let Some(v) = opt(5) {
                b.target_subid(v);
            }
            if let Some(v) = opt(6) {
                b.target_locationid(v);
            }
            if let Some(q) = &f.1 {
                b.session_qualifier(q.as_str());
            }
            b.build().unwrap()
        }
        1 => {
            // other order, values overwritten
            let mut b = SessionIdBuilder::default();
            if let Some(q) = &f.1 {
                b.session_qualifier("other");
                b.session_qualifier(q.as_str());
            }
            for (i, v) in [(6, opt(6)), (5, opt(5)), (3, opt(3)), (2, opt(2))] {
                if let Some(v) = v {
                    match i {
                        6 => b.target_locationid("x").target_locationid(v.as_str()),
                        5 => b.target_subid("x").target_subid(v.as_str()),
                        3 => b.sender_locationid("x").sender_locationid(v.as_str()),
                        _ => b.sender_subid("x").sender_subid(v.as_str()),
                    };
                }
            }
            b.target_compid(s(4)).sender_compid(s(1)).begin_string("zzz").begin_string(s(0));
            b.build().unwrap()
        }
        _ => {
            let (mut own, mut dflt) = (HashMap::new(), HashMap::new());
            for i in 0..7 {
                if let Some(v) = if [2, 3, 5, 6].contains(&i) { opt(i) } else { Some(s(i)) } {
                    match t.usize(3) {
                        0 => {
                            own.insert(ID_KEYS[i].to_string(), v);
                        }
                        1 => {
                            own.insert(ID_KEYS[i].to_string(), v);
                            dflt.insert(ID_KEYS[i].to_string(), "other".to_string());
                        }
                        _ => {
                            dflt.insert(ID_KEYS[i].to_string(), v);
                        }
                    }
                }
            }
            SessionId::from_map(&own, &dflt)
        }
    }
}
fn hash(s: &SessionId) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn check_pair(a: &(Full, SessionId), b: &(Full, SessionId)) -> Res {
    let repro = || format!("{:?} and {:?}", a.0, b.0);
    let same = a.0 == b.0;
    ensure!((a.1 == b.1) == same, "equality", repro(), "== gives {} for {} and {}", !same, a.1, b.1);
    if same {
        ensure!(hash(&a.1) == hash(&b.1), "hash", repro(), "equal identities hash differently");
        ensure!(a.1.to_string() == b.1.to_string(), "print", repro(), "equal identities print differently: {} and {}", a.1, b.1);
    }
    Ok(())
}
fn check_one(f: &Full, s: &SessionId) -> Res {
    let repro = || format!("{:?}", f);
    ensure!(s.to_string() == conf::print(&f.0), "print", repro(), "prints as {:?}, expected {:?}", s.to_string(), conf::print(&f.0));
    ensure!(conf::parts(s) == f.0, "parts", repro(), "has parts {:?}", conf::parts(s));
    ensure!(*s.session_qualifier() == f.1, "parts", repro(), "has qualifier {:?}", s.session_qualifier());
    let c = s.clone();
    ensure!(c == *s && hash(&c) == hash(s) && c.to_string() == s.to_string(), "clone", repro(), "a clone differs");
    Ok(())
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let n = t.rangei(2, 8);
    let mut all: Vec<(Full, SessionId)> = vec![];
    for i in 0..n {
        let f = match t.weighted(&[2, 3, 2]) {
            1 if i > 0 => {
                let b = t.usize(i);
                let b = all[b].0.clone();
                gen(t, Some(&b))
            }
            2 if i > 0 => {
                let b = t.usize(i);
                all[b].0.clone()
            }
            _ => gen(t, None),
        };
        let s = guard(|| build(t, &f)).map_err(|m| fail("panic", format!("building panics: {}", m), format!("{:?}", f)))?;
        all.push((f, s));
    }
    let mut map: HashMap<SessionId, usize> = HashMap::new();
    let mut model: HashMap<Full, usize> = HashMap::new();
    let mut tricky = false;
    for (i, a) in all.iter().enumerate() {
        check_one(&a.0, &a.1)?;
        for b in &all[..=i] {
            check_pair(a, b)?;
            let d = (0..7).filter(|k| a.0 .0[*k] != b.0 .0[*k]).count() + (a.0 .1 != b.0 .1) as usize;
            tricky |= d == 1 || (d > 0 && conf::print(&a.0 .0) == conf::print(&b.0 .0));
            ctx.label_if(d > 0 && conf::print(&a.0 .0) == conf::print(&b.0 .0), "different identities print alike");
        }
        map.insert(a.1.clone(), i);
        model.insert(a.0.clone(), i);
    }
    let repro = || format!("{:?}", all.iter().map(|a| &a.0).collect::<Vec<_>>());
    ensure!(map.len() == model.len(), "keys", repro(), "{} map keys for {} identities", map.len(), model.len());
    for a in &all {
        ensure!(map.get(&a.1) == model.get(&a.0), "keys", repro(), "the map gives {:?} for {}", map.get(&a.1), a.1);
    }
    if tricky {
        ctx.nontrivial();
        ctx.key(&all.iter().map(|a| a.0.clone()).collect::<Vec<_>>());
        ctx.sample(repro);
    }
    Ok(())
}

fn one_part(_: &mut Ctx) -> Res {
    let full: Full = (std::array::from_fn(|i| Some(format!("P{}", i))), Some("q".into()));
    let mut t = Tape::replay(vec![]);
    let a = (full.clone(), build(&mut t, &full));
    check_one(&a.0, &a.1)?;
    for i in 0..8 {
        for v in [None, Some("other".to_string())] {
            let mut g = full.clone();
            match i {
                7 => g.1 = v,
                i if v.is_none() && ![2, 3, 5, 6].contains(&i) => g.0[i] = Some(String::new()),
                i => g.0[i] = v,
            }
            let b = (g.clone(), build(&mut t, &g));
            check_one(&b.0, &b.1)?;
            check_pair(&a, &b)?;
        }
    }
    let d = SessionId::default();
    ensure!(d.to_string() == "DEFAULT:->", "print", "", "the default identity prints as {}", d);
    Ok(())
}
