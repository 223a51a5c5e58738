//! Field types and allowed values of a dictionary.
use super::common::*;
use crate::dict::{self, DictSpec, Profile, Style, FOREIGN_TYPES, TYPES};
use crate::engine::*;
use crate::ensure;
use crate::tape::Tape;
use fix_rs::data_dictionary::DataDictionary;
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "C14",
    rule: "A case is a generated well-formed dictionary (fields with any type name, 0..5 allowed values with escaped and \
non-ASCII characters, any section order and XML layout) loaded from its text; types and values are asked for every declared tag \
and for undeclared ones. Non-trivial: at least one field with values and one of an unrecognised type; distinct by document.",
    quick: 60_000,
    thorough: 1_500_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("shipped dictionary", shipped), ("extreme sizes", extremes), ("every type name", types)],
    assumptions: &["an empty attribute counts as missing, so allowed values have at least one character"],
};

/// A generated dictionary in some layout, loaded.
pub fn gen_any(t: &mut Tape, ctx: &mut Ctx) -> Result<(DictSpec, dict::Dict, DataDictionary, String), Failure> {
    let (spec, d) = dict::gen(t, Profile::Any);
    let st = Style::gen(t);
    let xml = spec.to_xml(&st);
    ctx.label_if(!spec.comps.is_empty(), "with components");
    match load(&xml) {
        Ok(Ok(dd)) => Ok((spec, d, dd, xml)),
        Ok(Err(e)) => Err(fail("refused", format!("a well-formed dictionary is refused: {}", e), xml)),
        Err(p) => Err(fail("panic", format!("loading a well-formed dictionary panics: {}", p), xml)),
    }
}
pub fn others(d: &dict::Dict) -> Vec<u32> {
    let mut v: BTreeSet<u32> = [0u32, 1, 2, 8, 10, 35, 700, 9999, u32::MAX].into();
    for t in d.types.keys() {
        v.insert(t.wrapping_add(1));
        v.insert(t.wrapping_sub(1));
        v.insert(*t);
    }
    v.into_iter().collect()
}

pub fn check(d: &dict::Dict, dd: &DataDictionary, xml: &str) -> Res {
    for tag in others(d) {
        let ty = dd.get_field_type(tag).map(|t| t.to_string());
        let vals: Option<BTreeSet<String>> = dd.get_field_values(tag).map(|v| v.iter().cloned().collect());
        match d.types.get(&tag) {
            None => {
                ensure!(ty.is_none(), "type", xml, "undeclared tag {} has type {:?}", tag, ty);
                ensure!(vals.is_none(), "values", xml, "undeclared tag {} has values {:?}", tag, vals);
            }
            Some((name, values)) => {
                let want = if TYPES.contains(&name.as_str()) { name.as_str() } else { "UNKNOWN" };
                ensure!(ty.as_deref() == Some(want), "type", xml, "field {} of type {:?} has type {:?}", tag, name, ty);
                let wv: BTreeSet<String> = values.iter().cloned().collect();
                let wv = if wv.is_empty() { None } else { Some(wv) };
                ensure!(vals == wv, "values", xml, "field {} has values {:?}, declared {:?}", tag, vals, wv);
            }
        }
    }
    Ok(())
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let (spec, d, dd, xml) = gen_any(t, ctx)?;
    let values = spec.fields.iter().any(|f| !f.values.is_empty());
    let unknown = spec.fields.iter().any(|f| !TYPES.contains(&f.ty.as_str()));
    if values && unknown {
        ctx.nontrivial();
        ctx.key(&xml);
        ctx.sample(|| clip(&xml, 700));
    }
    ctx.add("fields", spec.fields.len() as u64);
    ctx.add("fields with values", spec.fields.iter().filter(|f| !f.values.is_empty()).count() as u64);
    ctx.add("fields of unrecognised type", spec.fields.iter().filter(|f| !TYPES.contains(&f.ty.as_str())).count() as u64);
    check(&d, &dd, &xml)
}

fn shipped(_: &mut Ctx) -> Res {
    check(&dict::fix43().1, dict::fix43_dd(), "FIX43.xml")
}

/// all 24 names, and near misses of each, at two positions
fn types(_: &mut Ctx) -> Res {
    let mut spec = DictSpec { ty: "FIX".into(), major: "4".into(), minor: "3".into(), ..Default::default() };
    let mut n = 0;
    let mut all: Vec<String> = vec![];
    let mut want: BTreeMap<u32, String> = BTreeMap::new();
    for ty in TYPES {
        for v in [ty.to_string(), ty.to_lowercase(), format!("{}X", ty), format!("{}8", ty), format!("{} ", ty), format!("U{}", ty), format!(" {}", ty), ty[..ty.len() - 1].to_string()] {
            all.push(v);
        }
    }
    all.extend(FOREIGN_TYPES.iter().map(|s| s.to_string()));
    for v in all {
        {
            n += 1;
            spec.fields.push(dict::FieldDecl { num: n, name: format!("F{}", n), ty: v.clone(), values: vec![] });
            want.insert(n, v);
        }
    }
    for st in [Style::plain(), Style { order: vec![4, 3, 2, 1, 0], indent: true, ..Style::plain() }] {
        let xml = spec.to_xml(&st);
        let dd = match load(&xml) {
            Ok(Ok(d)) => d,
            e => return Err(fail("refused", format!("{:?}", e.map(|r| r.map(|_| ()))), xml)),
        };
        check(&spec.resolve().map_err(|e| fail("broken-oracle", e, ""))?, &dd, &xml)?;
    }
    Ok(())
}

/// large in one dimension each
fn extremes(_: &mut Ctx) -> Res {
    for k in 0..crate::extreme::KINDS {
        if let super::common::DictCase::Own(b) = crate::extreme::get(k)?.1 {
            check(&b.1, &b.2, &b.3)?;
        }
    }
    Ok(())
}
