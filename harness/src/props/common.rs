use crate::dict::{self, Dict, DictSpec, Profile, Style};
use crate::engine::{fail, guard, show, Ctx, Failure};
use crate::tape::Tape;
use fix_rs::data_dictionary::DataDictionary;
use std::sync::Arc;

pub enum DictCase {
    Shipped,
    Own(Box<(DictSpec, Dict, DataDictionary, String)>),
}
impl DictCase {
    pub fn d(&self) -> &Dict {
        match self {
            DictCase::Shipped => &dict::fix43().1,
            DictCase::Own(b) => &b.1,
        }
    }
    pub fn dd(&self) -> &DataDictionary {
        match self {
            DictCase::Shipped => dict::fix43_dd(),
            DictCase::Own(b) => &b.2,
        }
    }
    pub fn describe(&self) -> String {
        match self {
            DictCase::Shipped => "dictionary FIX43.xml".into(),
            DictCase::Own(b) => format!("dictionary {}", b.3),
        }
    }
}

pub fn load(xml: &str) -> Result<Result<DataDictionary, String>, String> {
    guard(|| xml.parse::<DataDictionary>()).map(|r| r.map_err(|e| e.to_string()))
}

/// The shipped dictionary or a generated one in which a tag never stands both in a group and around it.
pub fn gen_dict(t: &mut Tape, ctx: &mut Ctx) -> Result<DictCase, Failure> {
    if t.chance(1, 3) {
        ctx.label("dictionary: FIX43");
        return Ok(DictCase::Shipped);
    }
    gen_own(t, ctx, Profile::Wire)
}
/// A dictionary in which the levels of the body may share tags.
pub fn gen_overlap(t: &mut Tape, ctx: &mut Ctx) -> Result<DictCase, Failure> {
    ctx.label("overlapping levels");
    gen_own(t, ctx, Profile::Overlap)
}
fn gen_own(t: &mut Tape, ctx: &mut Ctx, profile: Profile) -> Result<DictCase, Failure> {
    let (spec, d) = dict::gen(t, profile);
    let xml = spec.to_xml(&Style::plain());
    ctx.label("dictionary: generated");
    match load(&xml) {
        Ok(Ok(dd)) => Ok(DictCase::Own(Box::new((spec, d, dd, xml)))),
        Ok(Err(e)) => Err(fail("dict", format!("a well-formed dictionary is refused: {}", e), xml)),
        Err(p) => Err(fail("dict", format!("loading a well-formed dictionary panics: {}", p), xml)),
    }
}

pub fn arc_dd(c: &DictCase) -> Arc<DataDictionary> {
    Arc::new(c.dd().clone())
}

/// A text with any number of defects of any kinds, of which the first one, by the reference parser, is one of `mine`:
/// that one decides. Texts whose defects leave a conforming message must be read as that message.
pub fn tangled(t: &mut Tape, c: &DictCase, ctx: &mut Ctx, mine: &[&str]) -> Result<(), Failure> {
    use crate::msg::*;
    for _ in 0..4 {
        let m = gen_msg(t, c.d(), &GenOpt { total: 50, fill: 4, ..Default::default() });
        let mut toks = m.tokens();
        let n = t.rangei(1, 5);
        super::c01::mutate(t, &mut toks, c, n);
        let mut text = print(&toks);
        if t.chance(1, 8) {
            super::c01::damage(t, &mut text);
        }
        match ref_parse(&text, c.d()) {
            Ref::Reject(r) if r.iter().all(|x| mine.contains(x)) => {
                ctx.label("several defects");
                ctx.nontrivial();
                ctx.key(&text);
                ctx.sample(|| format!("{} -> {:?}", show(&text), r));
                let want: Vec<&str> = r.into_iter().collect();
                super::c04_expect(&text, &want, c)?;
            }
            Ref::Accept(x) if mine.is_empty() => {
                let repro = || format!("{} text {}", c.describe(), show(&text));
                let got = match parse(&text, c.dd()) {
                    Err(p) => return Err(fail("panic", format!("parsing a conforming message panics: {}", p), repro())),
                    Ok(Err(e)) => return Err(fail("reject", format!("a conforming message is rejected: {}", e), repro())),
                    Ok(Ok(g)) => extract(&g, &c.d().universe()).map_err(|e| fail("read", e, repro()))?,
                };
                if got.norm() != x.norm() {
                    return Err(fail("tree", diff(&x.norm(), &got.norm()), repro()));
                }
                ctx.label("moved about and still conforming");
                ctx.nontrivial();
                ctx.key(&text);
            }
            _ => ctx.label("several defects, not of this property"),
        }
    }
    Ok(())
}
