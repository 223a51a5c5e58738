//! The build script's generated field types, compiled and run.
use crate::dict::{self, DictSpec, FieldDecl, Style, TYPES};
use crate::engine::*;
use crate::ensure;
use crate::tape::Tape;
use std::collections::BTreeSet;
use std::fmt::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

pub static PROP: Prop = Prop {
    id: "C18",
    rule: "A case is a batch of 1..6 generated dictionaries (1..90 fields, numbers up to 2^32-1, names of any case with digits, \
underscores and non-ASCII letters, every known type name and unknown ones, values with arbitrary descriptions, any section order and \
layout). The repository's build script itself is run on each; the source it writes is compiled with a probe program that calls \
field() of every declared type, constructs each with a probe that only converts into the expected primitive type, and prints what \
it finds. Non-trivial: at least 10 fields of 4 primitive types; distinct by documents.",
    quick: 96,
    thorough: 4000,
    threads: 8,
    net: true,
    case,
    fixed: &[("shipped dictionary, generated", shipped), ("shipped dictionary, compiled into the engine", compiled), ("number limits and near-miss types", limits)],
    assumptions: &[
        "field names are Rust identifiers other than the names the template itself uses (String, Display, Into, Self, u32, char, bool, f32, i32)",
        "values have descriptions; PERCENTAGE and unrecognised type names map to text",
    ],
};

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch() -> Scratch {
    static N: AtomicU64 = AtomicU64::new(0);
    let p = std::env::temp_dir().join(format!("fixcheck-c18-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&p).expect("scratch");
    Scratch(p)
}
fn broken(m: impl Into<String>) -> Failure {
    fail("broken-oracle", m, "")
}
fn bin_dir() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().to_path_buf()
}

/// runs the repository's build script on a document, gives fields.rs
fn generate(xml: &str) -> Result<String, Failure> {
    let d = scratch();
    let res = d.0.join("resources");
    std::fs::create_dir_all(&res).map_err(|e| broken(e.to_string()))?;
    std::fs::write(res.join("FIX43.xml"), xml).map_err(|e| broken(e.to_string()))?;
    let out = d.0.join("out");
    std::fs::create_dir_all(&out).map_err(|e| broken(e.to_string()))?;
    let o = Command::new(bin_dir().join("genfields"))
        .env("CARGO_MANIFEST_DIR", &d.0)
        .env("OUT_DIR", &out)
        .current_dir(&d.0)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| broken(format!("genfields: {}", e)))?;
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        return Err(fail("generator", format!("the build script fails on a well-formed dictionary: {}", clip(&e, 400)), xml));
    }
    std::fs::read_to_string(out.join("fields.rs"))
        .map_err(|e| fail("generator", format!("the build script writes no fields.rs: {}", e), xml))
}

fn primitive(ty: &str) -> &'static str {
    match ty {
        "CHAR" => "char",
        "BOOLEAN" => "bool",
        "FLOAT" | "PRICE" | "AMT" | "QTY" | "PRICEOFFSET" => "f32",
        "INT" => "i32",
        "LENGTH" | "NUMINGROUP" | "SEQNUM" | "TAGNUM" => "u32",
        _ => "String",
    }
}

const PROBES: &str = "
use std::fmt;
pub struct PChar; pub struct PBool; pub struct PF32; pub struct PI32; pub struct PU32; pub struct PString;
macro_rules! probe { ($p:ident, $t:ty, $v:expr) => {
  impl From<$p> for $t { fn from(_: $p) -> $t { $v } }
  impl fmt::Display for $p { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { let v: $t = $v; write!(f, \"{}\", v) } }
} }
probe!(PChar, char, 'c'); probe!(PBool, bool, true); probe!(PF32, f32, 1.5); probe!(PI32, i32, -3); probe!(PU32, u32, 7);
probe!(PString, String, String::from(\"s\"));
";
fn probe_of(p: &str) -> &'static str {
    match p {
        "char" => "PChar",
        "bool" => "PBool",
        "f32" => "PF32",
        "i32" => "PI32",
        "u32" => "PU32",
        _ => "PString",
    }
}

fn rustc(dir: &Path, name: &str, src: &str, extra: &[String]) -> Result<Result<PathBuf, String>, Failure> {
    let file = dir.join(format!("{}.rs", name));
    std::fs::write(&file, src).map_err(|e| broken(e.to_string()))?;
    let bin = dir.join(name);
    let o = Command::new("rustc")
        .args(["--edition", "2021", "-A", "warnings", "-C", "debuginfo=0", "-C", "opt-level=0", "--color", "never", "-o"])
        .arg(&bin)
        .arg(&file)
        .args(extra)
        .current_dir(dir)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| broken(format!("rustc: {}", e)))?;
    if o.status.success() {
        Ok(Ok(bin))
    } else {
        Ok(Err(String::from_utf8_lossy(&o.stderr).to_string()))
    }
}

/// The probe body for the types of one module. Answers, one line per field: name, field(), Debug of a value
fn probe_body(module: &str, fields: &[FieldDecl]) -> String {
    let mut s = String::new();
    for (i, f) in fields.iter().enumerate() {
        let p = probe_of(primitive(&f.ty));
        let _ = writeln!(s, "fn t{}() {{ println!(\"{}\\t{{}}\\t{{:?}}\", {}::{}::field(), {}::{}::new({})); }} // {}", i, f.name, module, f.name, module, f.name, p, f.ty);
    }
    s.push_str("pub fn all() {");
    for i in 0..fields.len() {
        let _ = write!(s, "t{}();", i);
    }
    s.push_str("}\n");
    s
}

fn check_lines<'a>(out: &mut impl Iterator<Item = &'a str>, fields: &[FieldDecl], xml: &str) -> Res {
    for f in fields {
        let line = out.next().unwrap_or("");
        let mut it = line.splitn(3, '\t');
        let (name, num, dbg) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
        if name != f.name {
            return Err(broken(format!("probe output {:?}", line)));
        }
        ensure!(num == f.num.to_string(), "number", xml, "type {} has tag number {}, declared {}", f.name, num, f.num);
        if let Some(at) = dbg.find("tag: ") {
            let n: String = dbg[at + 5..].chars().take_while(|c| c.is_ascii_digit()).collect();
            ensure!(n == f.num.to_string(), "number", xml, "a value of type {} carries tag {}, declared {}", f.name, n, f.num);
        }
    }
    Ok(())
}

/// types with a `field` function, read from the source text
fn types_in(src: &str) -> Option<Vec<String>> {
    let file = syn::parse_file(src).ok()?;
    let mut v = vec![];
    for it in &file.items {
        if let syn::Item::Impl(im) = it {
            let has = im.items.iter().any(|i| matches!(i, syn::ImplItem::Fn(f) if f.sig.ident == "field"));
            if let (true, syn::Type::Path(p)) = (has, &*im.self_ty) {
                v.push(p.path.segments.last()?.ident.to_string());
            }
        }
    }
    Some(v)
}

fn check_batch(docs: &[(Vec<FieldDecl>, String)]) -> Res {
    let d = scratch();
    let mut body = String::from(PROBES);
    let mut calls = String::new();
    for (i, (fields, xml)) in docs.iter().enumerate() {
        let src = generate(xml)?;
        std::fs::write(d.0.join(format!("g{}.rs", i)), &src).map_err(|e| broken(e.to_string()))?;
        if let Some(types) = types_in(&src) {
            let declared: BTreeSet<&str> = fields.iter().map(|f| f.name.as_str()).collect();
            let extra: Vec<_> = types.iter().filter(|t| !declared.contains(t.as_str())).collect();
            ensure!(extra.is_empty(), "extra", xml, "types {:?} are generated for no declared field", extra);
        }
        let _ = writeln!(body, "#[path = \"g{}.rs\"] pub mod g{};\nmod p{} {{ use super::*;\n{}}}", i, i, i, probe_body(&format!("g{}", i), fields));
        let _ = write!(calls, "p{}::all();", i);
    }
    let _ = writeln!(body, "fn main() {{ {} }}", calls);
    let bin = match rustc(&d.0, "probe", &body, &[])? {
        Ok(b) => b,
        Err(e) => return Err(fail("compile", format!("the generated types do not fit the dictionary: {}", clip(&e, 900)), docs[0].1.clone())),
    };
    let o = Command::new(bin).output().map_err(|e| broken(e.to_string()))?;
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let mut lines = out.lines();
    for (fields, xml) in docs {
        check_lines(&mut lines, fields, xml)?;
    }
    Ok(())
}

const RESERVED: [&str; 12] = ["String", "Display", "Into", "Self", "T", "Debug", "Result", "Option", "Some", "None", "Ok", "Err"];
fn fields(t: &mut Tape) -> Vec<FieldDecl> {
    let n = match t.weighted(&[4, 2, 1]) {
        0 => t.rangei(1, 12),
        1 => t.rangei(13, 40),
        _ => t.rangei(41, 90),
    };
    let mut names: BTreeSet<String> = RESERVED.iter().map(|s| s.to_string()).collect();
    let mut nums = BTreeSet::new();
    (0..n)
        .map(|i| {
            let mut num = match t.weighted(&[6, 2, 2, 1]) {
                0 => i as u32 + 1,
                1 => t.range(1, 9999) as u32,
                2 => *t.pick(&[255, 256, 257, 32767, 32768, 65535, 65536, 65537, 1 << 24, (1 << 24) + 1, 1 << 31, u32::MAX - 1, u32::MAX, 0]),
                _ => t.below(1 << 32) as u32,
            };
            while !nums.insert(num) {
                num = num.wrapping_add(1);
            }
            let mut name = String::new();
            let head = ['A', 'B', 'Z', 'a', 'É', 'N'];
            let tail = ['a', 'A', 'z', '0', '9', '_', 'é', 'D', 'I', 'o'];
            name.push(*t.pick(&head));
            for _ in 0..t.rangei(0, 14) {
                name.push(*t.pick(&tail));
            }
            if t.chance(1, 3) {
                name = t.pick(&["NoOrders", "ClOrdID", "Text", "EncodedText", "EncodedTextLen", "Price2", "MDReqID", "Symbol", "Side"]).to_string();
            }
            while is_keyword(&name) || !names.insert(name.clone()) {
                name.push_str(&format!("{}", i));
            }
            let ty = match t.weighted(&[8, 1, 1]) {
                0 => t.pick(&TYPES).to_string(),
                1 => t.pick(&["UTCDATEONLY", "TIME", "INTEGER", "LONG", "DOUBLE", "UNKNOWN", "XMLDATA", "MULTIPLECHARVALUE", "LANGUAGE"]).to_string(),
                _ => {
                    let b = t.pick(&TYPES).to_string();
                    if t.flip() { format!("{}S", b) } else { format!("X{}", b) }
                }
            };
            let values = (0..t.len(0, 4)).map(|v| (format!("{}", v), t.pick(&["BUY", "1_DAY", "NONE", "A-B_C", "x <y> & \"z\"", "Ünicode", "_", "-"]).to_string())).collect();
            FieldDecl { num, name, ty, values }
        })
        .collect()
}
fn is_keyword(s: &str) -> bool {
    syn::parse_str::<syn::Ident>(s).is_err()
}
fn doc(fields: Vec<FieldDecl>, st: &Style) -> (Vec<FieldDecl>, String) {
    let s = DictSpec { ty: "FIX".into(), major: "4".into(), minor: "3".into(), fields, ..Default::default() };
    let xml = s.to_xml(st);
    (s.fields, xml)
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let n = t.rangei(1, 6);
    let mut docs = vec![];
    for _ in 0..n {
        let f = fields(t);
        let st = Style::gen(t);
        docs.push(doc(f, &st));
    }
    let all: Vec<&FieldDecl> = docs.iter().flat_map(|d| &d.0).collect();
    let prims: BTreeSet<&str> = all.iter().map(|f| primitive(&f.ty)).collect();
    for p in &prims {
        ctx.label(&format!("with {} fields", p));
    }
    ctx.add("dictionaries", n as u64);
    ctx.add("field types", all.len() as u64);
    ctx.label_if(all.iter().any(|f| f.num > 65535), "with a number above 65535");
    if all.len() >= 10 && prims.len() >= 4 {
        ctx.nontrivial();
        ctx.key(&docs.iter().map(|d| d.1.clone()).collect::<Vec<_>>());
        ctx.sample(|| clip(&docs[0].1, 600));
    }
    check_batch(&docs)
}

fn shipped(_: &mut Ctx) -> Res {
    check_batch(&[(dict::fix43().0.fields.clone(), dict::fix43_xml().to_string())])
}

/// the types inside the engine this harness is linked with
fn compiled(_: &mut Ctx) -> Res {
    let d = scratch();
    let deps = bin_dir().join("deps");
    let mut libs: Vec<(std::time::SystemTime, PathBuf)> = vec![];
    for e in std::fs::read_dir(&deps).map_err(|e| broken(e.to_string()))?.flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        if n.starts_with("libfix_rs-") && n.ends_with(".rlib") {
            libs.push((e.metadata().and_then(|m| m.modified()).map_err(|e| broken(e.to_string()))?, e.path()));
        }
    }
    libs.sort();
    let Some((_, lib)) = libs.pop() else { return Err(broken("no libfix_rs rlib")) };
    let fields = &dict::fix43().0.fields;
    let src = format!("{}use fix_rs::fields;\nmod p {{ use super::*;\n{}}}\nfn main() {{ p::all() }}\n", PROBES, probe_body("fields", fields));
    let extra = vec!["--extern".into(), format!("fix_rs={}", lib.display()), "-L".into(), format!("dependency={}", deps.display()), "--cfg".into(), "fixrs_verif".into()];
    let bin = match rustc(&d.0, "probe", &src, &extra)? {
        Ok(b) => b,
        Err(e) if e.contains("E0460") || e.contains("E0463") || e.contains("linking") => return Err(broken(e)),
        Err(e) => return Err(fail("compile", format!("the compiled field types do not fit the shipped dictionary: {}", clip(&e, 900)), "FIX43.xml")),
    };
    let o = Command::new(bin).output().map_err(|e| broken(e.to_string()))?;
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    check_lines(&mut out.lines(), fields, "FIX43.xml")
}

fn limits(_: &mut Ctx) -> Res {
    let mut v = vec![];
    let mut n = 0u32;
    for ty in TYPES {
        for x in [ty.to_string(), format!("{}X", ty), ty[..ty.len() - 1].to_string()] {
            n += 1;
            v.push(FieldDecl { num: n * 59_652_323 - 1, name: format!("F{}", n), ty: x, values: vec![] });
        }
    }
    for num in [0, 1, 255, 256, 65535, 65536, u32::MAX] {
        n += 1;
        v.push(FieldDecl { num, name: format!("F{}", n), ty: "INT".into(), values: vec![] });
    }
    let mut seen = BTreeSet::new();
    v.retain(|f| seen.insert(f.num));
    check_batch(&[doc(v, &Style::plain())])
}
