//! Files mean what their text means, or are refused.
use super::c17::{class, inject, KINDS};
use super::{c14, c15, c16, c19, c20};
use crate::conf::{self, Layout};
use crate::dict::{self, Profile, Style};
use crate::engine::*;
use crate::ensure;
use crate::tape::Tape;
use fix_rs::data_dictionary::DataDictionary;
use fix_rs::session::Properties;
use std::path::{Path, PathBuf};

pub static PROP: Prop = Prop {
    id: "C33",
    rule: "A case writes one file (dictionary or configuration; valid in any layout, of any size, with one defect, or damaged as a file: empty, cut at any byte, bytes that are not UTF-8 \
in any place, a byte order mark, a directory, missing, behind a symbolic link, with any file name; the shipped files are there too) and loads it by its path, given as text or as a path, once or twice. A valid file must load and answer \
every query as the reference model of its text; any other must be refused by a panic, exactly when loading its text is refused; the file must be left as it was. Non-trivial: a file that is not simply valid; distinct by content and name.",
    quick: 12_000,
    thorough: 300_000,
    threads: 8,
    net: false,
    case,
    fixed: &[("shipped files", shipped)],
    assumptions: &["no other process changes the file meanwhile"],
};

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
thread_local! {
    static DIR: Scratch = Scratch(super::c22::dir());
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Damage {
    None,
    Empty,
    Cut,
    NotUtf8,
    Bom,
    Directory,
    Missing,
    Link,
}

fn name(t: &mut Tape) -> String {
    let ext = *t.pick(&[".xml", ".toml", "", ".XML", ".json", ".bak"]);
    let mut s = t.string(&['a', 'B', '1', ' ', '.', '-', 'é', '漢', '\'', '"', '%', '$', '='], 1, 12);
    s.insert(0, 'f');
    s + ext
}

/// what the engine makes of the file
enum Thing {
    Dict(Box<DataDictionary>),
    Conf(Properties),
}
fn read(path: &Path, dictionary: bool, as_text: bool) -> Result<Thing, String> {
    let s = path.display().to_string();
    guard(|| match (dictionary, as_text) {
        (true, true) => Thing::Dict(Box::new(DataDictionary::from_xml(s))),
        (true, false) => Thing::Dict(Box::new(DataDictionary::from_xml(path))),
        (false, true) => Thing::Conf(Properties::new(s)),
        (false, false) => Thing::Conf(Properties::new(path)),
    })
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let dictionary = t.flip();
    let (mut c, mut spec, mut text) = (None, None, String::new());
    if dictionary {
        let (s, d) = dict::gen(t, Profile::Any);
        let st = Style::gen(t);
        text = s.to_xml(&st);
        if t.chance(1, 3) {
            let mut root = s.to_el(&st);
            let kind = t.usize(KINDS);
            if inject(t, &mut root, kind).is_some() {
                text = root.to_xml(&st);
                ctx.label("defective dictionary");
            }
        }
        spec = Some(d);
    } else {
        let mut x = conf::valid(t, 4, true);
        if t.chance(1, 3) {
            c20::edit(t, &mut x);
        }
        text = x.render(&Layout::gen(t));
        c = Some(x);
    }
    if t.chance(1, 12) {
        // a file larger than any buffer: blanks where they mean nothing
        let n = *t.pick(&[5_000, 9_000, 66_000, 70_000, 140_000, 1_100_000]);
        if dictionary {
            let at = text.find("<header").unwrap_or(0).max(text.find('>').map_or(0, |i| i + 1));
            let at = if text.is_char_boundary(at) && text[at..].starts_with('<') { at } else { text.len() };
            text.insert_str(at, &" ".repeat(n));
        } else {
            let at = text.find('[').unwrap_or(0);
            text.insert_str(at, &"\n".repeat(n));
        }
        ctx.label("large file");
    }
    let intact = text.clone();
    let mut bytes = text.into_bytes();
    let damage = *t.pick(&[
        Damage::None, Damage::None, Damage::None, Damage::Empty, Damage::Cut, Damage::Cut, Damage::NotUtf8, Damage::Bom, Damage::Directory, Damage::Missing, Damage::Link,
    ]);
    match damage {
        Damage::Empty => bytes.clear(),
        Damage::Cut => {
            let n = t.usize(bytes.len());
            bytes.truncate(n)
        }
        Damage::NotUtf8 => {
            let at = t.usize(bytes.len() + 1);
            for b in *t.pick(&[&[0xffu8][..], &[0xc3], &[0xed, 0xa0, 0x80], &[0xf8, 0x88], &[0xc0, 0x80], &[0x80]]) {
                bytes.insert(at, *b);
            }
        }
        Damage::Bom => bytes = [&[0xefu8, 0xbb, 0xbf][..], &bytes].concat(),
        _ => {}
    }
    // where the program finds its own files
    let _ = std::env::set_current_dir(dict::repo());
    let dir = DIR.with(|d| d.0.clone());
    let path = dir.join(name(t));
    let remove = |p: &Path| {
        let _ = std::fs::remove_file(p);
        let _ = std::fs::remove_dir(p);
    };
    let real = dir.join("real");
    remove(&path);
    let broken = |e: std::io::Error| fail("broken-oracle", e.to_string(), "");
    match damage {
        Damage::Directory => std::fs::create_dir(&path).map_err(broken)?,
        Damage::Missing => {}
        Damage::Link => {
            std::fs::write(&real, &bytes).map_err(broken)?;
            std::os::unix::fs::symlink(&real, &path).map_err(broken)?
        }
        _ => std::fs::write(&path, &bytes).map_err(broken)?,
    }
    let file = match damage {
        Damage::Directory | Damage::Missing => None,
        _ => Some(String::from_utf8(bytes.clone())),
    };
    // whether loading the text is refused
    let text_ok = match &file {
        Some(Ok(s)) if dictionary => match guard(|| s.parse::<DataDictionary>().map(|_| ()).map_err(|e| class(&e))) {
            Ok(r) => r.is_ok(),
            Err(m) => return Err(fail("panic", format!("loading a dictionary's text panics: {}", m), s.clone())),
        },
        Some(Ok(s)) => c19::load(s).is_ok(),
        _ => false,
    };
    let describe = || format!("{:?} file {} ({})\n{}", damage, path.display(), if dictionary { "dictionary" } else { "configuration" }, show(&String::from_utf8_lossy(&bytes)));
    let as_text = t.flip();
    for _ in 0..t.rangei(1, 2) {
        match read(&path, dictionary, as_text) {
            Err(m) => ensure!(!text_ok, "refused", describe(), "a file is refused though its text is accepted: {}", m),
            Ok(thing) => {
                ensure!(text_ok, "accepted", describe(), "a file that {} is accepted", if file.is_some() { "does not contain an acceptable text" } else { "is not there" });
                if matches!(&file, Some(Ok(s)) if *s == intact) {
                    match (&thing, &spec, &c) {
                        (Thing::Dict(dd), Some(d), _) => {
                            c14::check(d, dd, &intact)?;
                            c15::check(d, dd, &intact)?;
                            c16::check(d, dd, &intact)?;
                        }
                        // an edit can make two sections name one session
                        (Thing::Conf(p), _, Some(c)) if conf::by_id(c).len() + 1 == c.secs.len() => c19::check(c, p, &intact)?,
                        _ => {}
                    }
                }
            }
        }
        if file.is_some() {
            let now = std::fs::read(&path).map_err(broken)?;
            ensure!(now == bytes, "changed", describe(), "loading the file changed it");
        }
    }
    ctx.label(&format!("{:?}", damage));
    ctx.label(if text_ok { "loads" } else { "refused" });
    if damage != Damage::None || !text_ok {
        ctx.nontrivial();
        ctx.key(&(path.file_name().map(|n| n.to_owned()), bytes.clone()));
        ctx.sample(|| clip(&describe(), 400));
    }
    remove(&path);
    Ok(())
}

fn shipped(_: &mut Ctx) -> Res {
    let root = PathBuf::from(dict::repo());
    let d = &dict::fix43().1;
    for as_text in [false, true] {
        let p = root.join("resources/FIX43.xml");
        match read(&p, true, as_text) {
            Ok(Thing::Dict(dd)) => {
                c14::check(d, &dd, "FIX43.xml")?;
                c15::check(d, &dd, "FIX43.xml")?;
                c16::check(d, &dd, "FIX43.xml")?;
            }
            _ => return Err(fail("refused", "the shipped dictionary is refused", p.display().to_string())),
        }
        let p = root.join("src/FixConfig.toml");
        ensure!(read(&p, false, as_text).is_ok(), "refused", p.display().to_string(), "the shipped configuration is refused");
    }
    Ok(())
}
