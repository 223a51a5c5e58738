//! Parsing and dictionary queries depend on nothing but their inputs.
use super::c01::{damage, mutate_d};
use super::common::load;
use super::{c15, c16};
use crate::dict::{self, Dict, DictSpec, Profile, Style};
use crate::engine::*;
use crate::ensure;
use crate::msg::*;
use crate::tape::Tape;
use fix_rs::data_dictionary::DataDictionary;
use fix_rs::message::Message;
use std::collections::BTreeSet;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::fd::FromRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Arc, Barrier};

pub static PROP: Prop = Prop {
    id: "C34",
    rule: "A case has 1-4 dictionaries (FIX43, generated, or one of the others with a few declarations changed, so that message types, tags and group names agree while their meaning \
differs) and 1-8 texts (conforming to one of them, mutated or damaged). Each text is parsed once with a freshly loaded copy of each dictionary, in one case in four also each in a process of its own that has done nothing else; then 1-4 threads that share the dictionaries parse \
texts, extract identities and query dictionaries in generated orders, up to 30 operations each, some loading a dictionary again or printing and changing what they parsed. Every result must be equal to the first one. \
Non-trivial: at least two dictionaries that disagree on a text; distinct by texts.",
    quick: 14_000,
    thorough: 600_000,
    threads: 8,
    net: false,
    case,
    fixed: &[],
    assumptions: &["results are compared as trees of fields or as reject reasons"],
};

type Out = Result<XMsg, String>;
fn result(text: &str, dd: &DataDictionary, universe: &BTreeSet<u32>) -> Result<Out, Failure> {
    match guard(|| Message::from_str(text, dd)) {
        Err(p) => Err(fail("panic", format!("parsing panics: {}", p), show(text))),
        Ok(Err(e)) => Ok(Err(reason(&e))),
        Ok(Ok(m)) => extract(&m, universe).map(Ok).map_err(|e| fail("inconsistent", e, show(text))),
    }
}

// ------------------------------------------------------------------ results in fresh processes

/// `fixcheck pure`: for each line [dictionaries, texts, tags], every text is parsed with every dictionary, each in a
/// forked process that has done nothing before.
pub fn pure() -> i32 {
    let mut input = BufReader::new(std::io::stdin());
    let mut line = String::new();
    while input.read_line(&mut line).unwrap_or(0) > 0 {
        let Ok((dicts, texts, tags)) = serde_json::from_str::<(Vec<String>, Vec<String>, BTreeSet<u32>)>(&line) else { return 2 };
        line.clear();
        let out: Vec<Vec<String>> = texts.iter().map(|s| dicts.iter().map(|d| forked(d, s, &tags)).collect()).collect();
        let mut o = std::io::stdout();
        if writeln!(o, "{}", serde_json::to_string(&out).unwrap()).and_then(|_| o.flush()).is_err() {
            break;
        }
    }
    0
}
fn forked(xml: &str, text: &str, tags: &BTreeSet<u32>) -> String {
    let mut fd = [0i32; 2];
    // SAFETY: this process has one thread
    unsafe {
        if libc::pipe(fd.as_mut_ptr()) != 0 {
            return "no pipe".into();
        }
        let pid = libc::fork();
        if pid == 0 {
            let r = match load(xml) {
                Ok(Ok(dd)) => match result(text, &dd, tags) {
                    Ok(r) => format!("{:?}", r),
                    Err(f) => format!("failure {}", f.msg),
                },
                _ => "the dictionary does not load".into(),
            };
            let mut w = std::fs::File::from_raw_fd(fd[1]);
            let _ = w.write_all(r.as_bytes());
            drop(w);
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut s = String::new();
        let _ = std::fs::File::from_raw_fd(fd[0]).read_to_string(&mut s);
        libc::waitpid(pid, std::ptr::null_mut(), 0);
        s
    }
}
struct Pure(Child, ChildStdin, BufReader<ChildStdout>);
impl Drop for Pure {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
fn in_fresh_processes(dicts: &[&str], texts: &[String], tags: &BTreeSet<u32>) -> Result<Vec<Vec<String>>, String> {
    thread_local! {
        static P: std::cell::RefCell<Option<Pure>> = const { std::cell::RefCell::new(None) };
    }
    P.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() {
            let me = std::env::current_exe().map_err(|e| e.to_string())?;
            let mut c = Command::new(me).args(["pure", "-"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
            let (i, o) = (c.stdin.take().unwrap(), c.stdout.take().unwrap());
            *p = Some(Pure(c, i, BufReader::new(o)));
        }
        let q = p.as_mut().unwrap();
        writeln!(q.1, "{}", serde_json::to_string(&(dicts, texts, tags)).unwrap()).map_err(|e| e.to_string())?;
        let mut line = String::new();
        q.2.read_line(&mut line).map_err(|e| e.to_string())?;
        serde_json::from_str(&line).map_err(|e| e.to_string())
    })
}

/// the same dictionary with a few declarations changed
fn relative(t: &mut Tape, spec: &DictSpec) -> Option<(DictSpec, Dict)> {
    let mut s = spec.clone();
    for _ in 0..t.rangei(1, 3) {
        let n = s.messages.len();
        let section = match t.usize(4) {
            0 => &mut s.header,
            1 if !s.comps.is_empty() => {
                let i = t.usize(s.comps.len());
                &mut s.comps[i].1
            }
            _ if n > 0 => {
                let i = t.usize(n);
                &mut s.messages[i].items
            }
            _ => return None,
        };
        change(t, section, 0);
    }
    let tys: Vec<&str> = s.header.iter().take(3).filter_map(|i| if let dict::Item::Field { name, .. } = i { Some(name.as_str()) } else { None }).collect();
    if tys.len() < 3 {
        return None;
    }
    let d = s.resolve().ok()?;
    [8u32, 9, 35].iter().all(|x| d.header.get(*x).is_some_and(|f| f.group.is_none())).then_some((s, d))
}
fn change(t: &mut Tape, items: &mut Vec<dict::Item>, depth: usize) {
    if items.is_empty() || depth > 6 {
        return;
    }
    let i = t.usize(items.len());
    if let dict::Item::Group { items: inner, .. } = &mut items[i] {
        if t.chance(2, 3) {
            return change(t, inner, depth + 1);
        }
    }
    match t.usize(4) {
        0 if items.len() > 1 => {
            items.remove(i);
        }
        1 => {
            let j = t.usize(items.len());
            items.swap(i, j)
        }
        2 => match &mut items[i] {
            dict::Item::Field { req, .. } | dict::Item::Comp { req, .. } | dict::Item::Group { req, .. } => *req = !*req,
        },
        _ => {
            // a group becomes a plain field
            if let dict::Item::Group { name, req, .. } = &items[i] {
                items[i] = dict::Item::Field { name: name.clone(), req: *req };
            } else if items.len() > 1 {
                let x = items.remove(i);
                items.push(x)
            }
        }
    }
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut dicts: Vec<(DictSpec, Dict, String)> = vec![];
    for i in 0..t.rangei(1, 4) {
        let (s, d) = match t.usize(6) {
            0 if i == 0 => dict::fix43().clone(),
            1 | 2 | 3 if i > 0 => {
                let j = t.usize(dicts.len());
                if dicts[j].0.messages.len() > 50 {
                    dict::gen(t, Profile::Wire)
                } else {
                    match relative(t, &dicts[j].0) {
                        Some(x) => x,
                        None => dict::gen(t, Profile::Wire),
                    }
                }
            }
            _ => {
                let p = if t.flip() { Profile::Wire } else { Profile::Overlap };
                dict::gen(t, p)
            }
        };
        let xml = s.to_xml(&Style::plain());
        if dicts.iter().any(|x| x.2 == xml) {
            continue;
        }
        dicts.push((s, d, xml));
    }
    let universe: BTreeSet<u32> = dicts.iter().flat_map(|d| d.1.universe()).collect();
    let mut texts: Vec<String> = vec![];
    for _ in 0..t.rangei(1, 8) {
        let d = &dicts[t.usize(dicts.len())].1;
        let m = gen_msg(t, d, &GenOpt { total: 25, ..Default::default() });
        let mut toks = m.tokens();
        if t.chance(1, 3) {
            let n = t.rangei(1, 2);
            mutate_d(t, &mut toks, d, n);
        }
        let mut s = print(&toks);
        if t.chance(1, 8) {
            damage(t, &mut s);
        }
        texts.push(s);
    }
    let fresh = |i: usize| -> Result<DataDictionary, Failure> {
        match load(&dicts[i].2) {
            Ok(Ok(dd)) => Ok(dd),
            Ok(Err(e)) => Err(fail("refused", format!("a well-formed dictionary is refused: {}", e), dicts[i].2.clone())),
            Err(p) => Err(fail("panic", format!("loading a dictionary panics: {}", p), dicts[i].2.clone())),
        }
    };
    let big = |i: usize| dicts[i].2.len() > 60_000;
    let mut first: Vec<Vec<Out>> = vec![vec![Err(String::new()); dicts.len()]; texts.len()];
    // in either order
    let across = t.flip();
    for k in 0..texts.len() * dicts.len() {
        let (s, i) = if across { (k / dicts.len(), k % dicts.len()) } else { (k % texts.len(), k / texts.len()) };
        first[s][i] = if big(i) { result(&texts[s], dict::fix43_dd(), &universe)? } else { result(&texts[s], &fresh(i)?, &universe)? };
    }
    if t.chance(1, 4) {
        ctx.label("compared with fresh processes");
        let small: Vec<usize> = (0..dicts.len()).filter(|i| !big(*i)).collect();
        let xml: Vec<&str> = small.iter().map(|i| dicts[*i].2.as_str()).collect();
        let alone = in_fresh_processes(&xml, &texts, &universe).map_err(|e| fail("broken-oracle", e, ""))?;
        for (s, row) in alone.iter().enumerate() {
            for (k, i) in small.iter().enumerate() {
                let here = format!("{:?}", first[s][*i]);
                ensure!(row[k] == here, "differs", format!("text {}\ndictionary {}", show(&texts[s]), dicts[*i].2), "in a fresh process: {}, here: {}", row[k], here);
            }
        }
    }
    let ids: Vec<String> = texts.iter().map(|s| guard(|| format!("{} {}", Message::get_session_id(s), Message::get_reverse_session_id(s)))).collect::<Result<_, _>>().map_err(|p| fail("panic", p, texts.join("\n")))?;
    let shared: Vec<Arc<DataDictionary>> = (0..dicts.len()).map(|i| if big(i) { Ok(Arc::new(dict::fix43_dd().clone())) } else { fresh(i).map(Arc::new) }).collect::<Result<_, _>>()?;
    // operations: (kind, text, dictionary)
    let nt = t.rangei(1, 4);
    let plans: Vec<Vec<(usize, usize, usize)>> =
        (0..nt).map(|_| (0..t.rangei(1, 30)).map(|_| (t.weighted(&[12, 2, 1, 2, 3]), t.usize(texts.len()), t.usize(dicts.len()))).collect()).collect();
    let describe = || {
        let mut o = String::new();
        for (i, s) in texts.iter().enumerate() {
            o.push_str(&format!("text {}: {}\n", i, show(s)));
        }
        for (i, d) in dicts.iter().enumerate() {
            o.push_str(&format!("dictionary {}: {}\n", i, brief(&d.2, 6000)));
        }
        for (i, p) in plans.iter().enumerate() {
            o.push_str(&format!("thread {}: {:?}\n", i, p));
        }
        o
    };
    let work = |plan: &[(usize, usize, usize)]| -> Res {
        for (kind, s, i) in plan {
            match kind {
                0 | 4 => {
                    let r = result(&texts[*s], &shared[*i], &universe)?;
                    ensure!(r == first[*s][*i], "differs", describe(), "text {} with dictionary {}: first {:?}, later {:?}", s, i, first[*s][*i], r);
                    if *kind == 4 {
                        // what is done to one message is nobody else's business
                        if let Ok(Ok(mut m)) = guard(|| Message::from_str(&texts[*s], &shared[*i])) {
                            let _ = guard(|| {
                                m.set_body_len();
                                m.set_checksum();
                                m.set_field(fix_rs::message::StringField::new(58, "changed"));
                                m.set_group(7777, 2, 7778);
                                m.to_string().len()
                            });
                        }
                    }
                }
                1 => {
                    let id = guard(|| format!("{} {}", Message::get_session_id(&texts[*s]), Message::get_reverse_session_id(&texts[*s]))).unwrap_or_default();
                    ensure!(id == ids[*s], "differs", describe(), "identities of text {}: first {}, later {}", s, ids[*s], id);
                }
                2 if !big(*i) => {
                    let dd = fresh(*i)?;
                    let r = result(&texts[*s], &dd, &universe)?;
                    ensure!(r == first[*s][*i], "differs", describe(), "text {} with dictionary {} loaded again: first {:?}, later {:?}", s, i, first[*s][*i], r);
                }
                3 if !big(*i) => {
                    c15::check(&dicts[*i].1, &shared[*i], &dicts[*i].2)?;
                    c16::check(&dicts[*i].1, &shared[*i], &dicts[*i].2)?;
                }
                _ => {}
            }
        }
        Ok(())
    };
    if nt == 1 {
        work(&plans[0])?;
    } else {
        ctx.label("concurrent");
        let start = Barrier::new(nt);
        std::thread::scope(|sc| {
            let hs: Vec<_> = plans
                .iter()
                .map(|p| {
                    sc.spawn(|| {
                        start.wait();
                        work(p)
                    })
                })
                .collect();
            hs.into_iter().try_for_each(|h| h.join().unwrap_or_else(|_| Err(fail("panic", "a thread died", describe()))))
        })?;
    }
    if first.iter().any(|row| row.iter().any(|r| *r != row[0])) {
        ctx.nontrivial();
        ctx.key(&texts);
        ctx.sample(|| brief(&describe(), 900));
    }
    ctx.label_if(first.iter().flatten().any(|r| r.is_err()), "rejects");
    Ok(())
}
