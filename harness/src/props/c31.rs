//! The program as it ships, run as a process on generated configurations.
use super::c01::mutate_d;
use super::c20;
use crate::conf::{self, Layout};
use crate::dict;
use crate::engine::*;
use crate::ensure;
use crate::msg::{self, print, GenOpt};
use crate::net::*;
use crate::tape::Tape;
use chrono::NaiveDateTime;
use std::collections::BTreeSet;
use std::io::Write;
use std::net::{Shutdown, TcpStream};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub static PROP: Prop = Prop {
    id: "C31",
    rule: "A case runs the executable built from the repository (no hook) in a scratch directory with a generated src/FixConfig.toml and \
generated dictionaries (one of them where the engine looks by default), on all processors or pinned to one. Over 1-8 steps connections to its 1-3 ports are opened, replaced, closed or \
reset, the process is killed and started again, and batches of valid and other messages of 1-4 (one case in 120: 9-20) sessions are written in generated pieces. Every connection must get exactly one logon per valid message of its port's sessions, well \
formed and stamped with the present time, and nothing else; in the end the process must still be there, have reported no panic and have \
released the sockets of closed connections. One case in six starts it with a configuration that must be refused, or whose sessions cannot be created (unparsable setting, missing or defective dictionary): it must end with a failure. Non-trivial: at least two \
steps with valid messages, or a refused configuration; distinct by configuration and traffic.",
    quick: 2_400,
    thorough: 60_000,
    threads: 8,
    net: true,
    case,
    fixed: &[("as shipped", shipped)],
    assumptions: &[
        "one connection per port at a time, at most 20 answers pending (see the known findings of C28)",
        "initiator configurations are not run: the program has no initiator",
        "whether a text is a valid message is decided by the engine's own parser, which C01-C07 judge",
    ],
};

struct Proc {
    child: Child,
    dir: PathBuf,
    one_cpu: bool,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
impl Proc {
    /// runs the engine in `dir`, which it removes afterwards
    fn start(dir: PathBuf, one_cpu: bool) -> Result<Proc, Failure> {
        let child = Proc::spawn(&dir, one_cpu)?;
        Ok(Proc { child, dir, one_cpu })
    }
    /// kills the process and starts another one on the same configuration
    fn restart(&mut self) -> Res {
        let _ = self.child.kill();
        let _ = self.child.wait();
        self.child = Proc::spawn(&self.dir, self.one_cpu)?;
        Ok(())
    }
    fn spawn(dir: &Path, one_cpu: bool) -> Result<Child, Failure> {
        let broken = |e: String| fail("broken-oracle", e, "");
        let bin = std::env::var("FIXCHECK_APP").unwrap_or_else(|_| format!("{}/harness/target/app/debug/fix-rs", verif_dir()));
        let err = std::fs::File::create(dir.join("stderr")).map_err(|e| broken(e.to_string()))?;
        let mut c = Command::new(bin);
        c.current_dir(dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(err).env("RUST_BACKTRACE", "0");
        unsafe {
            c.pre_exec(move || {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                if one_cpu {
                    let mut now: libc::cpu_set_t = std::mem::zeroed();
                    let size = std::mem::size_of::<libc::cpu_set_t>();
                    if libc::sched_getaffinity(0, size, &mut now) == 0 {
                        let all: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|i| libc::CPU_ISSET(*i, &now)).collect();
                        let pid = libc::getpid() as usize;
                        let mut one: libc::cpu_set_t = std::mem::zeroed();
                        libc::CPU_SET(all[pid % all.len()], &mut one);
                        libc::sched_setaffinity(0, size, &one);
                    }
                }
                Ok(())
            });
        }
        let _f = FORK.lock().unwrap_or_else(|e| e.into_inner());
        c.spawn().map_err(|e| broken(format!("cannot run the engine: {}", e)))
    }
    fn stderr(&self) -> String {
        String::from_utf8_lossy(&std::fs::read(self.dir.join("stderr")).unwrap_or_default()).into_owned()
    }
    fn ended(&mut self) -> Option<String> {
        match self.child.try_wait() {
            Ok(Some(s)) => Some(format!("{}: {}", s, brief(&self.stderr(), 400))),
            _ => None,
        }
    }
    fn sockets(&self) -> usize {
        std::fs::read_dir(format!("/proc/{}/fd", self.child.id()))
            .map(|d| d.filter_map(|e| std::fs::read_link(e.ok()?.path()).ok()).filter(|p| p.to_string_lossy().starts_with("socket:")).count())
            .unwrap_or(0)
    }
    /// the addresses the program listens on, as the kernel prints them; None where that cannot be read
    fn listening(&self) -> Option<Vec<String>> {
        let pid = self.child.id();
        let mut mine = BTreeSet::new();
        for e in std::fs::read_dir(format!("/proc/{}/fd", pid)).ok()? {
            if let Ok(l) = std::fs::read_link(e.ok()?.path()) {
                if let Some(i) = l.to_string_lossy().strip_prefix("socket:[").and_then(|x| x.strip_suffix(']')) {
                    mine.insert(i.to_string());
                }
            }
        }
        let mut out = vec![];
        for table in ["tcp", "tcp6"] {
            // a kernel without the second table has no such sockets
            let Ok(text) = std::fs::read_to_string(format!("/proc/{}/net/{}", pid, table)) else {
                if table == "tcp" {
                    return None;
                }
                continue;
            };
            for l in text.lines().skip(1) {
                let w: Vec<&str> = l.split_whitespace().collect();
                if w.len() > 9 && w[3] == "0A" && mine.contains(w[9]) {
                    out.push(w[1].to_string());
                }
            }
        }
        out.sort();
        Some(out)
    }
    fn connect(&mut self, port: u16, describe: &dyn Fn() -> String) -> Result<TcpStream, Failure> {
        let t0 = Instant::now();
        loop {
            if let Ok(s) = connect(port) {
                return Ok(s);
            }
            if let Some(e) = self.ended() {
                return Err(fail("ended", format!("the program ended: {}", e), describe()));
            }
            ensure!(t0.elapsed() < 2 * LIVE, "refused-connection", describe(), "port {} does not accept connections for {:?}", port, 2 * LIVE);
            std::thread::sleep(Duration::from_millis(2));
        }
    }
}

/// one logon as the engine sends it
fn check_logon(f: &[u8], since: NaiveDateTime, describe: &dyn Fn() -> String) -> Res {
    let text = String::from_utf8_lossy(f).into_owned();
    let bad = |why: &str| Err(fail("logon", format!("{}: answer {}", why, show(&text)), describe()));
    let fields: Vec<(&str, &str)> = text.split_terminator('\u{1}').filter_map(|x| x.split_once('=')).collect();
    let tags: Vec<&str> = fields.iter().map(|x| x.0).collect();
    if tags.len() < 4 || tags[..3] != ["8", "9", "35"] || tags[tags.len() - 1] != "10" {
        return bad("layout");
    }
    if fields[2].1 != "A" {
        return bad("not a logon");
    }
    let start = text.find("\u{1}35=").unwrap() + 1;
    let end = text.rfind("\u{1}10=").unwrap() + 1;
    if fields[1].1 != (end - start).to_string() {
        return bad("body length");
    }
    let sum: u32 = f[..end].iter().map(|b| *b as u32).sum();
    if fields[fields.len() - 1].1 != format!("{:03}", sum % 256) {
        return bad("checksum");
    }
    let Some(time) = fields.iter().find(|x| x.0 == "52").map(|x| x.1) else { return bad("no sending time") };
    match chrono::NaiveDateTime::parse_from_str(time, "%Y%m%d-%H:%M:%S%.3f") {
        // stamped when it was sent: not before what it answers (some milliseconds for a clock that is set)
        Ok(at) if (at - since).num_milliseconds() >= -60 && (now() - at).num_milliseconds() >= -60 && time.len() == 21 => {}
        _ => return bad(&format!("sending time (answer to a message sent at {})", since)),
    }
    match msg::parse(&text, dict::fix43_dd()) {
        Ok(Ok(_)) => Ok(()),
        _ => bad("does not parse"),
    }
}

fn now() -> NaiveDateTime {
    chrono::Utc::now().naive_utc()
}

struct Conn {
    s: TcpStream,
    got: Vec<u8>,
    due: usize,
    /// answers checked
    seen: usize,
    /// the other answers are to messages sent after this
    since: NaiveDateTime,
}
impl Conn {
    fn new(s: TcpStream, due: usize) -> Conn {
        Conn { s, got: vec![], due, seen: 0, since: now() }
    }
    fn checked(&mut self, describe: &dyn Fn() -> String) -> Res {
        let (fr, rest) = frames(&self.got);
        ensure!(fr.len() == self.due && rest.is_empty(), "answers", describe(), "{} valid messages were sent to the sessions of this port, the connection got {} answers: {}",
            self.due, fr.len(), brief(&show(&String::from_utf8_lossy(&self.got)), 2000));
        for f in &fr[self.seen..] {
            check_logon(f, self.since, describe)?;
        }
        self.seen = fr.len();
        Ok(())
    }
    /// reads until all answers due have come
    fn settle(&mut self, describe: &dyn Fn() -> String) -> Res {
        let have = std::mem::take(&mut self.got);
        let due = self.due;
        let (more, _) = read_until(&mut self.s, LIVE, &mut |b| {
            let n = b.windows(4).filter(|w| *w == b"\x0110=").count() + have.windows(4).filter(|w| *w == b"\x0110=").count();
            n >= due && b.last().or(have.last()).is_none_or(|x| *x == 1)
        });
        self.got = [have, more].concat();
        self.checked(describe)
    }
    /// the engine must close its side and send nothing more
    fn finish(mut self, describe: &dyn Fn() -> String) -> Res {
        self.settle(describe)?;
        let _ = self.s.shutdown(Shutdown::Write);
        let mut more = read_n(&mut self.s, usize::MAX, LIVE);
        self.got.append(&mut more);
        self.checked(describe)
    }
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    if t.chance(1, 6) {
        return refused(t, ctx);
    }
    let plan = Plan { sessions: 4, ports: 3, dicts: 2, own_ports: false, threads: 0 };
    let Setup { sess, dicts, ports, text, dir, .. } = setup(t, &plan, true)?;
    write_config(&dir, &text)?;
    let one = t.flip();
    ctx.label_if(one, "one processor");
    ctx.label_if(!text.contains("data_dictionary"), "dictionary by default");
    let mut p = Proc::start(dir, one)?;
    let log = std::cell::RefCell::new(format!("configuration:\n{}\n", text));
    let r = serve(t, ctx, &mut p, &log, &sess, &dicts, &ports);
    r.map_err(|mut f| {
        let state = p.ended().unwrap_or_else(|| "the program is running".into());
        f.msg = format!("{} ({}; it reports: {:?})", f.msg, state, brief(&p.stderr(), 600));
        f
    })
}

/// a connection that has had an answer: before, the engine may not know yet of a connection that the system has accepted
fn open(t: &mut Tape, p: &mut Proc, port: u16, sess: &[Sess], dicts: &[DictOf], describe: &dyn Fn() -> String) -> Result<Conn, Failure> {
    let mut c = Conn::new(p.connect(port, describe)?, 1);
    let s = sess.iter().find(|s| s.port == port).expect("every port has a session");
    let text = s.message(t, &dicts[s.dict].d, "0", &GenOpt { total: 8, ..Default::default() }).text();
    let describe = || format!("{}new connection to port {}, first message {}\n", describe(), port, show(&text));
    c.s.write_all(text.as_bytes()).map_err(|e| fail("connection", format!("writing fails: {}", e), describe()))?;
    c.settle(&describe)?;
    Ok(c)
}

fn serve(t: &mut Tape, ctx: &mut Ctx, p: &mut Proc, log: &std::cell::RefCell<String>, sess: &[Sess], dicts: &[DictOf], ports: &[u16]) -> Res {
    let describe = || log.borrow().clone();
    let mut conns: Vec<Option<Conn>> = vec![];
    for port in ports {
        conns.push(Some(open(t, p, *port, sess, dicts, &describe)?));
    }
    let mut busy = 0;
    let mut base: Option<usize> = None;
    let mut seq = 0;
    for _ in 0..t.rangei(1, 8) {
        let at = t.usize(ports.len());
        match t.weighted(&[18, 3, 3, 3, 1]) {
            0 => {}
            1 => {
                log.borrow_mut().push_str(&format!("port {}: closed and opened again\n", ports[at]));
                ctx.label("replaced");
                conns[at].take().unwrap().finish(&describe)?;
                conns[at] = Some(open(t, p, ports[at], sess, dicts, &describe)?);
            }
            2 => {
                log.borrow_mut().push_str(&format!("port {}: reset and opened again\n", ports[at]));
                ctx.label("reset");
                reset(conns[at].take().unwrap().s);
                conns[at] = Some(open(t, p, ports[at], sess, dicts, &describe)?);
            }
            4 => {
                log.borrow_mut().push_str("the program is killed and started again\n");
                ctx.label("restart");
                let e = p.stderr();
                ensure!(!e.contains("panicked") && p.ended().is_none(), "panic", describe(), "the program has ended or reports a panic: {}", brief(&e, 600));
                p.restart()?;
                conns.clear();
                for port in ports {
                    conns.push(Some(open(t, p, *port, sess, dicts, &describe)?));
                }
                base = None;
            }
            _ => {
                // some other connection that says nothing or something unfinished
                log.borrow_mut().push_str(&format!("port {}: another connection comes and goes\n", ports[at]));
                let mut s = p.connect(ports[at], &describe)?;
                if t.flip() {
                    let _ = s.write_all(b"8=FIX.4.3\x019=");
                }
                if t.flip() {
                    reset(s);
                }
            }
        }
        // a batch over one of the connections, for sessions of any port
        let mut data = vec![];
        let mut n = 0;
        for _ in 0..t.len(0, 14) {
            let k = t.usize(sess.len());
            let d = &dicts[sess[k].dict];
            seq += 1;
            let m = sess[k].message(t, &d.d, &seq.to_string(), &GenOpt { total: 20, ..Default::default() });
            let text = match t.weighted(&[5, 2, 1]) {
                0 => m.text(),
                1 => {
                    let mut toks = m.tokens();
                    let n = t.rangei(1, 2);
                    mutate_d(t, &mut toks, &d.d, n);
                    format!("{}10=000\u{1}", print(&toks))
                }
                _ => {
                    let mut m = m;
                    let i = t.usize(m.header.len());
                    m.header[i].val.push('x');
                    m.text()
                }
            };
            for f in frames(text.as_bytes()).0 {
                // who it names, and whether that session's dictionary accepts it
                let f = String::from_utf8(f).expect("utf-8");
                let Ok(sid) = guard(|| fix_rs::message::Message::get_reverse_session_id(&f)) else {
                    return Err(fail("panic", "identity extraction panics", show(&f)));
                };
                if let Some(j) = sess.iter().position(|s| s.sid == sid) {
                    if n == 20 {
                        continue;
                    }
                    if let Ok(Ok(_)) = msg::parse(&f, &dicts[sess[j].dict].dd) {
                        n += 1;
                        let q = ports.iter().position(|q| *q == sess[j].port).unwrap();
                        conns[q].as_mut().unwrap().due += 1;
                    }
                }
                data.extend(f.as_bytes());
            }
        }
        let cuts = Cuts::gen(t, &data);
        log.borrow_mut().push_str(&format!("port {}: {} valid in {:?}\n", ports[at], n, brief(&show(&String::from_utf8_lossy(&data)), 3000)));
        ctx.add("valid messages", n);
        busy += (n > 0) as u32;
        conns.iter_mut().for_each(|c| c.as_mut().unwrap().since = now());
        cuts.write(&mut conns[at].as_mut().unwrap().s, &data).map_err(|e| fail("connection", format!("writing fails: {}", e), describe()))?;
        for c in conns.iter_mut() {
            c.as_mut().unwrap().settle(&describe)?;
        }
        if base.is_none() && n > 0 {
            base = Some(p.sockets());
        }
    }
    if busy > 1 {
        ctx.nontrivial();
        ctx.key(&describe());
        ctx.sample(|| brief(&describe(), 900));
    }
    let k = conns.len();
    for c in conns {
        c.unwrap().finish(&describe)?;
    }
    if let Some(got) = p.listening() {
        let mut want: Vec<String> = ports.iter().map(|q| format!("0100007F:{:04X}", q)).collect();
        want.sort();
        want.dedup();
        ensure!(got == want, "listening", describe(), "the program listens on {:?} and is configured for {:?}", got, want);
        ctx.label("listening sockets read");
    }
    if let Some(b) = base {
        let t0 = Instant::now();
        let mut now = p.sockets();
        while now + k > b && t0.elapsed() < LIVE {
            std::thread::sleep(Duration::from_millis(2));
            now = p.sockets();
        }
        ensure!(now + k <= b, "sockets", describe(), "{} sockets with {} connections, {} after all were closed", b, k, now);
    }
    if let Some(e) = p.ended() {
        return Err(fail("ended", format!("the program ended: {}", e), describe()));
    }
    let e = p.stderr();
    ensure!(!e.contains("panicked"), "panic", describe(), "the program reports a panic: {}", brief(&e, 600));
    Ok(())
}

fn write_config(dir: &Path, text: &str) -> Res {
    std::fs::create_dir_all(dir.join("src"))
        .and_then(|_| std::fs::write(dir.join("src/FixConfig.toml"), text))
        .map_err(|e| fail("broken-oracle", e.to_string(), ""))
}

/// a configuration that can be read, but one of whose sessions cannot be created
fn unusable(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let plan = Plan { sessions: 4, ports: 3, dicts: 2, own_ports: false, threads: 0 };
    let Setup { dicts, mut conf, dir, .. } = setup(t, &plan, true)?;
    let at = 1 + t.usize(conf.secs.len() - 1);
    let broken = |e: std::io::Error| fail("broken-oracle", e.to_string(), "");
    let why = match t.weighted(&[3, 3, 2, 2, 2]) {
        0 => {
            conf.secs[at].set("heartbeat_interval", *t.pick(&["", "abc", "-1", "3.5", "4294967296", "30s", "1e3"]));
            "heartbeat_interval"
        }
        1 => {
            let k = *t.pick(&["reset_on_logon", "reset_on_logout", "reset_on_disconnect"]);
            conf.secs[at].set(k, *t.pick(&["", "maybe", "Y", "no", "1", "0", "truefalse"]));
            k
        }
        2 => {
            conf.secs[at].set("data_dictionary", *t.pick(&["missing.xml", "resources", "resources/FIX44.xml", "/nonexistent/d.xml", "resources/FIX43.xml.bak"]));
            "dictionary file that does not exist"
        }
        3 => {
            // text that is no dictionary
            let text = std::fs::read(dir.join(&dicts[0].file)).map_err(broken)?;
            let cut = t.usize(text.len() - 20);
            std::fs::write(dir.join("resources/cut.xml"), &text[..cut]).map_err(broken)?;
            conf.secs[at].set("data_dictionary", "resources/cut.xml");
            "dictionary file cut off"
        }
        _ => {
            let (spec, _) = dict::gen(t, dict::Profile::Wire);
            let mut el = spec.to_el(&dict::Style::plain());
            let kind = t.usize(super::c17::KINDS);
            let Some((what, _)) = super::c17::inject(t, &mut el, kind) else {
                ctx.label("no defect placed");
                return Ok(());
            };
            let xml = el.to_xml(&dict::Style::plain());
            ensure!(super::c17::outcome(&xml)? != "accepted", "broken-dictionary", xml, "a dictionary with {} is accepted", what);
            std::fs::write(dir.join("resources/bad.xml"), xml).map_err(broken)?;
            conf.secs[at].set("data_dictionary", "resources/bad.xml");
            "defective dictionary"
        }
    };
    ctx.label(&format!("unusable: {}", why));
    let text = conf.render(&Layout::gen(t));
    must_fail(ctx, dir, &text, why)
}

fn refused(t: &mut Tape, ctx: &mut Ctx) -> Res {
    if t.chance(1, 3) {
        return unusable(t, ctx);
    }
    let mut c = conf::valid(t, 3, false);
    for _ in 0..t.rangei(1, 3) {
        c20::edit(t, &mut c);
    }
    let Some(why) = c20::invalid(&c) else {
        ctx.label("edited into a valid one");
        return Ok(());
    };
    ctx.label("refused configuration");
    let text = c.render(&Layout::gen(t));
    must_fail(ctx, super::c22::dir(), &text, why)
}

fn must_fail(ctx: &mut Ctx, dir: PathBuf, text: &str, why: &str) -> Res {
    write_config(&dir, text)?;
    let mut p = Proc::start(dir, false)?;
    ctx.nontrivial();
    ctx.key(&text);
    let t0 = Instant::now();
    loop {
        match p.child.try_wait() {
            Ok(Some(s)) => {
                ensure!(!s.success(), "success", text, "{}: the program ends with success", why);
                return Ok(());
            }
            _ if t0.elapsed() > 2 * LIVE => return Err(fail("runs", format!("{}: the program is still running after {:?}", why, 2 * LIVE), text)),
            _ => std::thread::sleep(Duration::from_millis(1)),
        }
    }
}

/// the shipped configuration (on a free port) and dictionary
fn shipped(_: &mut Ctx) -> Res {
    let broken = |e: String| fail("broken-oracle", e, "");
    let dir = super::c22::dir();
    std::fs::create_dir_all(dir.join("resources")).map_err(|e| broken(e.to_string()))?;
    std::fs::write(dir.join("resources/FIX43.xml"), dict::fix43_xml()).map_err(|e| broken(e.to_string()))?;
    let text = std::fs::read_to_string(format!("{}/src/FixConfig.toml", dict::repo())).map_err(|e| broken(e.to_string()))?;
    let port = ports(1)[0];
    let text: String = text
        .lines()
        .map(|l| if l.trim_start().starts_with("socket_accept_port") { format!("socket_accept_port = {}\n", port) } else { format!("{}\n", l) })
        .collect();
    write_config(&dir, &text)?;
    let mut p = Proc::start(dir, false)?;
    let describe = || text.clone();
    let logon = "8=FIX.4.3|9=73|35=A|34=0|49=BANZAI|52=20221006-08:43:36.522|56=FIXIMULATOR|98=0|108=30|10=061|".replace('|', "\u{1}");
    for round in 0..3 {
        let mut c = Conn::new(p.connect(port, &describe)?, 0);
        for n in 1..4 {
            c.since = now();
            c.s.write_all(logon.repeat(n).as_bytes()).map_err(|e| fail("connection", e.to_string(), describe()))?;
            c.due += n;
            c.settle(&describe)?;
            if round == 1 {
                // an idle connection stays as it is
                std::thread::sleep(Duration::from_millis(if n == 1 { 200 } else { 1200 }));
            }
        }
        c.finish(&describe)?;
    }
    ensure!(p.ended().is_none(), "ended", describe(), "the program ended: {}", p.stderr());
    Ok(())
}
