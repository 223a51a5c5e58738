//! Accepting connections and releasing closed ones.
use crate::engine::*;
use crate::ensure;
use crate::net::*;
use crate::tape::Tape;
use fix_rs::verif_hooks::IoAcceptor;
use std::collections::HashMap;
use std::io::Write;
use std::net::TcpStream;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub static PROP: Prop = Prop {
    id: "C29",
    rule: "A case runs acceptors on 1-3 ports and applies a generated history of 1-8 steps: a burst of 1-40 connections at once, each sending a message or only \
part of one, reconnecting in a row, closing, resetting or half-closing some, and using old ones again. Every connection must be accepted, every complete message \
handed over, every connection still held must still work in both directions after each step, a half-closed one must be closed by the engine in turn, \
and at the end the engine's threads must be idle. Non-trivial: at least two connections \
alive at once and one gone before the end; distinct by history.",
    quick: 800,
    thorough: 30_000,
    threads: 8,
    net: true,
    case,
    fixed: &[
        ("few file descriptors", few_fds), ("accept fails for a while", accept_fails), ("port occupied at first", occupied), ("three hundred at once", many),
        ("idle with every kind of finished connection", idle),
        ("two thousand one after another", in_a_row), ("descriptors of finished connections", descriptors),
    ],
    assumptions: &[
        "idle: the threads of the engine's runtime use less than half of one processor over 80 ms and again over 1 s",
        "what must happen is waited for 20 s",
        "a peer that ends its sending direction has closed",
    ],
};

struct Out {
    port: u16,
    tx: fix_rs::io::TioBroadcastSender<String>,
    _acc: IoAcceptor,
}
type Seen = Arc<(Mutex<HashMap<String, usize>>, Condvar)>;
struct Eng {
    outs: Vec<Out>,
    seen: Seen,
    rt: Rt,
    n: usize,
    log: Vec<String>,
}
fn start(ports: &[u16], wait: bool) -> Result<Eng, Failure> {
    let rt = Rt::new(1 + ports.len() % 3);
    let (tx, mut rx) = tokio::sync::mpsc::channel::<String>(64);
    let seen: Seen = Default::default();
    let mut outs = vec![];
    {
        let _g = rt.enter();
        for p in ports {
            let (a, o) = IoAcceptor::create(addr(*p), tx.clone());
            a.start();
            outs.push(Out { port: *p, tx: o, _acc: a });
        }
    }
    let s2 = seen.clone();
    std::thread::spawn(move || {
        while let Some(m) = rx.blocking_recv() {
            *s2.0.lock().unwrap().entry(m).or_default() += 1;
            s2.1.notify_all();
        }
    });
    let e = Eng { outs, seen, rt, n: 0, log: vec![] };
    if wait {
        for p in ports {
            first_connect(*p).map_err(|x| fail("refused", format!("port {} does not accept connections: {}", p, x), ""))?;
        }
    }
    Ok(e)
}
struct Conn {
    s: TcpStream,
    at: usize,
    /// an incomplete message has been sent
    rest: Option<String>,
}
impl Eng {
    fn desc(&self) -> String {
        self.log.join("; ")
    }
    fn text(&mut self) -> String {
        self.n += 1;
        format!("8=FIX.4.3\u{1}34={}\u{1}10=000\u{1}", self.n)
    }
    fn open(&mut self, at: usize) -> Result<Conn, Failure> {
        let p = self.outs[at].port;
        let s = connect(p).map_err(|e| fail("refused", format!("connection to port {} fails: {}", p, e), self.desc()))?;
        Ok(Conn { s, at, rest: None })
    }
    fn write(&self, c: &mut Conn, b: &str) -> Res {
        c.s.write_all(b.as_bytes()).map_err(|e| fail("broken", format!("writing on an accepted connection fails: {}", e), self.desc()))
    }
    fn delivered(&self, text: &str) -> Res {
        let t0 = Instant::now();
        let mut g = self.seen.0.lock().unwrap();
        loop {
            if g.get(text) == Some(&1) {
                return Ok(());
            }
            ensure!(g.get(text).is_none(), "twice", self.desc(), "{} is handed over {:?} times", show(text), g.get(text));
            if t0.elapsed() > LIVE {
                return Err(fail("not-served", format!("the message {} of an accepted connection is not handed over within {:?}", show(text), LIVE), self.desc()));
            }
            g = self.seen.1.wait_timeout(g, Duration::from_millis(100)).unwrap().0;
        }
    }
    /// both directions of every held connection
    fn alive(&mut self, held: &mut [Conn]) -> Res {
        let mut texts = vec![];
        for i in 0..held.len() {
            let t = self.text();
            let first = held[i].rest.take().unwrap_or_default();
            self.write(&mut held[i], &format!("{}{}", if first.is_empty() { t.as_str() } else { first.as_str() }, if first.is_empty() { "" } else { t.as_str() }))?;
            texts.push((first, t));
        }
        for (_, t) in &texts {
            self.delivered(t)?;
        }
        for at in 0..self.outs.len() {
            let out = format!("8=FIX.4.3\u{1}58=to{}-{}\u{1}10=000\u{1}", at, self.n);
            let _ = self.outs[at].tx.send(out.clone());
            for c in held.iter_mut().filter(|c| c.at == at) {
                let got = read_n(&mut c.s, out.len(), LIVE);
                ensure!(got == out.as_bytes(), "broken", self.desc(), "an accepted connection to port {} receives {:?} instead of {}", self.outs[at].port,
                    brief(&String::from_utf8_lossy(&got), 200), show(&out));
            }
        }
        Ok(())
    }
    fn idle(&self) -> Res {
        std::thread::sleep(Duration::from_millis(5));
        for ms in [80u64, 1000] {
            let (a, t0) = (self.rt.cpu(), Instant::now());
            std::thread::sleep(Duration::from_millis(ms));
            let (used, over) = (self.rt.cpu() - a, t0.elapsed());
            if used * 2 < over {
                return Ok(());
            }
            if ms == 1000 {
                return Err(fail("busy", format!("with no traffic the engine uses {:?} of processor time in {:?}", used, over), self.desc()));
            }
        }
        Ok(())
    }
    fn released(&self, c: &mut Conn) -> Res {
        ensure!(closed_by_peer(&mut c.s, LIVE), "not-released", self.desc(), "a connection whose peer has closed is still held by the engine after {:?}", LIVE);
        Ok(())
    }
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let np = t.rangei(1, 3);
    let mut e = start(&ports(np), true)?;
    let mut held: Vec<Conn> = vec![];
    let mut most = 0;
    let mut gone = 0;
    for _ in 0..t.rangei(1, 8) {
        match t.weighted(&[4, 2, 3, 2, 2]) {
            0 => {
                let n = t.len(1, 40);
                let at = t.usize(np);
                let mode = t.usize(3);
                e.log.push(format!("{} connections to port {} at once ({})", n, at, ["message at once", "messages after all are open", "incomplete message"][mode]));
                ctx.label("burst");
                let mut new = vec![];
                let mut texts = vec![];
                for _ in 0..n {
                    let mut c = e.open(at)?;
                    let m = e.text();
                    match mode {
                        0 => {
                            e.write(&mut c, &m)?;
                            texts.push(m);
                        }
                        1 => texts.push(m),
                        _ => {
                            let cut = t.usize(m.len());
                            e.write(&mut c, &m[..cut])?;
                            c.rest = Some(m[cut..].to_string());
                        }
                    }
                    new.push(c);
                }
                if mode == 1 {
                    for (c, m) in new.iter_mut().zip(&texts) {
                        e.write(c, m)?;
                    }
                }
                for m in &texts {
                    e.delivered(m)?;
                }
                held.append(&mut new);
            }
            1 => {
                let n = t.rangei(1, 15);
                let at = t.usize(np);
                let how = t.usize(4);
                e.log.push(format!("{} reconnects to port {} ({})", n, at, ["close", "reset", "no message, close", "incomplete message, reset"][how]));
                ctx.label("reconnecting");
                for _ in 0..n {
                    let mut c = e.open(at)?;
                    let m = e.text();
                    match how {
                        0 => {
                            e.write(&mut c, &m)?;
                            drop(c);
                            e.delivered(&m)?;
                        }
                        1 => {
                            e.write(&mut c, &m)?;
                            e.delivered(&m)?;
                            reset(c.s)
                        }
                        2 => drop(c),
                        _ => {
                            e.write(&mut c, &m[..m.len() / 2])?;
                            reset(c.s)
                        }
                    }
                    gone += 1;
                }
            }
            2 if !held.is_empty() => {
                let n = t.rangei(1, held.len());
                e.log.push(format!("{} of {} connections end", n, held.len()));
                for _ in 0..n {
                    let mut c = held.remove(t.usize(held.len()));
                    gone += 1;
                    match t.usize(3) {
                        0 => drop(c),
                        1 => reset(c.s),
                        _ => {
                            ctx.label("half-close");
                            e.released(&mut c)?
                        }
                    }
                }
            }
            3 => {
                e.log.push(format!("all {} connections used", held.len()));
                e.alive(&mut held)?;
            }
            _ => {
                let n = t.rangei(2, 12);
                e.log.push(format!("{} connections from threads", n));
                ctx.label("concurrent");
                let at = t.usize(np);
                let port = e.outs[at].port;
                let texts: Vec<String> = (0..n).map(|_| e.text()).collect();
                let rs: Vec<Result<TcpStream, String>> = std::thread::scope(|sc| {
                    let hs: Vec<_> = texts
                        .iter()
                        .map(|m| {
                            sc.spawn(move || {
                                let mut s = connect(port)?;
                                s.write_all(m.as_bytes()).map_err(|e| e.to_string())?;
                                Ok(s)
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or(Err("client died".into()))).collect()
                });
                for (r, m) in rs.into_iter().zip(&texts) {
                    let s = r.map_err(|x| fail("refused", format!("a simultaneous connection to port {} fails: {}", port, x), e.desc()))?;
                    e.delivered(m)?;
                    held.push(Conn { s, at, rest: None });
                }
            }
        }
        most = most.max(held.len());
        if held.len() > 60 {
            gone += held.len() - 30;
            held.truncate(30);
        }
    }
    e.alive(&mut held)?;
    if t.flip() {
        gone += held.len();
        held.clear();
    }
    e.idle()?;
    ctx.add("connections", e.n as u64);
    if most > 1 && gone > 0 {
        ctx.nontrivial();
        ctx.key(&e.log);
        ctx.sample(|| e.desc());
    }
    Ok(())
}

fn nofile() -> libc::rlimit {
    let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut l) };
    l
}
struct Limit(libc::rlimit);
impl Limit {
    /// leaves room for `more` file descriptors; a fixed case runs while no other case does
    fn set(more: u64) -> Limit {
        let old = nofile();
        let now = std::fs::read_dir("/proc/self/fd").map(|d| d.count() as u64).unwrap_or(64);
        let l = libc::rlimit { rlim_cur: (now + more).min(old.rlim_max), rlim_max: old.rlim_max };
        unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &l) };
        Limit(old)
    }
}
impl Drop for Limit {
    fn drop(&mut self) {
        unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &self.0) };
    }
}

fn few_fds(_: &mut Ctx) -> Res {
    let mut e = start(&ports(1), true)?;
    let _l = Limit::set(60);
    e.log.push("240 connections in a row, each closed before the next, with room for 60 file descriptors".into());
    for i in 0..240 {
        let mut c = e.open(0)?;
        let m = e.text();
        match i % 4 {
            0 | 1 => {
                e.write(&mut c, &m)?;
                e.delivered(&m)?;
            }
            2 => e.write(&mut c, &m[..5])?,
            _ => {}
        }
        if i % 8 == 1 {
            reset(c.s);
        } else {
            drop(c);
        }
        if i % 4 > 1 {
            // nothing tells when the engine has seen this connection
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    e.idle()
}

fn accept_fails(_: &mut Ctx) -> Res {
    let mut e = start(&ports(1), true)?;
    let mut held = vec![];
    e.log.push("connections while no file descriptor is left to accept them; then some are closed".into());
    {
        let _l = Limit::set(3);
        for _ in 0..12 {
            match connect(e.outs[0].port) {
                Ok(s) => held.push(Conn { s, at: 0, rest: None }),
                Err(_) => break,
            }
        }
        std::thread::sleep(Duration::from_millis(2500));
        // connections that cannot be accepted are not waited for in a loop
        e.idle()?;
    }
    e.log.push(format!("{} connections were waiting", held.len()));
    for c in held.iter_mut() {
        let m = e.text();
        e.write(c, &m)?;
        e.delivered(&m)?;
    }
    e.alive(&mut held)?;
    let c = e.open(0)?;
    held.push(c);
    e.alive(&mut held)?;
    e.idle()
}

fn occupied(_: &mut Ctx) -> Res {
    let p = ports(1);
    let l = std::net::TcpListener::bind(("127.0.0.1", p[0])).map_err(|e| fail("broken-oracle", e.to_string(), ""))?;
    let mut e = start(&p, false)?;
    e.log.push("the port is in use when the engine starts and becomes free later".into());
    std::thread::sleep(Duration::from_millis(3000));
    e.idle()?;
    drop(l);
    let s = first_connect(p[0]).map_err(|x| fail("refused", format!("the port is never listened on: {}", x), e.desc()))?;
    let mut held = vec![Conn { s, at: 0, rest: None }];
    e.alive(&mut held)
}

fn many(_: &mut Ctx) -> Res {
    let mut e = start(&ports(1), true)?;
    e.log.push("300 connections at once, all used twice, half of them closed, the others used again".into());
    let n = 300usize.min((nofile().rlim_cur as usize).saturating_sub(100) / 3);
    let mut held = vec![];
    for _ in 0..n {
        held.push(e.open(0)?);
    }
    e.alive(&mut held)?;
    e.alive(&mut held)?;
    let mut i = 0;
    held.retain(|_| {
        i += 1;
        i % 2 == 0
    });
    e.alive(&mut held)?;
    for c in held.iter_mut().take(20) {
        e.released(c)?;
    }
    e.idle()
}

fn in_a_row(_: &mut Ctx) -> Res {
    let mut e = start(&ports(1), true)?;
    e.log.push("2000 connections in a row, each with a message, while the eighth is held".into());
    let mut held = vec![];
    for i in 0..2000 {
        let mut c = e.open(0)?;
        let m = e.text();
        e.write(&mut c, &m)?;
        e.delivered(&m)?;
        match i % 100 {
            7 if i < 100 => held.push(c),
            // a reset leaves no port behind
            _ => reset(c.s),
        }
    }
    e.alive(&mut held)?;
    e.idle()
}

/// open sockets of this process; only fixed cases, during which no other case runs, can tell something from it
fn sockets() -> usize {
    std::fs::read_dir("/proc/self/fd")
        .map(|d| d.filter_map(|e| std::fs::read_link(e.ok()?.path()).ok()).filter(|p| p.to_string_lossy().starts_with("socket:")).count())
        .unwrap_or(0)
}

/// however connections end, and whatever was under way, the engine closes its end
fn descriptors(_: &mut Ctx) -> Res {
    let ps = ports(8);
    let mut e = start(&ps, true)?;
    let mut held = vec![];
    for at in 0..ps.len() {
        held.push(e.open(at)?);
    }
    e.alive(&mut held)?;
    let base = sockets();
    for how in ["closed", "reset", "half-closed", "incomplete, closed", "incomplete, reset", "incomplete, half-closed", "unread, closed", "unread, reset", "due, closed", "due, reset", "nothing, closed", "nothing, reset", "hundred messages, reset"] {
        e.log.push(format!("connections to each of {} ports: {}", ps.len(), how));
        let mut open = vec![];
        for at in 0..ps.len() {
            let mut c = e.open(at)?;
            if !how.starts_with("nothing") {
                let m = e.text();
                e.write(&mut c, &m)?;
                e.delivered(&m)?;
            }
            open.push((at, c));
        }
        for (at, c) in open.iter_mut() {
            match how.split(", ").next().unwrap_or("") {
                "incomplete" => e.write(c, "8=FIX.4.3\u{1}35=")?,
                "unread" => {
                    let text = format!("8=FIX.4.3\u{1}58={}\u{1}10=000\u{1}", e.n);
                    let _ = e.outs[*at].tx.send(text.clone());
                    read_n(&mut held[*at].s, text.len(), LIVE);
                }
                "due" => {
                    // the held connection would be held up
                    let text = "x".repeat(12_000_000);
                    let _ = e.outs[*at].tx.send(text.clone());
                    let got = read_n(&mut held[*at].s, text.len(), LIVE);
                    ensure!(got.len() == text.len(), "broken", e.desc(), "of 12 MB a connection receives {} bytes", got.len());
                }
                "hundred messages" => {
                    let texts: Vec<String> = (0..100).map(|_| e.text()).collect();
                    e.write(c, &texts.concat())?;
                }
                _ => {}
            }
        }
        for (_, mut c) in open {
            if how.ends_with("half-closed") {
                e.released(&mut c)?;
            } else if how.ends_with("reset") {
                reset(c.s);
            }
        }
        let t0 = Instant::now();
        let mut now = sockets();
        while now > base && t0.elapsed() < LIVE {
            std::thread::sleep(Duration::from_millis(3));
            now = sockets();
        }
        ensure!(now <= base, "descriptors", e.desc(), "{} connections have ended ({}), and the process has {} open sockets more than before {:?} later", ps.len(), how, now - base, LIVE);
        e.alive(&mut held)?;
    }
    e.idle()
}

fn idle(_: &mut Ctx) -> Res {
    let mut e = start(&ports(1), true)?;
    for how in ["open", "incomplete", "half-closed", "half-closed after an incomplete message", "closed", "reset", "reset after an incomplete message", "reset while a message is due"] {
        e.log.push(how.to_string());
        let mut c = e.open(0)?;
        let m = e.text();
        e.write(&mut c, &m)?;
        e.delivered(&m)?;
        if how.contains("incomplete") {
            e.write(&mut c, "8=FIX.4.3\u{1}35=")?;
        }
        let mut keep = None;
        if how.starts_with("half") {
            e.released(&mut c)?;
            keep = Some(c);
        } else if how.starts_with("reset") {
            if how.contains("due") {
                let _ = e.outs[0].tx.send("x".repeat(20_000_000));
                std::thread::sleep(Duration::from_millis(20));
            }
            reset(c.s);
        } else if how != "closed" {
            keep = Some(c);
        }
        e.idle()?;
        let mut fresh = vec![e.open(0)?];
        e.alive(&mut fresh)?;
        drop(keep);
    }
    Ok(())
}
