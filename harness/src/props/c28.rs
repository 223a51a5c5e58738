//! Outbound messages reach their session's peer complete, once and in order.
use crate::engine::*;
use crate::ensure;
use crate::msg::{self, split_fields, GenOpt};
use crate::net::*;
use crate::tape::Tape;
use fix_rs::message::{Message, StringField};
use fix_rs::network::SessionMap;
use fix_rs::session::Session;
use std::io::{ErrorKind, Read, Write};
use std::net::TcpStream;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub static PROP: Prop = Prop {
    id: "C28",
    rule: "A case runs the acceptor with 1-4 (one case in forty-five: 9-40) sessions over as many or fewer ports; a generated history opens and closes connections (each introduces itself \
with a valid message of its session), and sends bursts of 1-24 messages per port (built or parsed, 30 bytes to 3 MB, from one thread or one per session), while \
clients read at different speeds. Each client must receive exactly the messages of its session, in order; messages of another session of the same port are tolerated (known finding), \
anything else is not. Non-trivial: a burst of at least two messages to a case with at least two connections; \
distinct by history.",
    quick: 3_000,
    thorough: 60_000,
    threads: 8,
    net: true,
    case,
    fixed: &[("two sessions on one port", shared_port), ("forty pending messages", overflow), ("nothing sent for 32 s", idle), ("three thousand messages behind", behind)],
    assumptions: &[
        "at most 30 messages of a port are sent before every client of the port has read what is pending (more may be dropped: known finding, reproduced as a fixed case)",
        "a client that stops sending counts as gone",
        "the order in which a message prints fields without a fixed place is not compared",
    ],
};

/// equal up to the order of fields that have no fixed place
pub fn same_text(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    if a.len() != b.len() {
        return false;
    }
    let (x, y) = (split_fields(a), split_fields(b));
    if x.len() != y.len() || x.first() != y.first() || x.last() != y.last() {
        return false;
    }
    let (mut x, mut y) = (x, y);
    x.sort();
    y.sort();
    x == y
}

pub struct Client {
    pub s: TcpStream,
    pub k: usize,
    pub port: u16,
    /// indices into the list of sends, per session, from which this client must see
    from: Vec<usize>,
    buf: Vec<u8>,
    got: usize,
}

struct Sent {
    k: usize,
    text: String,
}

fn outgoing(t: &mut Tape, w: &World, k: usize, n: usize) -> Message {
    let big = match t.weighted(&[240, 20, 6, 1]) {
        0 => 0,
        1 => t.usize(20_000),
        2 => t.usize(300_000),
        _ => 300_000 + t.usize(2_500_000),
    };
    if t.chance(1, 3) {
        let m = w.message(t, k, &format!("o{}", n), &GenOpt { total: 30, ..Default::default() });
        if let Some(m) = w.parsed(k, &m.text()) {
            return m;
        }
    }
    let mut m = Message::new();
    m.header_mut().set_field(StringField::new(8, "FIX.4.3"));
    m.header_mut().set_field(StringField::new(35, *t.pick(&["A", "D", "8", "U1"])));
    m.header_mut().set_field(StringField::new(34, &n.to_string()));
    for _ in 0..t.len(0, 5) {
        let tag = t.range(11, 48) as u32;
        if tag != 34 && tag != 35 {
            m.set_field(StringField::new(tag, &msg::gen_value(t)));
        }
    }
    if big > 0 {
        m.set_field(StringField::new(58, &t.pick(&["x", "10=", "é", "🦀"]).repeat(big / 2 + 1)));
    }
    m.set_body_len();
    m.set_checksum();
    m
}

impl Client {
    /// reads and checks until all messages of the own session are there
    fn sync(&mut self, sent: &[Sent], upto: usize, w: &World, pace: usize, describe: &dyn Fn() -> String) -> Res {
        let own: Vec<usize> = (self.got..upto).filter(|i| sent[*i].k == self.k && *i >= self.from[self.k]).collect();
        let mut own = std::collections::VecDeque::from(own);
        let t0 = Instant::now();
        let mut chunk = vec![0u8; if pace == 0 { 1 << 16 } else { pace }];
        let mut scanned = 0;
        // start of the field being read
        let mut field = 0;
        let mut seen_other: Vec<usize> = self.from.clone();
        std::mem::swap(&mut seen_other, &mut self.from);
        let res = loop {
            // whole messages in the buffer
            let mut bad = None;
            let mut start = 0;
            let b = &self.buf;
            let mut i = scanned;
            while i < b.len() {
                if b[i] == 1 {
                    if b[field..].starts_with(b"10=") {
                        let text = String::from_utf8_lossy(&b[start..=i]).to_string();
                        start = i + 1;
                        if own.front().is_some_and(|e| same_text(&sent[*e].text, &text)) {
                            own.pop_front();
                        } else {
                            // another session of this port, later than what was seen of it
                            let other = (0..upto).find(|e| {
                                let x = &sent[*e];
                                x.k != self.k && w.sess[x.k].port == self.port && *e >= seen_other[x.k] && same_text(&x.text, &text)
                            });
                            match other {
                                Some(e) => seen_other[sent[e].k] = e + 1,
                                None => bad = Some(text),
                            }
                        }
                    }
                    field = i + 1;
                }
                i += 1;
                if bad.is_some() {
                    break;
                }
            }
            self.buf.drain(..start);
            field = field.saturating_sub(start);
            scanned = self.buf.len();
            if let Some(text) = bad {
                let due = own.front().map(|e| brief(&sent[*e].text, 300));
                break Err(fail(
                    "not-due",
                    format!("a client of {} on port {} receives {} ({} bytes) where {:?} is due", w.sess[self.k].sid, self.port, brief(&text, 300), text.len(), due),
                    describe(),
                ));
            }
            if own.is_empty() {
                break Ok(());
            }
            if t0.elapsed() > LIVE {
                break Err(fail(
                    "lost",
                    format!("a client of {} on port {} does not receive {} within {:?}; {} bytes of an incomplete message are there", w.sess[self.k].sid, self.port,
                        clip(&show(&sent[*own.front().unwrap()].text), 300), LIVE, self.buf.len()),
                    describe(),
                ));
            }
            let _ = self.s.set_read_timeout(Some(Duration::from_millis(100)));
            quickack(&self.s);
            match self.s.read(&mut chunk) {
                Ok(0) => break Err(fail("closed", format!("the connection of {} on port {} is closed by the engine", w.sess[self.k].sid, self.port), describe())),
                Ok(n) => self.buf.extend(&chunk[..n]),
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {}
                Err(e) => break Err(fail("closed", format!("the connection of {} on port {} breaks: {}", w.sess[self.k].sid, self.port, e), describe())),
            }
        };
        self.from = seen_other;
        self.got = upto;
        self.from[self.k] = upto;
        res
    }
}

/// a client of session k that has been read from, hence is subscribed
fn join(t: &mut Tape, w: &World, k: usize, name: &str, sent: usize, map: &mut Option<SessionMap>, describe: &dyn Fn() -> String) -> Result<Client, Failure> {
    let port = w.sess[k].port;
    let mut s = first_connect(port).map_err(|e| fail("refused-connection", format!("port {} refuses: {}", port, e), describe()))?;
    let text = w.message(t, k, name, &GenOpt { total: 6, ..Default::default() }).text();
    s.write_all(text.as_bytes()).map_err(|e| fail("closed", e.to_string(), describe()))?;
    match w.next(LIVE) {
        Some(g) => *map = Some(g.map),
        None => return Err(fail("not-served", format!("the first message {} is not handed over", show(&text)), describe())),
    }
    Ok(Client { s, k, port, from: vec![sent; w.sess.len()], buf: vec![], got: sent })
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let own = t.chance(2, 3);
    // (with more than three sessions per port the closing messages alone would be too many)
    let plan = Plan { sessions: if own { 4 } else { 3 }, ports: 3, dicts: 2, own_ports: own, threads: t.rangei(1, 3) };
    let w = World::start(t, &plan, None)?;
    let mut log = String::new();
    let mut clients: Vec<Client> = vec![];
    let mut map = None;
    let mut sent: Vec<Sent> = vec![];
    let rounds = t.rangei(1, 6);
    let mut hard = false;
    for r in 0..rounds {
        let lg = std::mem::take(&mut log);
        let describe = || format!("{}configuration:\n{}", lg, w.text);
        // connections come and go
        let mut note = String::new();
        for j in 0..t.len(if clients.is_empty() { 1 } else { 0 }, 3) {
            let k = t.usize(w.sess.len());
            clients.push(join(t, &w, k, &format!("h{}-{}", r, j), sent.len(), &mut map, &describe)?);
            note.push_str(&format!("client of {} connects; ", w.sess[k].sid));
        }
        if clients.len() > 1 && t.chance(1, 3) {
            let c = clients.remove(t.usize(clients.len()));
            note.push_str(&format!("client of {} leaves; ", w.sess[c.k].sid));
            if t.flip() {
                reset(c.s);
            }
        }
        let n = t.rangei(1, 24);
        let mut batch: Vec<(usize, Message, String)> = vec![];
        let mut per_port: std::collections::HashMap<u16, usize> = Default::default();
        for _ in 0..n {
            let k = t.usize(w.sess.len());
            let c = per_port.entry(w.sess[k].port).or_default();
            if *c >= 24 {
                continue;
            }
            *c += 1;
            // now and then the same message again
            let m = match batch.iter().rev().find(|b| b.0 == k) {
                Some(b) if t.chance(1, 8) => b.1.clone(),
                _ => outgoing(t, &w, k, sent.len() + batch.len()),
            };
            let text = m.to_string();
            batch.push((k, m, text));
        }
        let threads = t.chance(1, 3);
        if threads {
            // per session order is what matters
            batch.sort_by_key(|b| b.0);
        }
        // every session ends with a message of its own, so that nothing of the burst stays unread
        let mut closing = vec![];
        for k in 0..w.sess.len() {
            let m = outgoing(&mut Tape::replay(vec![]), &w, k, 1_000_000 + r * 100 + k);
            closing.push((k, m.to_string(), m));
        }
        note.push_str(&format!("{} messages {}: ", batch.len(), if threads { "from one thread per session" } else { "in this order" }));
        for b in &batch {
            note.push_str(&format!("{} <- {} ({} bytes); ", w.sess[b.0].sid, brief(&b.2, 100), b.2.len()));
        }
        note.push('\n');
        ctx.add("messages sent", batch.len() as u64);
        ctx.label_if(batch.iter().any(|b| b.2.len() > 100_000), "burst with a message over 100 kB");
        ctx.label_if(threads, "burst from several threads");
        hard |= clients.len() > 1 && batch.len() > 1;
        let lg2 = format!("{}{}", lg, note);
        let describe = || format!("{}configuration:\n{}", lg2, w.text);
        let m = map.clone().unwrap();
        let early = t.flip();
        let paces: Vec<usize> = clients.iter().map(|_| *t.pick(&[0usize, 0, 4096, 37])).collect();
        let base = sent.len();
        for b in &batch {
            sent.push(Sent { k: b.0, text: b.2.clone() });
        }
        for (k, text, _) in &closing {
            sent.push(Sent { k: *k, text: text.clone() });
        }
        let _ = base;
        let upto = sent.len();
        let started = AtomicBool::new(!early);
        std::thread::scope(|sc| -> Res {
            let sender = sc.spawn(|| -> Result<(), String> {
                while !started.load(SeqCst) {
                    std::thread::yield_now();
                }
                let send = |k: usize, msg: Message| {
                    guard(|| Session::sync_send_to_target(&w.sess[k].sid, &m, msg)).map_err(|p| format!("sending to {} panics: {}", w.sess[k].sid, p))
                };
                if threads {
                    let mut by: Vec<Vec<Message>> = (0..w.sess.len()).map(|_| vec![]).collect();
                    for (k, msg, _) in batch {
                        by[k].push(msg);
                    }
                    std::thread::scope(|s2| {
                        let hs: Vec<_> = by
                            .into_iter()
                            .enumerate()
                            .map(|(k, v)| s2.spawn(move || v.into_iter().try_for_each(|x| send(k, x))))
                            .collect();
                        hs.into_iter().try_for_each(|h| h.join().unwrap_or(Err("sender died".into())))
                    })?;
                } else {
                    for (k, msg, _) in batch {
                        send(k, msg)?;
                    }
                }
                closing.into_iter().try_for_each(|(k, _, msg)| send(k, msg))
            });
            if !early {
                // the whole burst is pending before anyone reads
                match sender.join() {
                    Ok(Err(e)) => return Err(fail("panic", e, describe())),
                    _ => {}
                }
            } else {
                started.store(true, SeqCst);
            }
            let rs: Vec<_> = clients
                .iter_mut()
                .zip(&paces)
                .map(|(c, p)| {
                    let (sent, w, describe) = (&sent, &w, &describe);
                    let small = sent[c.got..upto].iter().map(|x| x.text.len()).sum::<usize>() < 20_000;
                    let p = if *p == 37 && !small { 4096 } else { *p };
                    sc.spawn(move || c.sync(sent, upto, w, p, describe))
                })
                .collect();
            let mut res = Ok(());
            for r in rs {
                match r.join() {
                    Ok(x) => res = res.and(x),
                    Err(_) => res = Err(fail("broken-oracle", "client thread died", "")),
                }
            }
            res
        })?;
        log = lg2;
    }
    if hard {
        ctx.nontrivial();
        ctx.key(&log.split("configuration").next().unwrap_or("").replace(|c: char| c.is_ascii_digit(), ""));
        ctx.sample(|| clip(&log, 700));
    }
    Ok(())
}

fn conf(ports: &[u16]) -> String {
    let mut s = String::from("[Default]\nconnection_type = \"acceptor\"\nbegin_string = \"FIX.4.3\"\nsender_comp_id = \"ENGINE\"\n");
    for (i, p) in ports.iter().enumerate() {
        s.push_str(&format!("[Session]\ntarget_comp_id = \"PEER{}\"\nsocket_accept_port = {}\n", i, p));
    }
    s
}
struct Small {
    rt: Rt,
    rx: std::sync::Mutex<std::sync::mpsc::Receiver<(String, SessionMap)>>,
    text: String,
}
struct SmallApp(std::sync::Mutex<std::sync::mpsc::Sender<(String, SessionMap)>>);
impl fix_rs::application::Application for SmallApp {
    fn to_app(_: String) {}
    fn from_app(&self, sid: &fix_rs::session::SessionId, map: &SessionMap, _: Message) {
        let _ = self.0.lock().unwrap().send((sid.to_string(), map.clone()));
    }
}
fn small(ports: &[u16]) -> Result<Small, Failure> {
    std::env::set_current_dir(crate::dict::repo()).map_err(|e| fail("broken-oracle", e.to_string(), ""))?;
    let text = conf(ports);
    let props = super::c19::load(&text).map_err(|e| fail("start", e, text.clone()))?;
    let rt = Rt::new(2);
    let (tx, rx) = std::sync::mpsc::channel();
    guard(|| {
        let _g = rt.enter();
        fix_rs::network::SocketAcceptor::new(props, SmallApp(std::sync::Mutex::new(tx))).start_accepting_connections();
    })
    .map_err(|p| fail("start", p, text.clone()))?;
    Ok(Small { rt, rx: std::sync::Mutex::new(rx), text })
}
impl Small {
    fn join(&self, port: u16, peer: usize) -> Result<(TcpStream, SessionMap), Failure> {
        let mut s = first_connect(port).map_err(|e| fail("refused-connection", e, self.text.clone()))?;
        let _ = s.write_all(format!("8=FIX.4.3\u{1}9=5\u{1}35=0\u{1}49=PEER{}\u{1}56=ENGINE\u{1}34=1\u{1}10=000\u{1}", peer).as_bytes());
        match self.rx.lock().unwrap().recv_timeout(LIVE) {
            Ok((_, map)) => Ok((s, map)),
            Err(_) => Err(fail("not-served", "a heartbeat is not handed to the application", self.text.clone())),
        }
    }
    fn sid(&self, peer: usize) -> fix_rs::session::SessionId {
        fix_rs::session::SessionIdBuilder::new("FIX.4.3", "ENGINE", &format!("PEER{}", peer)).build().unwrap()
    }
}
fn note(n: usize, size: usize) -> Message {
    let mut m = Message::new();
    m.header_mut().set_field(StringField::new(8, "FIX.4.3"));
    m.header_mut().set_field(StringField::new(35, "B"));
    m.set_field(StringField::new(58, &format!("n{}{}", n, "x".repeat(size))));
    m.set_body_len();
    m.set_checksum();
    m
}
fn names(b: &[u8]) -> Vec<String> {
    frames(b)
        .0
        .iter()
        .map(|f| {
            let s = String::from_utf8_lossy(f).to_string();
            s.split('\u{1}').find_map(|x| x.strip_prefix("58=")).unwrap_or("?").trim_end_matches('x').to_string()
        })
        .collect()
}

fn shared_port(ctx: &mut Ctx) -> Res {
    let p = ports(1)[0];
    let w = small(&[p, p])?;
    let (mut a, map) = w.join(p, 0)?;
    let (mut b, _) = w.join(p, 1)?;
    Session::sync_send_to_target(&w.sid(0), &map, note(0, 0));
    Session::sync_send_to_target(&w.sid(1), &map, note(1, 0));
    Session::sync_send_to_target(&w.sid(0), &map, note(2, 0));
    Session::sync_send_to_target(&w.sid(1), &map, note(3, 0));
    let _ = &w.rt;
    let mut extra = false;
    for (s, own, last) in [(&mut a, ["n0", "n2"], "n2"), (&mut b, ["n1", "n3"], "n3")] {
        let (bytes, ok) = read_until(s, LIVE, &mut |b| names(b).iter().any(|x| x == last));
        let got = names(&bytes);
        let mine: Vec<&String> = got.iter().filter(|x| own.contains(&x.as_str())).collect();
        ensure!(ok && mine == own, "lost", w.text, "of the messages {:?} the peer receives {:?}", own, got);
        extra |= got.len() > mine.len();
        ctx.add("messages of the other session received", (got.len() - mine.len()) as u64);
    }
    ensure!(!extra, "shared-port", w.text, "peers of different sessions on one port receive each other's messages");
    Ok(())
}
/// connections that are silent for a while are still served afterwards, in both directions, and peers that do not read
/// for a while get what was sent to them meanwhile
fn idle(_: &mut Ctx) -> Res {
    let ps = ports(10);
    let w = small(&ps)?;
    let waits = [1u64, 3, 6, 12, 32];
    let mut socks = vec![];
    let mut map = None;
    const BIG: usize = 16_000_000;
    for (i, p) in ps.iter().enumerate() {
        let (s, m) = w.join(*p, i)?;
        map = Some(m);
        socks.push(s);
    }
    let map = map.unwrap();
    for i in 5..10 {
        Session::sync_send_to_target(&w.sid(i), &map, note(0, BIG));
        Session::sync_send_to_target(&w.sid(i), &map, note(1, 0));
    }
    let t0 = Instant::now();
    let (quiet, stalled) = socks.split_at_mut(5);
    for (i, s) in quiet.iter_mut().enumerate() {
        let until = Duration::from_secs(waits[i]);
        if until > t0.elapsed() {
            std::thread::sleep(until - t0.elapsed());
        }
        for n in [1, 2] {
            Session::sync_send_to_target(&w.sid(i), &map, note(n, 0));
        }
        let (bytes, ok) = read_until(s, LIVE, &mut |b| names(b).last().is_some_and(|x| x == "n2"));
        ensure!(ok && names(&bytes) == ["n1", "n2"], "lost", w.text, "after {} s of silence a peer receives {:?} of the messages n1 and n2", waits[i], names(&bytes));
        let _ = s.write_all(format!("8=FIX.4.3\u{1}9=5\u{1}35=0\u{1}49=PEER{}\u{1}56=ENGINE\u{1}34=2\u{1}10=000\u{1}", i).as_bytes());
        ensure!(w.rx.lock().unwrap().recv_timeout(LIVE).is_ok(), "not-served", w.text, "after {} s of silence a heartbeat is not handed to the application", waits[i]);
        let s = &mut stalled[i];
        Session::sync_send_to_target(&w.sid(i + 5), &map, note(2, 0));
        let (bytes, ok) = read_until(s, LIVE, &mut |b| b.len() > BIG && b.ends_with(b"\x01") && b[b.len() - 200..].windows(6).any(|x| x == b"58=n2\x01"));
        ensure!(ok && names(&bytes) == ["n0", "n1", "n2"], "lost", w.text, "a peer that does not read for {} s receives {:?} ({} bytes) of the messages n0 (16 MB), n1 and n2", waits[i], names(&bytes), bytes.len());
    }
    Ok(())
}
fn overflow(_: &mut Ctx) -> Res {
    let p = ports(1)[0];
    let w = small(&[p])?;
    let (mut a, map) = w.join(p, 0)?;
    // the socket buffers are full with the first message
    Session::sync_send_to_target(&w.sid(0), &map, note(0, 16_000_000));
    std::thread::sleep(Duration::from_millis(300));
    for i in 1..=40 {
        Session::sync_send_to_target(&w.sid(0), &map, note(i, 0));
    }
    let (bytes, ok) = read_until(&mut a, LIVE, &mut |b| b.len() > 16_000_000 && b.ends_with(b"\x01") && b[b.len() - 200..].windows(6).any(|x| x == b"58=n40"));
    let got: Vec<usize> = names(&bytes).iter().filter_map(|x| x[1..].parse().ok()).collect();
    ensure!(ok && got.windows(2).all(|x| x[0] < x[1]), "order", w.text, "41 messages of which the first is slow arrive as {:?}", got);
    // what is still there of 41 pending messages: the first and the last 32
    ensure!(got.contains(&0) && (9..=40).all(|i| got.contains(&i)), "lost", w.text, "of 41 pending messages only {:?} arrive", got);
    ensure!(got.len() == 41, "overflow", w.text, "of 41 pending messages only {} arrive", got.len());
    Ok(())
}

/// a peer that is far behind loses messages (known finding) but not those it can still get, nor later ones
fn behind(_: &mut Ctx) -> Res {
    let ps = ports(2);
    let w = small(&ps)?;
    let (mut a, map) = w.join(ps[0], 0)?;
    let (mut b, _) = w.join(ps[1], 1)?;
    for round in 0..2 {
        let last = (round + 1) * 3001 - 1;
        Session::sync_send_to_target(&w.sid(0), &map, note(last - 3000, 16_000_000));
        std::thread::sleep(Duration::from_millis(300));
        for i in last - 2999..=last {
            Session::sync_send_to_target(&w.sid(0), &map, note(i, 0));
        }
        // another peer is not held up
        Session::sync_send_to_target(&w.sid(1), &map, note(round, 0));
        let name = format!("n{}", round);
        let (bytes, ok) = read_until(&mut b, LIVE, &mut |b| names(b).last().is_some_and(|x| *x == name));
        ensure!(ok && names(&bytes) == [name.as_str()], "lost", w.text, "while another peer is 3000 messages behind a peer receives {:?} instead of {}", names(&bytes), name);
        let want = format!("58=n{}\u{1}", last).into_bytes();
        let (bytes, ok) = read_until(&mut a, LIVE, &mut |b| b.len() > 16_000_000 && b.ends_with(b"\x01") && b[b.len() - 200..].windows(want.len()).any(|x| x == want));
        let got: Vec<usize> = names(&bytes).iter().filter_map(|x| x[1..].parse().ok()).collect();
        ensure!(ok && got.windows(2).all(|x| x[0] < x[1]) && got.first() == Some(&(last - 3000)), "order", w.text,
            "{} to {}, of which the first is slow, arrive as {:?}", last - 3000, last, brief(&format!("{:?}", got), 400));
        ensure!((last - 31..=last).all(|i| got.contains(&i)), "lost", w.text, "of 3001 pending messages only {:?} arrive", got);
        // it has caught up
        for i in 0..100 {
            Session::sync_send_to_target(&w.sid(0), &map, note(100_000 + i, 0));
            let want = format!("58=n{}\u{1}", 100_000 + i).into_bytes();
            let (bytes, ok) = read_until(&mut a, LIVE, &mut |b| b.windows(want.len()).any(|x| x == want));
            ensure!(ok && names(&bytes).len() == 1, "lost", w.text, "after having caught up a peer receives {:?} instead of n{}", names(&bytes), 100_000 + i);
        }
    }
    Ok(())
}
