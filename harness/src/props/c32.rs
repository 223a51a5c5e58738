//! The engine's memory does not grow with its history.
use super::c27::hostile;
use super::c19;
use crate::engine::*;
use crate::ensure;
use crate::msg::GenOpt;
use crate::net::*;
use crate::tape::Tape;
use fix_rs::message::{Message, StringField};
use fix_rs::network::{SessionMap, SocketAcceptor};
use fix_rs::session::{Session, SessionId};
use std::io::{Read, Write};
use std::net::TcpStream;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub static PROP: Prop = Prop {
    id: "C32",
    rule: "A case runs the acceptor with 1-3 sessions and an application that answers every message, with messages of one to three types, and keeps nothing, and generates a round of traffic: 1-8 steps, \
each either 1-60 connections one after another that send generated messages (valid, malformed, truncated, of unknown sessions, arbitrary bytes) and close, half-close or reset, \
or 1-400 valid messages on a connection that stays. The same round, with other numbers in the messages, is run twice and then four times more. The bytes allocated and not freed by the engine's \
threads (counted in the allocator) must come back, within 20 s, to what they were after the second round plus 24 KB. Non-trivial: a round with at least 40 messages or 20 connections; distinct by round.",
    quick: 300,
    thorough: 6_000,
    threads: 8,
    net: true,
    case,
    fixed: &[
        ("many connections", connections), ("many messages", messages), ("many unknown sessions", unknown), ("many malformed messages", malformed),
        ("many unread answers", unread),
    ],
    assumptions: &[
        "memory is what the engine's threads have requested from the allocator and not given back",
        "buffers kept for reuse stay under 24 KB in total when nothing is going on",
    ],
};

const SLACK: i64 = 24 << 10;
/// stands for a number that differs in every copy
const MARK: &[u8] = b"#######";

#[derive(Debug, Clone, Copy, PartialEq)]
enum Leave {
    Close,
    Half,
    Reset,
}
#[derive(Debug)]
struct Step {
    port: u16,
    /// on the connection that stays, or on new ones, so many times
    stays: bool,
    times: usize,
    data: Vec<u8>,
    leave: Leave,
}

struct Engine {
    rt: Rt,
    seen: Arc<AtomicUsize>,
    good: Vec<(u16, TcpStream)>,
    sess: Vec<Sess>,
    dicts: Vec<DictOf>,
    ports: Vec<u16>,
    text: String,
    dir: std::path::PathBuf,
    n: u64,
}
impl Drop for Engine {
    fn drop(&mut self) {
        for (_, s) in &self.good {
            let _ = s.shutdown(std::net::Shutdown::Both);
        }
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn start(t: &mut Tape, plan: &Plan, read: bool) -> Result<Engine, Failure> {
    let Setup { sess, dicts, ports, text, dir, .. } = setup(t, plan, false)?;
    let props = c19::load(&text).map_err(|m| fail("refused", format!("a valid configuration is refused: {}", m), text.clone()))?;
    let rt = Rt::new(plan.threads);
    let seen: Arc<AtomicUsize> = Default::default();
    // what kinds of messages the application sends
    let mut kinds: Vec<&str> = vec!["8"];
    for _ in 0..t.rangei(0, 2) {
        kinds.push(*t.pick(&["D", "0", "A", "2", "4", "5", "AE", "zz", "1", "3", "j"]));
    }
    let (s2, live) = (seen.clone(), rt.live);
    let app = App::new(Arc::new(move |sid: &SessionId, map: &SessionMap, m: &Message| {
        crate::alloc::join(live);
        let n = s2.fetch_add(1, SeqCst);
        let mut r = Message::new();
        r.header_mut().set_field(StringField::new(8, "FIX.4.3"));
        r.header_mut().set_field(StringField::new(35, kinds[n % kinds.len()]));
        r.set_field(StringField::new(58, &m.header().get_field::<String>(34).unwrap_or_default()));
        Session::sync_send_to_target(sid, map, r);
    }));
    guard(|| {
        let _g = rt.enter();
        SocketAcceptor::new(props, app).start_accepting_connections();
    })
    .map_err(|p| fail("start", format!("starting the engine panics: {}", p), text.clone()))?;
    let mut good = vec![];
    for p in &ports {
        let s = first_connect(*p).map_err(|e| fail("refused-connection", format!("port {}: {}", p, e), text.clone()))?;
        if read {
            let mut r = s.try_clone().map_err(|e| fail("broken-oracle", e.to_string(), ""))?;
            std::thread::spawn(move || {
                let mut b = vec![0; 1 << 16];
                while matches!(r.read(&mut b), Ok(n) if n > 0) {
                    quickack(&r);
                }
            });
        }
        good.push((*p, s));
    }
    let mut e = Engine { rt, seen, good, sess, dicts, ports, text, dir, n: 0 };
    // the thread that calls the application is counted from its first call on
    let b = e.valid(t, 0);
    let _ = e.good[0].1.write_all(&b);
    let t0 = Instant::now();
    while e.seen.load(SeqCst) == 0 {
        ensure!(t0.elapsed() < LIVE, "not-served", e.text.clone(), "the valid message {} is not handed over", show(&String::from_utf8_lossy(&b)));
        std::thread::sleep(Duration::from_millis(1));
    }
    Ok(e)
}

impl Engine {
    /// a copy with new numbers
    fn copy(&mut self, data: &[u8]) -> Vec<u8> {
        let mut out = data.to_vec();
        let mut i = 0;
        while i + MARK.len() <= out.len() {
            if &out[i..i + MARK.len()] == MARK {
                self.n += 1;
                out[i..i + MARK.len()].copy_from_slice(format!("{:07}", self.n % 10_000_000).as_bytes());
                i += MARK.len();
            } else {
                i += 1;
            }
        }
        out
    }
    fn valid(&self, t: &mut Tape, k: usize) -> Vec<u8> {
        let s = &self.sess[k];
        let mark = std::str::from_utf8(MARK).unwrap();
        let mut m = s.message(t, &self.dicts[s.dict].d, mark, &GenOpt { total: 20, ..Default::default() });
        let plain: Vec<usize> = (0..m.body.len()).filter(|i| m.body[*i].grp.is_none()).collect();
        if !plain.is_empty() && t.flip() {
            m.body[*t.pick(&plain)].val = mark.into();
        }
        m.text().into_bytes()
    }
    fn run(&mut self, steps: &[Step]) -> Res {
        for s in steps {
            if s.stays {
                let at = self.good.iter().position(|g| g.0 == s.port).unwrap();
                for _ in 0..s.times {
                    let b = self.copy(&s.data);
                    self.good[at].1.write_all(&b).map_err(|e| fail("connection", format!("writing on a connection that stays fails: {}", e), self.text.clone()))?;
                }
                continue;
            }
            for _ in 0..s.times {
                let b = self.copy(&s.data);
                let mut c = connect(s.port).map_err(|e| fail("refused-connection", format!("port {}: {}", s.port, e), self.text.clone()))?;
                let _ = c.write_all(&b);
                match s.leave {
                    Leave::Close => drop(c),
                    Leave::Reset => reset(c),
                    Leave::Half => {
                        closed_by_peer(&mut c, LIVE);
                    }
                }
            }
        }
        Ok(())
    }
    fn live(&self) -> i64 {
        self.rt.live.load(SeqCst)
    }
    /// what is allocated when it has not changed for a while
    fn settled(&self) -> i64 {
        let t0 = Instant::now();
        let (mut last, mut since) = (self.live(), Instant::now());
        while t0.elapsed() < Duration::from_secs(5) && since.elapsed() < Duration::from_millis(60) {
            std::thread::sleep(Duration::from_millis(5));
            let now = self.live();
            if now != last {
                last = now;
                since = Instant::now();
            }
        }
        last
    }
    fn rounds(&mut self, steps: &[Step], more: usize) -> Res {
        self.run(steps)?;
        let mut base = self.settled();
        self.run(steps)?;
        base = base.max(self.settled());
        for _ in 0..more {
            self.run(steps)?;
        }
        let t0 = Instant::now();
        while self.live() > base + SLACK {
            if t0.elapsed() > LIVE {
                let conns: usize = steps.iter().filter(|s| !s.stays).map(|s| s.times).sum();
                let bytes: usize = steps.iter().map(|s| s.times * s.data.len()).sum();
                return Err(fail(
                    "grows",
                    format!(
                        "{} bytes are allocated after two rounds of {} connections and {} bytes, {} bytes after {} more",
                        base, conns, bytes, self.live(), more
                    ),
                    self.describe(steps),
                ));
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        Ok(())
    }
    fn describe(&self, steps: &[Step]) -> String {
        let mut o = format!("configuration:\n{}\n", self.text);
        for s in steps {
            o.push_str(&format!(
                "{} times on {} port {} ({:?}), {} bytes: {}\n",
                s.times,
                if s.stays { "the connection that stays at" } else { "new connections to" },
                s.port,
                s.leave,
                s.data.len(),
                brief(&show(&String::from_utf8_lossy(&s.data)), 2000)
            ));
        }
        o
    }
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let plan = Plan { sessions: 3, ports: 2, dicts: 2, own_ports: false, threads: t.rangei(1, 3) };
    let mut e = start(t, &plan, true)?;
    let mut steps = vec![];
    let (mut conns, mut msgs) = (0, 0);
    let mut kinds = vec![];
    for _ in 0..t.len(1, 8) {
        let k = t.usize(e.sess.len());
        let port = if t.chance(3, 4) { e.sess[k].port } else { *t.pick(&e.ports) };
        if t.chance(1, 3) {
            let data = e.valid(t, k);
            let times = t.rangei(1, 400);
            msgs += times;
            steps.push(Step { port, stays: true, times, data, leave: Leave::Close });
            continue;
        }
        let mut data = vec![];
        for _ in 0..t.len(0, 5) {
            let mut one = match t.usize(3) {
                0 => e.valid(t, k),
                1 => {
                    // a session that does not exist, another one each time
                    kinds.push("unknown session, changing");
                    let m = String::from_utf8_lossy(&e.valid(t, k)).to_string();
                    m.replacen("\u{1}49=", "\u{1}49=#######", 1).into_bytes()
                }
                _ => {
                    let mut b = hostile(t, &e.sess, &e.dicts, &mut kinds);
                    b.truncate(60_000);
                    if b.len() > 100 && t.flip() {
                        let at = t.usize(b.len() - MARK.len());
                        b[at..at + MARK.len()].copy_from_slice(MARK);
                    }
                    b
                }
            };
            msgs += 1;
            data.append(&mut one);
        }
        if t.chance(1, 3) {
            let cut = t.usize(data.len() + 1);
            data.truncate(cut);
        }
        let times = t.rangei(1, 60).min(1 + 2_000_000 / (data.len() + 1));
        conns += times;
        let leave = *t.pick(&[Leave::Close, Leave::Half, Leave::Reset]);
        steps.push(Step { port, stays: false, times, data, leave });
    }
    for k in &kinds {
        ctx.label(k);
    }
    ctx.add("connections", 6 * conns as u64);
    e.rounds(&steps, 4)?;
    ctx.add("messages handed over", e.seen.load(SeqCst) as u64);
    if conns >= 20 || msgs >= 40 {
        ctx.nontrivial();
        ctx.key(&steps.iter().map(|s| (s.times, s.data.clone())).collect::<Vec<_>>());
        ctx.sample(|| brief(&e.describe(&steps), 1500));
    }
    Ok(())
}

fn fixed(read: bool, steps: impl Fn(&Engine, u16, Vec<u8>) -> Vec<Step>, least: usize) -> Res {
    let mut t = Tape::replay(vec![]);
    let plan = Plan { sessions: 1, ports: 1, dicts: 1, own_ports: true, threads: 2 };
    let mut e = start(&mut t, &plan, read)?;
    let m = e.valid(&mut t, 0);
    let s = steps(&e, e.ports[0], m);
    e.rounds(&s, 4)?;
    let t0 = Instant::now();
    while e.seen.load(SeqCst) < least {
        ensure!(t0.elapsed() < LIVE, "not-served", e.describe(&s), "{} of {} valid messages were handed over", e.seen.load(SeqCst), least);
        std::thread::sleep(Duration::from_millis(5));
    }
    Ok(())
}
fn connections(_: &mut Ctx) -> Res {
    fixed(
        true,
        |_, port, m| {
            [Leave::Close, Leave::Half]
                .into_iter()
                .map(|leave| Step { port, stays: false, times: 500, data: m.clone(), leave })
                .chain([Step { port, stays: false, times: 250, data: m[..m.len() / 2].to_vec(), leave: Leave::Reset }, Step { port, stays: false, times: 250, data: vec![], leave: Leave::Close }])
                .collect()
        },
        6000,
    )
}
fn messages(_: &mut Ctx) -> Res {
    fixed(true, |_, port, m| vec![Step { port, stays: true, times: 8000, data: m, leave: Leave::Close }], 48_000)
}
fn unknown(_: &mut Ctx) -> Res {
    fixed(
        true,
        |_, port, m| {
            let m = String::from_utf8_lossy(&m).replacen("\u{1}49=", "\u{1}49=#######", 1).into_bytes();
            vec![Step { port, stays: true, times: 8000, data: m, leave: Leave::Close }]
        },
        0,
    )
}
fn malformed(_: &mut Ctx) -> Res {
    fixed(
        true,
        |_, port, m| {
            let m = String::from_utf8_lossy(&m).replacen("\u{1}10=", "\u{1}34=#######\u{1}#######=\u{1}10=", 1).into_bytes();
            vec![Step { port, stays: true, times: 8000, data: m, leave: Leave::Close }]
        },
        0,
    )
}
/// answers nobody reads: more than a broadcast channel and the socket buffers hold
fn unread(_: &mut Ctx) -> Res {
    fixed(
        false,
        |e, port, _| {
            let s = &e.sess[0];
            let mut t = Tape::replay(vec![]);
            let long = "#".repeat(7000);
            let m = s.message(&mut t, &e.dicts[s.dict].d, &long, &GenOpt { total: 1, ..Default::default() }).text().into_bytes();
            vec![Step { port, stays: true, times: 1500, data: m, leave: Leave::Close }]
        },
        9000,
    )
}
