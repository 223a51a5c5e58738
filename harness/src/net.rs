//! Running the engine on loopback sockets: ports, a runtime per case, an application that records what it
//! is given, clients that write in chosen pieces, and the reference framing.
use crate::conf::{self, Conf, Id, Layout, Sec};
use crate::dict::{self, Dict, DictSpec, FieldDecl, Item, Profile, Style};
use crate::engine::*;
use crate::msg::{self, GMsg, GenOpt, Node};
use crate::props::c19;
use crate::tape::Tape;
use fix_rs::application::Application;
use fix_rs::data_dictionary::DataDictionary;
use fix_rs::message::Message;
use fix_rs::network::{SessionMap, SocketAcceptor};
use fix_rs::session::SessionId;
use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::path::PathBuf;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::runtime::Runtime;

/// how long a thing that must happen is waited for
pub const LIVE: Duration = Duration::from_secs(20);

/// Held while a socket that listens for a moment is open and while a process is started: a child has copies of
/// all sockets until it runs its own program.
pub static FORK: Mutex<()> = Mutex::new(());

pub fn ports(n: usize) -> Vec<u16> {
    let _f = FORK.lock().unwrap_or_else(|e| e.into_inner());
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let base = (std::process::id() as u64).wrapping_mul(7919) % 19000;
    let mut out = vec![];
    for _ in 0..30000 {
        if out.len() == n {
            break;
        }
        let p = (12000 + (base + NEXT.fetch_add(1, SeqCst)) % 19000) as u16;
        if TcpListener::bind(("127.0.0.1", p)).is_ok() {
            out.push(p);
        }
    }
    assert!(out.len() == n, "no free port");
    out
}

/// The tokio runtime a case runs the engine in, with the processor clocks of its threads.
pub struct Rt {
    rt: Option<Runtime>,
    clocks: Arc<Mutex<Vec<libc::clockid_t>>>,
    /// live bytes of the runtime's threads and of those that joined
    pub live: &'static AtomicI64,
}
impl Rt {
    pub fn new(threads: usize) -> Rt {
        let clocks: Arc<Mutex<Vec<libc::clockid_t>>> = Default::default();
        let c = clocks.clone();
        let live: &'static AtomicI64 = Box::leak(Box::new(AtomicI64::new(0)));
        let rt = tokio::runtime::Builder::new_multi_thread()
            .worker_threads(threads)
            .enable_all()
            .on_thread_start(move || {
                crate::alloc::join(live);
                let mut clk: libc::clockid_t = 0;
                unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) };
                c.lock().unwrap().push(clk);
            })
            .build()
            .expect("runtime");
        Rt { rt: Some(rt), clocks, live }
    }
    pub fn enter(&self) -> tokio::runtime::EnterGuard<'_> {
        self.rt.as_ref().unwrap().enter()
    }
    pub fn block_on<F: std::future::Future>(&self, f: F) -> F::Output {
        self.rt.as_ref().unwrap().block_on(f)
    }
    /// processor time used by the runtime's threads so far
    pub fn cpu(&self) -> Duration {
        let mut sum = Duration::ZERO;
        for clk in self.clocks.lock().unwrap().iter() {
            let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
            if unsafe { libc::clock_gettime(*clk, &mut ts) } == 0 {
                sum += Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32);
            }
        }
        sum
    }
}
impl Drop for Rt {
    fn drop(&mut self) {
        if let Some(rt) = self.rt.take() {
            rt.shutdown_timeout(Duration::from_millis(300));
        }
    }
}

// ------------------------------------------------------------------ clients

pub fn addr(port: u16) -> SocketAddr {
    ([127, 0, 0, 1], port).into()
}
/// the first connection to a port: the engine may still be about to listen
pub fn first_connect(port: u16) -> Result<TcpStream, String> {
    let t0 = Instant::now();
    loop {
        match connect(port) {
            Ok(s) => return Ok(s),
            Err(e) if t0.elapsed() > LIVE => return Err(e),
            Err(_) => std::thread::sleep(Duration::from_millis(1)),
        }
    }
}
pub fn connect(port: u16) -> Result<TcpStream, String> {
    let s = TcpStream::connect_timeout(&addr(port), LIVE).map_err(|e| e.to_string())?;
    s.set_nodelay(true).map_err(|e| e.to_string())?;
    s.set_write_timeout(Some(LIVE)).map_err(|e| e.to_string())?;
    Ok(s)
}
/// acknowledges at once: the engine's sockets wait for that between small writes
pub fn quickack(s: &TcpStream) {
    use std::os::fd::AsRawFd;
    let on: libc::c_int = 1;
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &on as *const _ as *const libc::c_void, 4);
    }
}
/// closes with a reset instead of an orderly shutdown
pub fn reset(s: TcpStream) {
    use std::os::fd::AsRawFd;
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as *const libc::c_void,
            std::mem::size_of::<libc::linger>() as u32,
        );
    }
    drop(s);
}

/// How a client cuts its bytes into writes: end offsets with the pause (microseconds) after each.
#[derive(Clone, Debug)]
pub struct Cuts(pub Vec<(usize, u64)>);
impl Cuts {
    pub fn gen(t: &mut Tape, data: &[u8]) -> Cuts {
        let n = data.len();
        let mut at: Vec<usize> = vec![];
        match t.weighted(&[2, 3, 3, 2, 2]) {
            0 => {}
            1 => {
                for _ in 0..t.len(1, 12) {
                    at.push(t.usize(n + 1));
                }
            }
            2 => {
                // inside and around the end of messages
                let ends: Vec<usize> = (0..n.saturating_sub(3)).filter(|i| &data[*i..i + 3] == b"10=").collect();
                for _ in 0..t.len(1, 10) {
                    if ends.is_empty() {
                        break;
                    }
                    at.push((*t.pick(&ends) + t.usize(9)).saturating_sub(1).min(n));
                }
            }
            3 => {
                // single bytes over a window
                let w = t.usize(n + 1);
                at.extend((w..n).take(60));
            }
            _ => {
                let step = t.rangei(1, 9000);
                at.extend((1..n).map(|k| k * step).take_while(|x| *x < n).take(200));
            }
        }
        at.push(n);
        at.sort();
        at.dedup();
        let slow = t.usize(3);
        let v = at
            .into_iter()
            .map(|e| {
                let us = match slow {
                    0 => 0,
                    1 => *t.pick(&[0u64, 20, 100]),
                    _ => *t.pick(&[0u64, 50, 300, 1500]),
                };
                (e, us)
            })
            .collect();
        Cuts(v)
    }
    pub fn write(&self, s: &mut TcpStream, data: &[u8]) -> std::io::Result<()> {
        let mut from = 0;
        for (to, us) in &self.0 {
            s.write_all(&data[from..*to])?;
            from = *to;
            if *us > 0 {
                std::thread::sleep(Duration::from_micros(*us));
            }
        }
        Ok(())
    }
}

/// reads until `want` bytes have come, the peer closes, or time runs out
pub fn read_n(s: &mut TcpStream, want: usize, within: Duration) -> Vec<u8> {
    let t0 = Instant::now();
    let mut out = vec![];
    let mut buf = vec![0u8; 1 << 16];
    while out.len() < want && t0.elapsed() < within {
        let _ = s.set_read_timeout(Some(Duration::from_millis(100)));
        quickack(s);
        match s.read(&mut buf[..(want - out.len()).min(1 << 16)]) {
            Ok(0) => break,
            Ok(n) => out.extend(&buf[..n]),
            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {}
            Err(_) => break,
        }
    }
    out
}
/// reads until the bytes so far satisfy the condition
pub fn read_until(s: &mut TcpStream, within: Duration, done: &mut dyn FnMut(&[u8]) -> bool) -> (Vec<u8>, bool) {
    let t0 = Instant::now();
    let mut out = vec![];
    let mut buf = vec![0u8; 1 << 16];
    loop {
        if done(&out) {
            return (out, true);
        }
        if t0.elapsed() > within {
            return (out, false);
        }
        let _ = s.set_read_timeout(Some(Duration::from_millis(50)));
        quickack(s);
        match s.read(&mut buf) {
            Ok(0) => return (out, false),
            Ok(n) => out.extend(&buf[..n]),
            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {}
            Err(_) => return (out, false),
        }
    }
}
/// after this side has finished writing, the engine must finish too
pub fn closed_by_peer(s: &mut TcpStream, within: Duration) -> bool {
    let _ = s.shutdown(Shutdown::Write);
    let t0 = Instant::now();
    let mut buf = vec![0u8; 1 << 16];
    while t0.elapsed() < within {
        let _ = s.set_read_timeout(Some(Duration::from_millis(100)));
        quickack(s);
        match s.read(&mut buf) {
            Ok(0) => return true,
            Ok(_) => {}
            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {}
            Err(_) => return true,
        }
    }
    false
}

/// The messages of a byte stream, each ending with its first field of tag 10; and what is left over.
pub fn frames(data: &[u8]) -> (Vec<Vec<u8>>, Vec<u8>) {
    let (mut out, mut cur, mut field) = (vec![], vec![], 0);
    for b in data {
        cur.push(*b);
        if *b == 1 {
            if cur[field..].starts_with(b"10=") {
                out.push(std::mem::take(&mut cur));
            }
            field = cur.len();
        }
    }
    (out, cur)
}

// ------------------------------------------------------------------ a world: engine, sessions, application

pub struct Sess {
    pub id: Id,
    pub sid: SessionId,
    pub port: u16,
    pub dict: usize,
}
pub struct DictOf {
    pub spec: DictSpec,
    pub d: Dict,
    pub dd: Arc<DataDictionary>,
    pub file: String,
}
pub struct Got {
    pub sid: SessionId,
    pub msg: Message,
    pub map: SessionMap,
}
pub type Reply = Arc<dyn Fn(&SessionId, &SessionMap, &Message) + Send + Sync>;

pub struct App {
    tx: Mutex<Sender<Got>>,
    reply: Option<Reply>,
}
impl App {
    /// answers, and keeps nothing
    pub fn new(reply: Reply) -> App {
        App { tx: Mutex::new(channel().0), reply: Some(reply) }
    }
}
impl Application for App {
    fn to_app(_msg: String) {}
    fn from_app(&self, session_id: &SessionId, sessions: &SessionMap, msg: Message) {
        if let Some(r) = &self.reply {
            r(session_id, sessions, &msg);
        }
        let _ = self.tx.lock().unwrap_or_else(|e| e.into_inner()).send(Got {
            sid: session_id.clone(),
            msg,
            map: sessions.clone(),
        });
    }
}
pub struct World {
    pub rx: Mutex<Receiver<Got>>,
    pub sess: Vec<Sess>,
    pub dicts: Vec<DictOf>,
    pub ports: Vec<u16>,
    pub text: String,
    pub rt: Rt,
    dir: PathBuf,
}
impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

pub const ID_TAGS: [u32; 7] = [8, 56, 57, 143, 49, 50, 142];

/// a dictionary whose header can carry every identity part and a sequence number; sometimes the shipped one
pub fn gen_dict(t: &mut Tape) -> (DictSpec, Dict) {
    if t.chance(1, 6) {
        return dict::fix43().clone();
    }
    let (mut spec, _) = dict::gen(t, Profile::Wire);
    let tags = [34u32, 49, 50, 52, 56, 57, 142, 143];
    let names: Vec<String> = tags
        .iter()
        .map(|n| match spec.fields.iter().find(|f| f.num == *n) {
            Some(f) => f.name.clone(),
            None => {
                let name = format!("N{}", n);
                spec.fields.push(FieldDecl { num: *n, name: name.clone(), ty: "STRING".into(), values: vec![] });
                name
            }
        })
        .collect();
    fn strip(items: &mut Vec<Item>, names: &[String]) {
        items.retain(|i| match i {
            Item::Field { name, .. } | Item::Group { name, .. } => !names.contains(name),
            _ => true,
        });
        for i in items.iter_mut() {
            if let Item::Group { items, .. } = i {
                strip(items, names)
            }
        }
        items.retain(|i| !matches!(i, Item::Group { items, .. } if items.is_empty()));
    }
    // components of the header are written out
    while let Some(i) = spec.header.iter().position(|i| matches!(i, Item::Comp { .. })) {
        if let Item::Comp { name, .. } = spec.header.remove(i) {
            let inner = spec.comps.iter().find(|c| c.0 == name).expect("component").1.clone();
            spec.header.splice(i..i, inner);
        }
    }
    strip(&mut spec.header, &names);
    for n in &names {
        spec.header.push(Item::Field { name: n.clone(), req: false });
    }
    let d = spec.resolve().expect("patched dictionary");
    (spec, d)
}

pub struct Plan {
    pub sessions: usize,
    pub ports: usize,
    pub dicts: usize,
    /// every session has a port of its own
    pub own_ports: bool,
    pub threads: usize,
}

/// A configuration with its dictionaries, not started yet.
pub struct Setup {
    pub sess: Vec<Sess>,
    pub dicts: Vec<DictOf>,
    pub ports: Vec<u16>,
    pub text: String,
    pub conf: Conf,
    pub dir: PathBuf,
}

/// With `program` the files are named relative to the directory, as the executable finds them, and the first
/// dictionary is where the engine looks by default.
pub fn setup(t: &mut Tape, plan: &Plan, program: bool) -> Result<Setup, Failure> {
    let broken = |e: String| fail("broken-oracle", e, "");
    let dir = crate::props::c22::dir();
    let mut dicts = vec![];
    for i in 0..t.rangei(1, plan.dicts.max(1)) {
        let (spec, d) = gen_dict(t);
        let xml = spec.to_xml(&Style::plain());
        let name = if program && i == 0 { "resources/FIX43.xml".into() } else { format!("d{}.xml", i) };
        let path = dir.join(&name);
        std::fs::create_dir_all(path.parent().unwrap()).map_err(|e| broken(e.to_string()))?;
        std::fs::write(&path, &xml).map_err(|e| broken(e.to_string()))?;
        let dd = guard(|| DataDictionary::from_xml(&path)).map_err(|p| fail("panic", format!("loading a dictionary panics: {}", p), xml))?;
        let file = if program { name } else { path.display().to_string() };
        dicts.push(DictOf { spec, d, dd: Arc::new(dd), file });
    }
    // now and then more than any plausible limit
    let many = plan.sessions > 3 && t.chance(1, if program { 120 } else { 30 });
    let n = if many { t.rangei(9, if program { 20 } else { 40 }) } else { t.rangei(1, plan.sessions) };
    let np = if plan.own_ports { n } else if many { t.rangei(1, n.min(20)) } else { t.rangei(1, plan.ports.min(n)) };
    let ports = ports(np);
    let mut def = Sec { default: true, kv: vec![] };
    def.set("connection_type", "acceptor");
    let begin = *t.pick(&conf::BEGINS);
    def.set("begin_string", begin);
    if t.chance(1, 3) {
        def.set("sender_comp_id", conf::part(t));
    }
    if np == 1 && t.flip() {
        def.set("socket_accept_port", ports[0].to_string());
    }
    if t.chance(1, 3) {
        def.set("data_dictionary", dicts[0].file.clone());
    }
    let mut c = Conf { secs: vec![def] };
    let mut ids: Vec<Id> = vec![];
    let mut info = vec![];
    for i in 0..n {
        let mut s = Sec::default();
        if t.chance(1, 4) {
            s.set("begin_string", *t.pick(&conf::BEGINS));
        }
        if c.secs[0].get("sender_comp_id").is_none() || t.chance(1, 3) {
            s.set("sender_comp_id", conf::part(t));
        }
        s.set("target_comp_id", conf::part(t));
        for k in ["sender_sub_id", "sender_location_id", "target_sub_id", "target_location_id"] {
            if t.chance(1, 4) {
                s.set(k, conf::part(t));
            }
        }
        let p = if i < np { i } else { t.usize(np) };
        if c.secs[0].get("socket_accept_port").is_none() {
            s.set("socket_accept_port", ports[p].to_string());
        }
        let mut di = 0;
        let by_default = c.secs[0].get("data_dictionary").is_some() || program;
        if !by_default || t.flip() {
            di = t.usize(dicts.len());
            s.set("data_dictionary", dicts[di].file.clone());
        }
        if ids.contains(&c.id(&s)) {
            s.set("target_comp_id", format!("UNIQUE{}", i));
        }
        ids.push(c.id(&s));
        info.push((ports[p], di));
        c.secs.push(s);
    }
    let text = c.render(&Layout::plain());
    let sess = ids
        .into_iter()
        .zip(info)
        .map(|(id, (port, dict))| Sess { sid: conf::build_id(&id), id, port, dict })
        .collect();
    Ok(Setup { sess, dicts, ports, text, conf: c, dir })
}

impl Sess {
    /// a message the peer of this session would send, ending with its CheckSum; seq goes into tag 34
    pub fn message(&self, t: &mut Tape, d: &Dict, seq: &str, o: &GenOpt) -> GMsg {
        let types: Vec<&String> = d.msgs.keys().collect();
        let mtype = (*t.pick(&types)).clone();
        let mut m = msg::gen_msg_of(t, d, &mtype, o);
        m.header.retain(|n| n.tag != 34 && !ID_TAGS.contains(&n.tag) || n.tag == 8);
        m.header[0].val = self.id[0].clone().unwrap();
        let mut at = m.header.len();
        for (i, tag) in ID_TAGS.iter().enumerate().skip(1) {
            if let Some(v) = &self.id[i] {
                if t.chance(1, 4) {
                    at = 3 + t.usize(m.header.len() - 2);
                }
                at = at.min(m.header.len());
                // never between a group's count and its instances: nodes are whole groups
                m.header.insert(at, Node::field(*tag, v));
            }
        }
        let at = 3 + t.usize(m.header.len() - 2);
        m.header.insert(at, Node::field(34, seq));
        m.trailer.retain(|n| n.tag != 10);
        m.trailer.push(Node::field(10, &format!("{:03}", t.below(256))));
        m
    }
}

impl World {
    pub fn start(t: &mut Tape, plan: &Plan, reply: Option<Reply>) -> Result<World, Failure> {
        let Setup { sess, dicts, ports, text, dir, .. } = setup(t, plan, false)?;
        let props = c19::load(&text).map_err(|m| fail("refused", format!("a valid configuration is refused: {}", m), text.clone()))?;
        let (tx, rx) = channel();
        let rt = Rt::new(plan.threads);
        let app = App { tx: Mutex::new(tx), reply };
        guard(|| {
            let _g = rt.enter();
            let mut acc = SocketAcceptor::new(props, app);
            acc.start_accepting_connections();
        })
        .map_err(|p| fail("start", format!("starting the engine panics: {}", p), text.clone()))?;
        Ok(World { rx: Mutex::new(rx), sess, dicts, ports, text, rt, dir })
    }
    /// one connection per port, so that every port is known to listen; they stay open
    pub fn await_ports(&self) -> Result<Vec<TcpStream>, Failure> {
        self.ports
            .iter()
            .map(|p| first_connect(*p).map_err(|e| fail("refused-connection", format!("port {} does not accept connections: {}", p, e), self.text.clone())))
            .collect()
    }
    /// a message the peer of session k would send, ending with its CheckSum; seq goes into tag 34
    pub fn message(&self, t: &mut Tape, k: usize, seq: &str, o: &GenOpt) -> GMsg {
        let s = &self.sess[k];
        s.message(t, &self.dicts[s.dict].d, seq, o)
    }
    /// the engine's own reading of a text under the dictionary of session k
    pub fn parsed(&self, k: usize, text: &str) -> Option<Message> {
        msg::parse(text, &self.dicts[self.sess[k].dict].dd).ok()?.ok()
    }
    pub fn by_sid(&self, sid: &SessionId) -> Option<usize> {
        self.sess.iter().position(|s| s.sid == *sid)
    }
    pub fn next(&self, within: Duration) -> Option<Got> {
        match self.rx.lock().unwrap_or_else(|e| e.into_inner()).recv_timeout(within) {
            Ok(g) => Some(g),
            Err(RecvTimeoutError::Timeout) | Err(RecvTimeoutError::Disconnected) => None,
        }
    }
}
