//! No traffic from one peer stops the engine from serving the others.
use super::c01::mutate_d;
use crate::engine::*;
use crate::ensure;
use crate::msg::{print, GenOpt};
use crate::net::*;
use crate::tape::Tape;
use fix_rs::application::DefaultApplication;
use fix_rs::message::{Message, StringField};
use fix_rs::network::{SessionMap, SocketAcceptor};
use fix_rs::session::{Session, SessionId};
use std::io::Write;
use std::net::TcpStream;
use std::sync::Arc;
use std::time::{Duration, Instant};

pub static PROP: Prop = Prop {
    id: "C27",
    rule: "A case runs the acceptor with 1-3 sessions and an application that answers every message, opens a good connection per port, then lets \
1-5 hostile clients, one after another or at once, send generated traffic (damaged or truncated messages, group counts up to 2^64, arbitrary and non-UTF-8 bytes, texts of \
fewer than three fields, unknown identities, megabytes without a delimiter, many valid messages whose answers nobody reads) and leave by closing, \
half-closing, resetting or staying. Afterwards a valid message on a new connection and on the good one must reach the application and its \
answer must come back. Non-trivial: hostile traffic of at least two kinds; distinct by traffic.",
    quick: 3_500,
    thorough: 60_000,
    threads: 8,
    net: true,
    case,
    fixed: &[("shipped configuration and default application", shipped), ("short and odd texts", odd), ("traffic while the engine starts", starting), ("hundreds of every kind", hundreds)],
    assumptions: &[
        "a probe is repeated up to four times when its answer does not come within 5 s, since more than 32 pending answers of a session may be dropped (known finding of C28)",
        "streams end: a peer that sends without end is not modelled",
    ],
};

#[derive(Debug, Clone, Copy, PartialEq)]
enum Leave {
    Close,
    Reset,
    Half,
    Stay,
}

pub fn answer() -> Reply {
    Arc::new(|sid: &SessionId, map: &SessionMap, m: &Message| {
        let seq = m.header().get_field::<String>(34).unwrap_or_default();
        let mut r = Message::new();
        r.header_mut().set_field(StringField::new(8, "FIX.4.3"));
        r.header_mut().set_field(StringField::new(35, "0"));
        r.set_field(StringField::new(58, &format!("re:{}", seq)));
        Session::sync_send_to_target(sid, map, r);
    })
}

pub fn hostile(t: &mut Tape, sess: &[Sess], dicts: &[DictOf], kinds: &mut Vec<&'static str>) -> Vec<u8> {
    let k = t.usize(sess.len());
    let d = &dicts[sess[k].dict].d;
    let base = sess[k].message(t, d, "66", &GenOpt { total: 30, ..Default::default() });
    let mut toks = base.tokens();
    match t.weighted(&[4, 3, 2, 3, 2, 2, 1, 2, 2]) {
        0 => {
            kinds.push("damaged");
            let n = t.rangei(1, 4);
            mutate_d(t, &mut toks, d, n);
            let mut s = print(&toks);
            if t.chance(1, 3) {
                super::c01::damage(t, &mut s);
            }
            if t.chance(3, 4) {
                s.push_str("10=000\u{1}");
            }
            s.into_bytes()
        }
        1 => {
            kinds.push("truncated");
            let mut b = base.text().into_bytes();
            b.truncate(t.usize(b.len()));
            if t.flip() {
                b.extend(b"\x0110=1\x01");
            }
            b
        }
        2 => {
            kinds.push("group count");
            let n = *t.pick(&["4294967295", "99999999", "18446744073709551615", "1000000", "-1", "65536"]);
            let groups: Vec<usize> = (0..toks.len())
                .filter(|i| toks[*i].0.parse::<u32>().is_ok_and(|g| d.msgs.values().any(|l| l.get(g).is_some_and(|f| f.group.is_some()))))
                .collect();
            let i = if groups.is_empty() { t.usize(toks.len()) } else { *t.pick(&groups) };
            toks[i].1 = n.to_string();
            print(&toks).into_bytes()
        }
        3 => {
            kinds.push("bytes");
            let n = t.len(1, 400);
            let mut b: Vec<u8> = (0..n).map(|_| *t.pick(&[0u8, 1, 1, b'1', b'0', b'=', 0xff, 0xc3, 0x80, b'8', b'\n', 0xf0, 0xed])).collect();
            if t.flip() {
                b.extend(b"\x0110=\x01");
            }
            b
        }
        4 => {
            kinds.push("short");
            t.pick(&[
                "10=000\u{1}", "\u{1}10=\u{1}", "8=\u{1}10=\u{1}", "\u{1}\u{1}\u{1}10=1\u{1}", "8=FIX.4.3\u{1}9=1\u{1}10=1\u{1}", "8=FIX.4.3\u{1}9=1\u{1}35=A\u{1}10=1\u{1}",
                "49=A\u{1}56\u{1}10=1\u{1}", "=\u{1}=\u{1}=\u{1}10=\u{1}", "10=1\u{1}10=1\u{1}10=1\u{1}", "8\u{1}49\u{1}56\u{1}50\u{1}57\u{1}142\u{1}143\u{1}10=",
                "8=é\u{1}49=\u{1}56=é\u{1}10=é\u{1}", "8\u{1}10=1\u{1}", "49=\u{1}10=\u{1}", "8=\u{1}49\u{1}10=\u{1}",
            ])
            .as_bytes()
            .to_vec()
        }
        5 => {
            kinds.push("unknown session");
            for x in toks.iter_mut() {
                if x.0 == "49" || x.0 == "56" {
                    x.1.push_str("?!");
                }
            }
            print(&toks).into_bytes()
        }
        6 => {
            kinds.push("large");
            let n = t.rangei(1000, 1_500_000);
            let mut b = b"8=FIX.4.3\x019=1\x0135=A\x0158=".to_vec();
            b.resize(n, *t.pick(&[b'x', 1, b'1', 0xff]));
            if t.flip() {
                b.extend(b"\x0110=1\x01");
            }
            b
        }
        7 => {
            kinds.push("many valid");
            let n = t.rangei(1, 80);
            base.text().repeat(n).into_bytes()
        }
        _ => {
            kinds.push("identity parts");
            // fields of the identity missing, empty or without '='
            let mut out = String::new();
            for (a, b) in &toks {
                let idt = ["8", "49", "56", "50", "57", "142", "143"].contains(&a.as_str());
                match if idt { t.usize(4) } else { 0 } {
                    0 => out.push_str(&format!("{}={}\u{1}", a, b)),
                    1 => {}
                    2 => out.push_str(&format!("{}\u{1}", a)),
                    _ => out.push_str(&format!("{}=\u{1}", a)),
                }
            }
            out.into_bytes()
        }
    }
}

/// a valid message on this connection must reach the application and be answered there
fn probe(t: &mut Tape, w: &World, s: &mut TcpStream, k: usize, name: &str, describe: &dyn Fn() -> String) -> Res {
    let mut delivered = false;
    for i in 0..4 {
        let seq = format!("{}.{}", name, i);
        let text = w.message(t, k, &seq, &GenOpt { total: 8, ..Default::default() }).text();
        s.write_all(text.as_bytes())
            .map_err(|e| fail("connection", format!("{}: cannot send a valid message: {}", name, e), describe()))?;
        let t0 = Instant::now();
        delivered = false;
        while t0.elapsed() < LIVE && !delivered {
            match w.next(Duration::from_millis(200)) {
                Some(g) => delivered = g.sid == w.sess[k].sid && g.msg.header().get_field::<String>(34).ok() == Some(seq.clone()),
                None => {}
            }
        }
        ensure!(delivered, "not-served", describe(), "{}: after this traffic the valid message {} is not handed to the application within {:?}", name, show(&text), LIVE);
        let want = format!("58=re:{}\u{1}", seq).into_bytes();
        let (_, ok) = read_until(s, Duration::from_secs(5), &mut |b| b.windows(want.len()).any(|x| x == want));
        if ok {
            return Ok(());
        }
    }
    let _ = delivered;
    Err(fail("no-answer", format!("{}: after this traffic the answers to four valid messages of {} do not arrive on their connection", name, w.sess[k].sid), describe()))
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let plan = Plan { sessions: 3, ports: 3, dicts: 2, own_ports: false, threads: t.rangei(1, 3) };
    let w = World::start(t, &plan, Some(answer()))?;
    let mut good = w.await_ports()?;
    let mut kinds = vec![];
    let mut plans: Vec<(u16, Vec<u8>, Cuts, Leave)> = vec![];
    for _ in 0..t.rangei(1, 5) {
        let mut data = vec![];
        for _ in 0..t.len(0, 6) {
            data.extend(hostile(t, &w.sess, &w.dicts, &mut kinds));
        }
        let cuts = Cuts::gen(t, &data);
        let leave = *t.pick(&[Leave::Close, Leave::Reset, Leave::Half, Leave::Stay]);
        ctx.label(&format!("{:?}", leave));
        plans.push((*t.pick(&w.ports), data, cuts, leave));
    }
    let together = t.flip();
    for k in &kinds {
        ctx.label(k);
    }
    kinds.sort();
    kinds.dedup();
    if kinds.len() > 1 {
        ctx.nontrivial();
        ctx.key(&plans.iter().map(|p| p.1.clone()).collect::<Vec<_>>());
        ctx.sample(|| plans.iter().map(|p| format!("{} then {:?}", brief(&String::from_utf8_lossy(&p.1), 200), p.3)).collect::<Vec<_>>().join("; "));
    }
    let describe = || {
        let mut o = format!("configuration:\n{}\n", w.text);
        for (i, p) in plans.iter().enumerate() {
            o.push_str(&format!("hostile client {} to port {} ({} bytes, {} pieces, {:?}): {}\n", i, p.0, p.1.len(), p.2.0.len(), p.3, brief(&String::from_utf8_lossy(&p.1), 3000)));
        }
        o
    };
    let act = |p: &(u16, Vec<u8>, Cuts, Leave)| -> Option<TcpStream> {
        let mut s = connect(p.0).ok()?;
        let _ = s.set_write_timeout(Some(Duration::from_secs(3)));
        let _ = p.2.write(&mut s, &p.1);
        match p.3 {
            Leave::Close => None,
            Leave::Reset => {
                reset(s);
                None
            }
            Leave::Half => {
                let _ = s.shutdown(std::net::Shutdown::Write);
                Some(s)
            }
            Leave::Stay => Some(s),
        }
    };
    let kept: Vec<Option<TcpStream>> = if together {
        std::thread::scope(|sc| {
            let hs: Vec<_> = plans.iter().map(|p| sc.spawn(|| act(p))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or(None)).collect()
        })
    } else {
        plans.iter().map(act).collect()
    };
    let k = t.usize(w.sess.len());
    let port = w.sess[k].port;
    let mut fresh = connect(port).map_err(|e| fail("refused-connection", format!("after this traffic port {} does not accept: {}", port, e), describe()))?;
    probe(t, &w, &mut fresh, k, "new connection", &describe)?;
    let at = w.ports.iter().position(|p| *p == port).unwrap();
    probe(t, &w, &mut good[at], k, "older connection", &describe)?;
    let k2 = t.usize(w.sess.len());
    if w.sess[k2].port != port {
        let at = w.ports.iter().position(|p| *p == w.sess[k2].port).unwrap();
        probe(t, &w, &mut good[at], k2, "other port", &describe)?;
    }
    drop(kept);
    Ok(())
}

/// the program as it ships: FixConfig.toml (on another port), FIX43.xml and the default application
fn shipped(_: &mut Ctx) -> Res {
    std::env::set_current_dir(crate::dict::repo()).map_err(|e| fail("broken-oracle", e.to_string(), ""))?;
    let text = std::fs::read_to_string("src/FixConfig.toml").map_err(|e| fail("broken-oracle", e.to_string(), ""))?;
    let port = ports(1)[0];
    let text = text.replace("10114", &port.to_string());
    let props = super::c19::load(&text).map_err(|e| fail("start", format!("the shipped configuration is refused: {}", e), text.clone()))?;
    let rt = Rt::new(2);
    guard(|| {
        let _g = rt.enter();
        SocketAcceptor::new(props, DefaultApplication::new()).start_accepting_connections();
    })
    .map_err(|p| fail("start", format!("starting the engine panics: {}", p), text.clone()))?;
    let logon = "8=FIX.4.3|9=73|35=A|34=0|49=BANZAI|52=20221006-08:43:36.522|56=FIXIMULATOR|98=0|108=30|10=061|".replace('|', "\u{1}");
    let mut first = first_connect(port).map_err(|e| fail("refused-connection", e, text.clone()))?;
    let bad = [
        logon.replace("BANZAI", "NOBODY"),
        logon.replace("98=0\u{1}", "98=0\u{1}98=1\u{1}"),
        logon.replace("35=A", "35=??"),
        logon.replace("34=0", "0=0"),
        logon.replace("9=73\u{1}", ""),
        "10=000\u{1}".to_string(),
    ];
    for i in 0..30 {
        let mut s = connect(port).map_err(|e| fail("refused-connection", e, text.clone()))?;
        let _ = s.write_all(bad[i % bad.len()].as_bytes());
        let _ = s.write_all(logon[..i * 3].as_bytes());
        if i % 2 == 0 {
            reset(s)
        }
    }
    for name in ["first connection", "new connection"] {
        let mut new;
        let s = if name == "new connection" {
            new = connect(port).map_err(|e| fail("refused-connection", e, text.clone()))?;
            &mut new
        } else {
            &mut first
        };
        let _ = s.write_all(logon.as_bytes());
        let (b, ok) = read_until(s, LIVE, &mut |b| !frames(b).0.is_empty());
        let got = show(&String::from_utf8_lossy(&b));
        ensure!(ok && got.contains("|35=A|") && got.contains("|49=FIXIMULATOR|") && got.contains("|56=BANZAI|"), "no-answer", show(&logon),
            "{}: the logon of the shipped configuration is answered with {:?}", name, got);
    }
    Ok(())
}

fn odd(ctx: &mut Ctx) -> Res {
    // every prefix of a message closed with a CheckSum field, on one connection, then a probe
    let mut t = Tape::replay(vec![]);
    let _ = ctx;
    let plan = Plan { sessions: 1, ports: 1, dicts: 1, own_ports: true, threads: 2 };
    let w = World::start(&mut t, &plan, Some(answer()))?;
    let mut s = w.await_ports()?.remove(0);
    let text = w.message(&mut t, 0, "5", &GenOpt::default()).text();
    let describe = || format!("every prefix of {} followed by 10=0", show(&text));
    for i in 0..=text.len() {
        for end in ["10=0\u{1}", "\u{1}10=0\u{1}", "=\u{1}10=0\u{1}"] {
            s.write_all(format!("{}{}", &text[..i], end).as_bytes()).map_err(|e| fail("connection", e.to_string(), describe()))?;
        }
    }
    probe(&mut t, &w, &mut s, 0, "same connection", &describe)
}

/// peers that are there while the engine still opens its ports, and name sessions of other ports
fn starting(_: &mut Ctx) -> Res {
    let broken = |e: String| fail("broken-oracle", e, "");
    for round in 0..3 {
        let n = 300;
        let mut t = Tape::replay(vec![]);
        let (spec, d) = gen_dict(&mut t);
        let dir = super::c22::dir();
        let file = dir.join("d.xml");
        std::fs::write(&file, spec.to_xml(&crate::dict::Style::plain())).map_err(|e| broken(e.to_string()))?;
        let ports = ports(n);
        let mut text = format!("[Default]\nconnection_type = acceptor\nbegin_string = FIX.4.3\ntarget_comp_id = T\ndata_dictionary = {}\n", file.display());
        for (i, p) in ports.iter().enumerate() {
            text.push_str(&format!("[Session]\nsender_comp_id = S{}\nsocket_accept_port = {}\n", i, p));
        }
        let props = super::c19::load(&text);
        let mtype = d.msgs.keys().next().cloned().unwrap_or_default();
        let msg = |to: usize, seq: &str| format!("8=FIX.4.3\u{1}9=1\u{1}35={}\u{1}49=T\u{1}56=S{}\u{1}34={}\u{1}10=000\u{1}", mtype, to, seq);
        let rt = Rt::new(2);
        let acc = {
            let _g = rt.enter();
            props.map(|p| guard(|| SocketAcceptor::new(p, crate::net::App::new(answer()))))
        };
        let _ = std::fs::remove_dir_all(&dir);
        let text = format!("{} ports opened while peers connect; configuration:\n{}", n, brief(&text, 600));
        let mut acc = acc.map_err(|e| fail("start", e, text.clone()))?.map_err(|e| fail("start", e, text.clone()))?;
        let stop = std::sync::atomic::AtomicBool::new(false);
        std::thread::scope(|sc| -> Res {
            for k in 0..4usize {
                let (ports, msg, stop) = (&ports, &msg, &stop);
                sc.spawn(move || {
                    let mut i = k * 71 + round;
                    let mut keep = vec![];
                    while !stop.load(std::sync::atomic::Ordering::SeqCst) && keep.len() < 200 {
                        i += 1;
                        if let Ok(mut s) = TcpStream::connect(addr(ports[i * 13 % n])) {
                            let all: String = (0..4).map(|j| msg((i * 13 + 75 * j + j) % n, "7")).collect();
                            let _ = s.write_all(all.as_bytes());
                            keep.push(s);
                        }
                    }
                });
            }
            std::thread::sleep(Duration::from_millis(2));
            let r = guard(|| {
                let _g = rt.enter();
                acc.start_accepting_connections();
            });
            std::thread::sleep(Duration::from_millis(30));
            stop.store(true, std::sync::atomic::Ordering::SeqCst);
            r.map_err(|p| fail("start", format!("starting the engine panics: {}", p), text.clone()))
        })?;
        for i in [0, n / 2, n - 1] {
            let mut s = first_connect(ports[i]).map_err(|e| fail("refused-connection", e, text.clone()))?;
            let mut ok = false;
            for a in 0..4 {
                let seq = format!("probe{}", a);
                s.write_all(msg(i, &seq).as_bytes()).map_err(|e| fail("connection", e.to_string(), text.clone()))?;
                let want = format!("58=re:{}\u{1}", seq).into_bytes();
                ok |= read_until(&mut s, Duration::from_secs(5), &mut |b| b.windows(want.len()).any(|x| x == want)).1;
                if ok {
                    break;
                }
            }
            ensure!(ok, "not-served", text, "valid messages of session S{} are not answered after traffic that came while the engine was starting", i);
        }
    }
    Ok(())
}

/// one hostile message is ignored; so are a thousand of them, on one connection and on many
fn hundreds(ctx: &mut Ctx) -> Res {
    let plan = Plan { sessions: 1, ports: 1, dicts: 1, own_ports: true, threads: 2 };
    let w = World::start(&mut Tape::replay(vec![]), &plan, Some(answer()))?;
    let mut good = w.await_ports()?.remove(0);
    let mut t = Tape::random(1, "C27", 0, 0);
    let port = w.ports[0];
    // per kind the first 700 messages
    let mut by: std::collections::BTreeMap<&'static str, Vec<Vec<u8>>> = Default::default();
    for _ in 0..12_000 {
        let mut kind = vec![];
        let b = hostile(&mut t, &w.sess, &w.dicts, &mut kind);
        let list = by.entry(kind[0]).or_default();
        if list.len() < 700 && (kind[0] != "large" || list.len() < 3) {
            list.push(b);
        }
    }
    for (kind, list) in &by {
        let describe = || format!("configuration:\n{}\n{} messages of the kind {:?} on one connection, then as many connections with one each; the first: {}", w.text, list.len(), kind,
            brief(&String::from_utf8_lossy(&list[0]), 1000));
        let fresh = || connect(port).map_err(|e| fail("refused-connection", format!("after this traffic port {} does not accept: {}", port, e), describe()));
        let mut s = fresh()?;
        // whatever the answers are, somebody reads them
        let mut r = s.try_clone().map_err(|e| fail("broken-oracle", e.to_string(), ""))?;
        let drain = std::thread::spawn(move || {
            use std::io::Read;
            let mut b = vec![0u8; 1 << 16];
            let _ = r.set_read_timeout(None);
            while matches!(r.read(&mut b), Ok(n) if n > 0) {}
        });
        for b in list {
            s.write_all(b).map_err(|e| fail("connection", format!("the connection breaks: {}", e), describe()))?;
        }
        // ends what is incomplete
        s.write_all(b"\x0110=0\x01").map_err(|e| fail("connection", format!("the connection breaks: {}", e), describe()))?;
        probe(&mut t, &w, &mut fresh()?, 0, "new connection", &describe)?;
        ensure!(closed_by_peer(&mut s, LIVE), "not-released", describe(), "the connection of this traffic is not closed after its peer has");
        let _ = drain.join();
        for (i, b) in list.iter().enumerate() {
            let mut s = fresh()?;
            let _ = s.write_all(b);
            // (an orderly close leaves the port in use for a while)
            if i % 10 == 0 {
                let _ = closed_by_peer(&mut s, LIVE);
            }
            reset(s);
        }
        probe(&mut t, &w, &mut fresh()?, 0, "new connection", &describe)?;
        probe(&mut t, &w, &mut good, 0, "older connection", &describe)?;
        ctx.add("hostile messages of the fixed case", 2 * list.len() as u64);
    }
    ensure!(by.len() == 9, "broken-oracle", "", "kinds {:?}", by.keys());
    Ok(())
}
