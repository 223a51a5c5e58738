//! Inbound messages reach the application once, for their own session.
use super::c01::mutate_d;
use crate::engine::*;
use crate::ensure;
use crate::msg::{self, print, GenOpt};
use crate::net::*;
use crate::tape::Tape;
use fix_rs::message::Message;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::time::Duration;

pub static PROP: Prop = Prop {
    id: "C26",
    rule: "A case configures 1-5 (one case in thirty: 9-40) sessions of nearly colliding identities on 1-3 ports with 1-3 generated dictionaries, starts the acceptor, \
and lets 1-4 connections send generated streams mixing messages of any session (also over another session's port), messages with \
damaged fields, bursts of up to 400 messages to an application that falls behind, messages of unknown or reversed identities and a final incomplete one, cut into pieces. The calls of \
Application::from_app must be an interleaving of the per-connection sequences of messages that parse under the dictionary of the session \
they name, each under that session's identity. Non-trivial: a case with at least two \
sessions, a valid and an undeliverable message; distinct by streams.",
    quick: 6_000,
    thorough: 60_000,
    threads: 8,
    net: true,
    case,
    fixed: &[("four connections of five thousand messages each", sustained)],
    assumptions: &[
        "what parses is decided by Message::from_str on the sent text (properties C02-C07 check it)",
        "texts are UTF-8; equal messages of a case are on one connection",
        "undelivered means: not called until a later valid message on every connection has been",
    ],
};

fn fp(m: &Message, u: &std::collections::BTreeSet<u32>) -> Result<String, String> {
    Ok(format!("{:?}", msg::extract(m, u)?))
}

struct Expect {
    k: usize,
    text: String,
    /// the parsed structure: the order in which a message prints its fields is not fixed
    xm: String,
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let plan = Plan { sessions: 5, ports: 3, dicts: 3, own_ports: false, threads: t.rangei(1, 3) };
    // an application that falls behind: more messages pending than any queue holds
    let burst = t.chance(1, 12);
    let busy: Option<Reply> = burst.then(|| -> Reply {
        let first = std::sync::atomic::AtomicBool::new(true);
        let ms = *t.pick(&[5u64, 20, 60]);
        std::sync::Arc::new(move |_, _, _| {
            if first.swap(false, std::sync::atomic::Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(ms));
            }
        })
    });
    let w = World::start(t, &plan, busy)?;
    let universe: std::collections::BTreeSet<u32> = w.dicts.iter().flat_map(|d| d.d.universe()).collect();
    let nconn = t.rangei(1, 4);
    let mut streams: Vec<(u16, String)> = vec![];
    let mut seq = 0;
    let (mut valid, mut bad) = (0, 0);
    for c in 0..nconn {
        let port = *t.pick(&w.ports);
        let mut s = String::new();
        let here: Vec<usize> = (0..w.sess.len()).filter(|k| w.sess[*k].port == port).collect();
        for _ in 0..t.len(0, 10) {
            seq += 1;
            let k = if t.chance(3, 4) && !here.is_empty() { *t.pick(&here) } else { t.usize(w.sess.len()) };
            let m = w.message(t, k, &format!("{}-{}", c, seq), &GenOpt { total: 30, ..Default::default() });
            match t.weighted(&[5, 2, 1, 1]) {
                0 => {
                    s.push_str(&m.text());
                    valid += 1;
                    if t.chance(1, 5) {
                        // sent again: another message of the same text
                        let twice = t.rangei(1, 3);
                        for _ in 0..twice {
                            s.push_str(&m.text());
                        }
                        ctx.label("the same message again");
                    } else if t.chance(1, 12) && !s.is_empty() {
                        let (all, _) = frames(s.as_bytes());
                        let again = String::from_utf8(t.pick(&all).clone()).expect("utf-8");
                        s.push_str(&again);
                    }
                }
                1 => {
                    bad += 1;
                    let mut toks = m.tokens();
                    let n = t.rangei(1, 2);
                    mutate_d(t, &mut toks, &w.dicts[w.sess[k].dict].d, n);
                    s.push_str(&print(&toks));
                }
                2 => {
                    // an identity that is not configured, or the wrong way round
                    bad += 1;
                    let mut m = m;
                    if t.flip() {
                        for n in m.header.iter_mut() {
                            n.tag = match n.tag {
                                49 => 56,
                                56 => 49,
                                50 => 57,
                                57 => 50,
                                142 => 143,
                                143 => 142,
                                x => x,
                            };
                        }
                    } else {
                        let hs: Vec<usize> = (0..m.header.len()).filter(|i| ID_TAGS.contains(&m.header[*i].tag)).collect();
                        let i = *t.pick(&hs);
                        match t.usize(3) {
                            0 => m.header[i].val.push('x'),
                            1 => m.header[i].val = m.header[i].val.to_lowercase() + "y",
                            _ => {
                                let j = *t.pick(&hs);
                                m.header[i].val = m.header[j].val.clone();
                            }
                        }
                    }
                    s.push_str(&m.text());
                }
                _ => {
                    // an optional part too much
                    bad += 1;
                    let mut m = m;
                    let tag = *t.pick(&[50u32, 57, 142, 143]);
                    if !m.header.iter().any(|n| n.tag == tag) {
                        m.header.push(msg::Node::field(tag, "EXTRA"));
                    }
                    s.push_str(&m.text());
                }
            }
        }
        if burst && c == 0 {
            ctx.label("burst");
            let k = if here.is_empty() { 0 } else { *t.pick(&here) };
            let one = w.message(t, k, "burst-", &GenOpt { total: 4, ..Default::default() }).text();
            for i in 0..t.rangei(100, 400) {
                s.push_str(&one.replacen("\u{1}34=burst-", &format!("\u{1}34=burst-{}", i), 1));
            }
            valid += 1;
        }
        streams.push((port, s));
    }
    // what each connection must cause, by the reference framing; ends with a valid message per connection
    let mut seen: HashMap<(usize, String), usize> = HashMap::new();
    let mut expect: Vec<Vec<Expect>> = vec![];
    let mut sent: Vec<Vec<u8>> = vec![];
    for (c, (_, s)) in streams.iter().enumerate() {
        let mut list = vec![];
        let mut data = vec![];
        let (fr, rest) = frames(s.as_bytes());
        let mut all: Vec<(Vec<u8>, Option<usize>)> = fr.into_iter().map(|f| (f, None)).collect();
        // the end of the last damaged message runs into the closing one unless it is cut off here
        let _ = rest;
        let k = t.usize(w.sess.len());
        let last = w.message(t, k, &format!("last{}", c), &GenOpt { total: 5, ..Default::default() }).text();
        all.push((last.into_bytes(), Some(k)));
        for (f, closing) in all {
            let text = String::from_utf8(f.clone()).expect("utf-8");
            let k = match guard(|| Message::get_reverse_session_id(&text)) {
                Ok(sid) => w.by_sid(&sid),
                Err(_) => continue,
            };
            if let Some(k2) = closing {
                ensure!(k == Some(k2), "identity", w.text, "{} names session {:?}, built for {:?}", show(&text), k.map(|k| &w.sess[k].sid), w.sess[k2].sid);
            }
            if let Some(k) = k {
                match msg::parse(&text, &w.dicts[w.sess[k].dict].dd) {
                    Ok(Ok(m)) => {
                        let xm = fp(&m, &universe).map_err(|e| fail("extract", e, show(&text)))?;
                        if *seen.entry((k, xm.clone())).or_insert(c) != c {
                            continue;
                        }
                        list.push(Expect { k, text: text.clone(), xm });
                        ctx.label("deliverable");
                    }
                    Ok(Err(_)) => ctx.label("does not parse"),
                    Err(_) => continue,
                }
            } else {
                ctx.label("names no session");
            }
            data.extend(f);
        }
        ensure!(list.last().is_some_and(|e| e.text.contains(&format!("34=last{}\u{1}", c))), "valid-refused",
            show(&String::from_utf8_lossy(&data)), "the closing message of connection {} does not parse", c);
        expect.push(list);
        sent.push(data);
    }
    if w.sess.len() > 1 && valid > 0 && bad > 0 {
        ctx.nontrivial();
        ctx.key(&sent);
        ctx.sample(|| format!("{} sessions, {} ports, {} connections; first stream {}", w.sess.len(), w.ports.len(), nconn, brief(&String::from_utf8_lossy(&sent[0]), 500)));
    }
    let plans: Vec<(u16, Vec<u8>, Cuts)> =
        streams.iter().zip(&sent).map(|((p, _), d)| (*p, d.clone(), Cuts::gen(t, d))).collect();
    let describe = || {
        let mut o = format!("configuration:\n{}\n", w.text);
        for (i, (p, d, c)) in plans.iter().enumerate() {
            o.push_str(&format!("connection {} to port {}: {} in {} pieces\n", i, p, show(&String::from_utf8_lossy(d)), c.0.len()));
        }
        o
    };
    let hold = w.await_ports()?;
    let tail = t.flip();
    std::thread::scope(|sc| -> Res {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(i, (p, d, cuts))| {
                sc.spawn(move || {
                    let mut s = connect(*p).map_err(|e| format!("connection {} refused: {}", i, e))?;
                    cuts.write(&mut s, d).map_err(|e| format!("connection {} broken: {}", i, e))?;
                    if tail {
                        let _ = s.write_all(b"8=FIX.4.3\x019=5\x0135=0\x0134=77\x01");
                    }
                    Ok::<_, String>(s)
                })
            })
            .collect();
        let mut next = vec![0usize; nconn];
        // which connection sent it
        let mut index: BTreeMap<(usize, &str), usize> = BTreeMap::new();
        for (c, l) in expect.iter().enumerate() {
            for e in l {
                index.insert((e.k, &e.xm), c);
            }
        }
        let total: usize = expect.iter().map(|l| l.len()).sum();
        for _ in 0..total {
            let g = match w.next(LIVE) {
                Some(g) => g,
                None => {
                    let missing: Vec<String> = expect.iter().enumerate().filter_map(|(c, l)| l.get(next[c]).map(|e| format!("connection {}: {} for {}", c, show(&e.text), w.sess[e.k].sid))).collect();
                    return Err(fail("lost", format!("not handed to the application within {:?}: {:?}", LIVE, missing), describe()));
                }
            };
            check(&w, &g, &index, &expect, &mut next, &universe, &describe)?;
        }
        let mut extra = w.next(Duration::from_millis(2));
        if let Some(g) = extra.take() {
            return Err(fail("extra", format!("handed over for {}: {}, which was already handed over or must not be", g.sid, show(&g.msg.to_string())), describe()));
        }
        for h in hs {
            if let Ok(Err(e)) = h.join() {
                return Err(fail("connection", e, describe()));
            }
        }
        Ok(())
    })?;
    drop(hold);
    Ok(())
}

/// much more of everything than a queue, a counter or a buffer holds
fn sustained(ctx: &mut Ctx) -> Res {
    let mut t = Tape::replay(vec![]);
    let plan = Plan { sessions: 1, ports: 1, dicts: 1, own_ports: true, threads: 2 };
    let w = World::start(&mut t, &plan, None)?;
    let hold = w.await_ports()?;
    let (nconn, n) = (4usize, 5000usize);
    let one = w.message(&mut t, 0, "SEQ", &GenOpt { total: 4, ..Default::default() }).text();
    let unknown = one.replace("\u{1}49=", "\u{1}49=?!");
    let text = |c: usize, i: usize| one.replacen("\u{1}34=SEQ\u{1}", &format!("\u{1}34={}-{}\u{1}", c, i), 1);
    let describe = || format!("{} connections send {} messages each, such as {}; every tenth is followed by one of an unknown session, every tenth by one that does not parse", nconn, n, show(&text(0, 1)));
    let port = w.ports[0];
    std::thread::scope(|sc| -> Res {
        let hs: Vec<_> = (0..nconn)
            .map(|c| {
                let (text, unknown) = (&text, &unknown);
                sc.spawn(move || -> Result<std::net::TcpStream, String> {
                    let mut s = connect(port)?;
                    for from in (0..n).step_by(100) {
                        let mut b = String::new();
                        for i in from..from + 100 {
                            b.push_str(&text(c, i));
                            if i % 10 == 3 {
                                b.push_str(unknown);
                            }
                            if i % 10 == 7 {
                                b.push_str(&text(c, i).replace("\u{1}34=", "\u{1}34=1\u{1}34="));
                            }
                        }
                        s.write_all(b.as_bytes()).map_err(|e| e.to_string())?;
                    }
                    Ok(s)
                })
            })
            .collect();
        let mut next = vec![0usize; nconn];
        for _ in 0..nconn * n {
            let Some(g) = w.next(LIVE) else {
                return Err(fail("lost", format!("not handed to the application within {:?}: of the connections the messages from {:?} on", LIVE, next), describe()));
            };
            let seq = g.msg.header().get_field::<String>(34).unwrap_or_default();
            let c = seq.split('-').next().and_then(|c| c.parse::<usize>().ok()).filter(|c| *c < nconn);
            let Some(c) = c else {
                return Err(fail("not-due", format!("handed over: {}", show(&g.msg.to_string())), describe()));
            };
            ensure!(g.sid == w.sess[0].sid, "session", describe(), "handed over for {}: {}", g.sid, seq);
            ensure!(seq == format!("{}-{}", c, next[c]), "order", describe(), "connection {}: message {} is handed over where {} is due", c, seq, next[c]);
            next[c] += 1;
        }
        ensure!(w.next(Duration::from_millis(50)).is_none(), "extra", describe(), "more messages are handed over than were sent");
        for h in hs {
            if let Ok(Err(e)) = h.join() {
                return Err(fail("connection", e, describe()));
            }
        }
        Ok(())
    })?;
    ctx.add("messages of the sustained case", (nconn * n) as u64);
    drop(hold);
    Ok(())
}

fn check(
    w: &World, g: &Got, index: &BTreeMap<(usize, &str), usize>, expect: &[Vec<Expect>], next: &mut [usize],
    universe: &std::collections::BTreeSet<u32>, describe: &dyn Fn() -> String,
) -> Res {
    let text = g.msg.to_string();
    let k = w.by_sid(&g.sid).ok_or_else(|| fail("session", format!("handed over for {}, which is not configured: {}", g.sid, show(&text)), describe()))?;
    let xm = fp(&g.msg, universe).map_err(|e| fail("extract", e, show(&text)))?;
    let Some(c) = index.get(&(k, xm.as_str())) else {
        return Err(fail("not-due", format!("handed over for {}: {}, read as {}: no connection sent that for this session in a form that parses so under its dictionary",
            g.sid, show(&text), clip(&xm, 500)), describe()));
    };
    let due = expect[*c].get(next[*c]);
    ensure!(due.is_some_and(|e| e.k == k && e.xm == xm), "order", describe(), "connection {}: {} is handed over where {} is due", c, show(&text),
        due.map_or("nothing".to_string(), |e| show(&e.text)));
    next[*c] += 1;
    Ok(())
}
