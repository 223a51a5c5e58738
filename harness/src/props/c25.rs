//! Framing of the inbound byte stream.
use crate::engine::*;
use crate::ensure;
use crate::net::*;
use crate::tape::Tape;
use fix_rs::verif_hooks::IoAcceptor;
use std::net::Shutdown;
use std::time::{Duration, Instant};

pub static PROP: Prop = Prop {
    id: "C25",
    rule: "A case runs an IoAcceptor and 1-5 concurrent clients, each writing generated messages (fields with any text, empty or without '=', 10= inside tags and \
values, multi-byte characters, bytes that are not UTF-8, sizes from 20 bytes to 300 kB around the reader's buffer size) cut into generated pieces with generated \
pauses; a client may end with an incomplete message, close, half-close or stay. What comes out of the acceptor's channel (capacity 1-64, reader \
sometimes slow) must be, per connection, exactly its messages in order and nothing else. Non-trivial: a cut \
falls inside a message of a case with at least two messages; distinct by bytes and cuts.",
    quick: 6_000,
    thorough: 60_000,
    threads: 8,
    net: true,
    case,
    fixed: &[("every cut of three messages", every_cut), ("pauses of up to 32 s", idle), ("megabytes and thousands of messages", large)],
    assumptions: &[
        "a message is at most 300 kB, in a fixed case 20 MB; of one that is not UTF-8 only the first and last fields and the place are compared",
        "a thing that must happen is waited for 20 s; a thing that must not happen is waited for until a later message of another connection has come through and 3 ms more",
    ],
};

fn value(t: &mut Tape) -> String {
    match t.weighted(&[4, 3, 3, 1]) {
        0 => crate::msg::gen_value(t),
        1 => t.pick(&["10=", "10=123", "x10=000", "=10=", "10", "1", "0=", "\n10=5", "|10=001|", "10=1\r\n"]).to_string(),
        2 => t.string(&['é', '漢', '🦀', '1', '0', '=', 'a', '\u{0}', '\n', '\u{2}', '\u{80}'], 0, 14),
        _ => String::new(),
    }
}
/// stands for bytes that are not UTF-8
const NOT_UTF8: char = '\u{F8FF}';
fn wire(s: &str) -> Vec<u8> {
    const BAD: [&[u8]; 5] = [b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\xa6", b"\x80\xbf"];
    let mut out = vec![];
    for (i, part) in s.split(NOT_UTF8).enumerate() {
        if i > 0 {
            out.extend(BAD[(i + s.len()) % BAD.len()]);
        }
        out.extend(part.as_bytes());
    }
    out
}
/// what is handed over for this message: the same text, or, for one that is not UTF-8, some text in its place
fn same(sent: &str, got: &str) -> bool {
    if !sent.contains(NOT_UTF8) {
        return sent == got;
    }
    let begin = |s: &str| s.split('\u{1}').next().map(|x| x.to_string());
    let end = |s: &str| s.rfind("\u{1}10=").map(|i| s[i..].to_string());
    begin(sent) == begin(got) && end(sent) == end(got)
}
fn field(t: &mut Tape, big: usize) -> String {
    if big == 0 {
        match t.weighted(&[24, 2, 2, 1]) {
            1 => return "\u{1}".repeat(t.rangei(1, 4)),
            2 => return format!("{}\u{1}", t.pick(&["10", "1", "0", "=", "==", "=10=", "text", "é", " ", "10:", "1=0", "01=0=", "\n"])),
            3 => return format!("58={}{}{}\u{1}", t.pick(&["", "x", "10="]), NOT_UTF8, t.pick(&["", "10=", "y", "é"])),
            _ => {}
        }
    }
    let tag = match t.weighted(&[4, 3, 1]) {
        0 => t.range(11, 999).to_string(),
        1 => t.pick(&["110", "1", "0", "100", "1010", "210", "010", "101", "910", "-10", " 10", "810", "10 ", "+10", "1 0"]).to_string(),
        _ => t.string(&['1', '0', '5', 'a', 'é'], 1, 5),
    };
    let mut f = format!("{}={}", tag, value(t));
    if big > 0 {
        let unit = t.pick(&["x", "10=", "é", "🦀=", "1", "\n10=00"]).to_string();
        while f.len() < big {
            f.push_str(&unit);
        }
    }
    // a field starting with the CheckSum tag would end the message
    if f.starts_with("10=") {
        f.insert(0, '1');
    }
    f.push('\u{1}');
    f
}
/// message n of connection c; its first field names it
pub fn message(t: &mut Tape, c: usize, n: usize) -> String {
    let mut s = format!("8=c{}n{}\u{1}", c, n);
    let fields = t.len(0, 20);
    let bigat = if t.chance(1, 10) { t.usize(fields + 1) } else { usize::MAX };
    for i in 0..fields {
        let big = if i == bigat {
            match t.weighted(&[4, 2, 1, 1]) {
                0 => 8192usize.saturating_sub(s.len()) + t.usize(40),
                1 => t.usize(20_000),
                2 => 65_536 - t.usize(200),
                _ => t.usize(300_000),
            }
        } else {
            0
        };
        s.push_str(&field(t, big.saturating_sub(20)));
    }
    // a CheckSum field ends the message whatever it says
    if t.chance(1, 4) {
        s.push_str(&format!("10={}\u{1}", t.pick(&["", "7", "10", "0000", "1234567890", "abc", "é", "10=", "10=000", "=", " 1", "+12", "-1", "x\n"])));
    } else {
        s.push_str(&format!("10={:03}\u{1}", t.below(256)));
    }
    s
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Stay,
    Close,
    Half,
}
struct Client {
    msgs: Vec<String>,
    tail: String,
    cuts: Cuts,
    end: End,
}
impl Client {
    fn bytes(&self) -> Vec<u8> {
        let mut b: Vec<u8> = self.msgs.iter().flat_map(|m| wire(m)).collect();
        b.extend(wire(&self.tail));
        b
    }
}
fn name(m: &str) -> Option<(usize, usize)> {
    let r = m.strip_prefix("8=c")?;
    let (c, r) = r.split_once('n')?;
    let (n, _) = r.split_once('\u{1}')?;
    Some((c.parse().ok()?, n.parse().ok()?))
}

fn run(clients: &[Client], cap: usize, slow: u64) -> Res {
    run_within(clients, cap, slow, LIVE)
}
fn run_within(clients: &[Client], cap: usize, slow: u64, live: Duration) -> Res {
    let total: usize = clients.iter().map(|c| c.msgs.len()).sum();
    let describe = || {
        clients
            .iter()
            .enumerate()
            .map(|(i, c)| {
                let cuts = clip(&format!("{:?}", c.cuts.0), 300);
                format!("connection {}: {} messages {:?} then {:?}, tail {:?}, cuts {}", i, c.msgs.len(),
                    c.msgs.iter().take(20).map(|m| clip(&show(m), 120)).collect::<Vec<_>>(), c.end, brief(&c.tail, 80), cuts)
            })
            .collect::<Vec<_>>()
            .join("; ")
    };
    let port = ports(1)[0];
    let rt = Rt::new(1 + (clients.len() + cap) % 3);
    let (tx, mut rx) = tokio::sync::mpsc::channel::<String>(cap);
    let acc = {
        let _g = rt.enter();
        let (a, out) = IoAcceptor::create(addr(port), tx);
        a.start();
        (a, out)
    };
    let mut socks = vec![];
    for _ in clients {
        socks.push(first_connect(port).map_err(|e| fail("refused-connection", format!("the acceptor's port refuses: {}", e), describe()))?);
    }
    let mut next = vec![0usize; clients.len()];
    std::thread::scope(|sc| -> Res {
        let hs: Vec<_> = clients
            .iter()
            .zip(socks)
            .map(|(c, mut s)| {
                sc.spawn(move || {
                    let r = c.cuts.write(&mut s, &c.bytes());
                    match c.end {
                        End::Stay => Some((r, s)),
                        End::Half => {
                            let _ = s.shutdown(Shutdown::Write);
                            Some((r, s))
                        }
                        End::Close => {
                            drop(s);
                            let _ = r;
                            None
                        }
                    }
                })
            })
            .collect();
        let check = |m: &str, next: &mut Vec<usize>| -> Res {
            let (c, n) = name(m).filter(|x| x.0 < clients.len()).ok_or_else(|| {
                fail("not-a-message", format!("handed over {:?}, which is no message sent", clip(&show(m), 300)), describe())
            })?;
            let want = clients[c].msgs.get(next[c]);
            match want {
                Some(w) if same(w, m) => {}
                Some(w) if n == next[c] => {
                    return Err(fail("altered", format!("message {} of connection {} is handed over as {:?} ({} bytes), sent as {:?} ({} bytes)",
                        n, c, clip(&show(m), 300), m.len(), clip(&show(w), 300), w.len()), describe()))
                }
                _ => {
                    return Err(fail("order", format!("message {} of connection {} is handed over where message {} is due", n, c, next[c]), describe()))
                }
            }
            next[c] += 1;
            Ok(())
        };
        let mut res = Ok(());
        for _ in 0..total {
            let got = rt.block_on(async { tokio::time::timeout(live, rx.recv()).await });
            match got {
                Ok(Some(m)) => {
                    res = check(&m, &mut next);
                }
                _ => {
                    res = Err(fail("lost", format!("after {:?} messages per connection nothing more is handed over within {:?}", next, live), describe()))
                }
            }
            if res.is_err() {
                break;
            }
            if slow > 0 {
                std::thread::sleep(Duration::from_micros(slow));
            }
        }
        if res.is_err() {
            rx.close();
        }
        let open: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
        res?;
        // a later message of a fresh connection, then nothing more
        let mut probe = connect(port).map_err(|e| fail("refused-connection", format!("the acceptor's port refuses: {}", e), describe()))?;
        use std::io::Write;
        let _ = probe.write_all(b"8=probe\x0110=000\x01");
        let t0 = Instant::now();
        let mut seen = false;
        loop {
            let wait = if seen { Duration::from_millis(3) } else { LIVE };
            match rt.block_on(async { tokio::time::timeout(wait, rx.recv()).await }) {
                Ok(Some(m)) if m == "8=probe\u{1}10=000\u{1}" && !seen => seen = true,
                Ok(Some(m)) => {
                    return Err(fail("extra", format!("{:?} is handed over beyond the messages sent", brief(&m, 300)), describe()))
                }
                _ => break,
            }
        }
        ensure!(seen, "lost", describe(), "a message on a new connection is not handed over within {:?}", t0.elapsed());
        drop(open);
        Ok(())
    })?;
    drop(acc);
    Ok(())
}

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let n = t.len(1, 5);
    let mut clients = vec![];
    let mut hard = false;
    for c in 0..n {
        let k = t.len(0, 12);
        let mut msgs: Vec<String> = (0..k).map(|i| message(t, c, i)).collect();
        if k > 0 && t.chance(1, 4) {
            // the same message again is another message
            let i = t.usize(k);
            let m = msgs[i].clone();
            let j = if t.flip() { i + 1 } else { t.usize(k + 1) };
            msgs.insert(j, m);
            ctx.label("the same message again");
        }
        let end = *t.pick(&[End::Stay, End::Close, End::Half]);
        let tail = if t.chance(1, 3) {
            let m = message(t, c, k);
            let cs: Vec<char> = m.chars().collect();
            let cut = match t.usize(3) {
                0 => cs.len() - 1,
                1 => cs.len() - 1 - t.usize(6),
                _ => t.usize(cs.len()),
            };
            cs[..cut].iter().collect()
        } else {
            String::new()
        };
        let mut cl = Client { msgs, tail, cuts: Cuts(vec![]), end };
        cl.cuts = Cuts::gen(t, &cl.bytes());
        hard |= cl.msgs.len() > 1 && cl.cuts.0.len() > 1;
        ctx.label(&format!("{:?}", end));
        ctx.label_if(!cl.tail.is_empty(), "incomplete message at the end");
        ctx.label_if(cl.msgs.iter().any(|m| m.contains("\u{1}\u{1}")), "empty field");
        ctx.label_if(cl.msgs.iter().any(|m| m.contains(NOT_UTF8)), "not UTF-8");
        ctx.label_if(cl.msgs.iter().any(|m| m.len() > 8192), "message larger than 8 kB");
        ctx.add("messages", cl.msgs.len() as u64);
        ctx.add("pieces", cl.cuts.0.len() as u64);
        clients.push(cl);
    }
    let cap = *t.pick(&[64usize, 16, 4, 1]);
    let slow = *t.pick(&[0u64, 0, 0, 500]);
    if hard {
        ctx.nontrivial();
        ctx.key(&clients.iter().map(|c| (c.bytes(), format!("{:?}", c.cuts))).collect::<Vec<_>>());
        ctx.sample(|| format!("{} connections; first: {} with cuts {:?}", n, brief(&clients[0].msgs.concat(), 300), clients[0].cuts.0.iter().take(12).collect::<Vec<_>>()));
    }
    run(&clients, cap, slow)
}

/// whatever the time between two pieces of a message, or between two messages
fn idle(_: &mut Ctx) -> Res {
    let mut clients = vec![];
    for (at, pause) in [(0usize, 32_000_000u64), (1, 32_000_000), (2, 32_000_000), (1, 11_000_000), (2, 5_500_000), (1, 2_200_000), (2, 1_100_000), (1, 600_000)] {
        let c = clients.len();
        let msgs: Vec<String> = (0..3).map(|n| format!("8=c{}n{}\u{1}58=x\u{1}10=00{}\u{1}", c, n, n)).collect();
        let (a, len) = (msgs[0].len(), msgs.concat().len());
        let cut = [a, a + 9, 2 * a - 4][at];
        clients.push(Client { msgs, tail: "".into(), cuts: Cuts(vec![(cut, pause), (len, 0)]), end: End::Stay });
    }
    run_within(&clients, 4, 0, Duration::from_secs(60))
}

/// more messages, fields and bytes than any plausible limit
fn large(_: &mut Ctx) -> Res {
    let head = |c: usize, n: usize| format!("8=c{}n{}\u{1}", c, n);
    let end = "10=007\u{1}";
    let many: Vec<String> = (0..20_000).map(|n| format!("{}110=10={}\u{1}{}", head(0, n), n, end)).collect();
    let big: Vec<String> = [1usize << 20, (1 << 24) - 30, 1 << 24, 20_000_000, 1]
        .iter()
        .enumerate()
        .map(|(n, size)| format!("{}58={}\u{1}{}", head(1, n), "é10=".repeat(size / 5), end))
        .collect();
    let fields: Vec<String> = [70_000usize, 10, 200_000, 3].iter().enumerate().map(|(n, k)| format!("{}{}{}", head(2, n), "58=x\u{1}".repeat(*k), end)).collect();
    let tags: Vec<String> = (0..4usize).map(|n| format!("{}{}=1\u{1}{}", head(3, n), "10".repeat(n * 40_000 + 2), end)).collect();
    let empty: Vec<String> = (0..3).map(|n| format!("{}{}{}", head(4, n), "\u{1}".repeat(300_000), end)).collect();
    let clients: Vec<Client> = [many, big, fields, tags, empty]
        .into_iter()
        .map(|msgs| {
            let mut c = Client { msgs, tail: "8=".into(), cuts: Cuts(vec![]), end: End::Stay };
            c.cuts = Cuts(vec![(c.bytes().len(), 0)]);
            c
        })
        .collect();
    run_within(&clients, 4, 0, Duration::from_secs(60))
}

fn every_cut(_: &mut Ctx) -> Res {
    let mk = |c: usize| -> Vec<String> {
        (0..3).map(|n| format!("8=c{}n{}\u{1}110=10=é\u{1}58=\n10=5\u{1}10=00{}\u{1}", c, n, n)).collect()
    };
    let total = mk(0).concat().len();
    for from in (1..total).step_by(20) {
        let clients: Vec<Client> = (from..(from + 20).min(total))
            .enumerate()
            .map(|(i, cut)| Client { msgs: mk(i), tail: "".into(), cuts: Cuts(vec![(cut, 1500), (mk(i).concat().len(), 0)]), end: End::Stay })
            .collect();
        run(&clients, 4, 0)?;
    }
    Ok(())
}
