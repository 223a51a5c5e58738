//! The session map and sending by identity.
use super::c08::any_message;
use super::c28::same_text;
use crate::conf::{self, Id};
use crate::engine::*;
use crate::ensure;
use crate::tape::Tape;
use fix_rs::data_dictionary::DataDictionary;
use fix_rs::network::SessionMap;
use fix_rs::session::{Session, SessionId};
use std::collections::HashMap;
use std::sync::Arc;
use tokio::sync::broadcast::{self, error::TryRecvError, Receiver, Sender};

pub static PROP: Prop = Prop {
    id: "C30",
    rule: "A case builds a session map (empty or from an iterator) over 2-7 (one case in 400: up to 400) identities that differ in single parts, and applies up to 40 (then 600) generated operations: \
register or replace a session, set its channel (own or shared with others), drop some or all receivers of a channel, add a receiver, send a generated \
message by identity (sometimes from several threads at once), look up, list, use a clone of the map. After every operation each receiver of each channel must have exactly \
the messages a plain model says, and every lookup must give the session last registered. Non-trivial: a channel or a session \
was replaced and both before and after it something was sent; distinct by operations.",
    quick: 40_000,
    thorough: 800_000,
    threads: 8,
    net: false,
    case,
    fixed: &[],
    assumptions: &[
        "sending to an identity that is not registered, or whose channel was never set, is outside the property",
        "sessions are told apart by their dictionary object and their session_id field",
    ],
};

struct Chan {
    tx: Sender<String>,
    rx: Vec<Receiver<String>>,
}
#[derive(Clone)]
struct Model {
    /// index of the template
    template: usize,
    chan: Option<usize>,
}

fn near(t: &mut Tape, most: usize) -> Vec<Id> {
    let base: Id = [
        Some("FIX.4.3".into()),
        Some("A".into()),
        if t.flip() { Some("B".into()) } else { None },
        if t.flip() { Some("B".into()) } else { None },
        Some("C".into()),
        if t.flip() { Some("D".into()) } else { None },
        if t.flip() { Some("D".into()) } else { None },
    ];
    let mut out = vec![base.clone()];
    for _ in 0..t.rangei(1, most) {
        let mut id = t.pick(&out).clone();
        let i = t.usize(7);
        let opt = [2, 3, 5, 6].contains(&i);
        id[i] = match t.usize(4) {
            0 if opt => None,
            1 => Some(conf::part(t)),
            2 => id[t.usize(7)].clone().or(Some("E".into())),
            _ => id[i].clone().map(|v| v + "/B").or(Some("B".into())),
        };
        if t.chance(1, 4) {
            // the other way round
            id = [id[0].clone(), id[4].clone(), id[5].clone(), id[6].clone(), id[1].clone(), id[2].clone(), id[3].clone()];
        }
        if !out.contains(&id) {
            out.push(id);
        }
    }
    out
}

const MINI: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/data/mini.xml");

fn case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    // now and then more than any table of a plausible size holds
    let many = t.chance(1, 400);
    let ids = near(t, if many { 400 } else { 6 });
    ctx.label_if(ids.len() > 64, "more than 64 identities");
    let sids: Vec<SessionId> = ids.iter().map(conf::build_id).collect();
    let text = format!("[Default]\nconnection_type = acceptor\ndata_dictionary = {}\nbegin_string = FIX.4.3\n", MINI);
    let props = super::c19::load(&text).map_err(|e| fail("refused", e, text.clone()))?;
    let mut templates: Vec<Arc<DataDictionary>> = vec![];
    let mut log = String::new();
    for (i, s) in sids.iter().enumerate() {
        log.push_str(&format!("{}: {}; ", i, s));
    }
    let mut make = |k: usize, templates: &mut Vec<Arc<DataDictionary>>| -> Result<Session, Failure> {
        let s = guard(|| Session::with_settings(&sids[k], &props)).map_err(|p| fail("panic", format!("creating a session panics: {}", p), text.clone()))?;
        templates.push(Arc::clone(s.data_dictionary()));
        Ok(s)
    };
    let mut chans: Vec<Chan> = vec![];
    let mut model: HashMap<usize, Model> = HashMap::new();
    let new_chan = |chans: &mut Vec<Chan>, n: usize| {
        let (tx, rx) = broadcast::channel(256);
        let mut v = vec![];
        if n > 0 {
            v.push(rx);
            for _ in 1..n {
                v.push(tx.subscribe());
            }
        }
        chans.push(Chan { tx, rx: v });
        chans.len() - 1
    };
    let map = if t.flip() {
        let mut list = vec![];
        for k in 0..sids.len() {
            if t.flip() {
                let mut s = make(k, &mut templates)?;
                let mut c = None;
                if t.flip() {
                    let n = t.usize(3);
                    let i = new_chan(&mut chans, n);
                    s.set_responder(Some(chans[i].tx.clone()));
                    c = Some(i);
                }
                model.insert(k, Model { template: templates.len() - 1, chan: c });
                log.push_str(&format!("initially {} with channel {:?}; ", k, c));
                list.push((sids[k].clone(), s));
            }
        }
        SessionMap::from_iter(list)
    } else {
        SessionMap::default()
    };
    let other = map.clone();
    let (mut replaced, mut before, mut after) = (false, false, false);
    let steps = if many { t.rangei(100, 600) } else if t.flip() { t.len(1, 12) } else { t.rangei(5, 40) };
    for step in 0..steps {
        let m = if t.chance(1, 4) { &other } else { &map };
        let k = t.usize(sids.len());
        let mut due: Vec<Vec<String>> = vec![vec![]; chans.len()];
        match t.weighted(&[3, 3, 1, 1, 6, 2]) {
            0 => {
                let mut s = make(k, &mut templates)?;
                let mut c = None;
                if !chans.is_empty() && t.flip() {
                    let i = t.usize(chans.len());
                    s.set_responder(Some(chans[i].tx.clone()));
                    c = Some(i);
                }
                log.push_str(&format!("register {} with channel {:?}; ", k, c));
                replaced |= model.contains_key(&k);
                model.insert(k, Model { template: templates.len() - 1, chan: c });
                m.insert_session(sids[k].clone(), s);
            }
            1 => {
                let i = if chans.is_empty() || t.flip() {
                    let n = t.usize(4);
                    new_chan(&mut chans, n)
                } else {
                    t.usize(chans.len())
                };
                log.push_str(&format!("channel of {} becomes {}; ", k, i));
                let tx = chans[i].tx.clone();
                m.entry(&sids[k]).and_modify(|s| {
                    s.set_responder(Some(tx));
                });
                if let Some(x) = model.get_mut(&k) {
                    replaced |= x.chan.is_some();
                    x.chan = Some(i);
                }
            }
            2 if !chans.is_empty() => {
                let i = t.usize(chans.len());
                let n = t.usize(chans[i].rx.len() + 1);
                log.push_str(&format!("channel {} keeps {} of {} receivers; ", i, n, chans[i].rx.len()));
                chans[i].rx.truncate(n);
            }
            3 if !chans.is_empty() => {
                let i = t.usize(chans.len());
                log.push_str(&format!("channel {} gets a receiver; ", i));
                let r = chans[i].tx.subscribe();
                chans[i].rx.push(r);
            }
            4 => {
                let ready: Vec<usize> = (0..sids.len()).filter(|k| model.get(k).is_some_and(|x| x.chan.is_some())).collect();
                if ready.is_empty() {
                    continue;
                }
                let threads = t.chance(1, 8);
                let n = if threads { t.rangei(2, 5) } else { 1 };
                let mut list = vec![];
                for _ in 0..n {
                    let k = *t.pick(&ready);
                    let mut what = String::new();
                    let mut msg = any_message(t, &mut Ctx::default(), &mut what)?;
                    msg.header_mut().set_field(fix_rs::message::StringField::new(34, &format!("{}.{}", step, list.len())));
                    let text = guard(|| msg.to_string()).map_err(|p| fail("panic", format!("printing panics: {}", p), what.clone()))?;
                    log.push_str(&format!("send to {}{}: {}; ", k, if threads { " from its own thread" } else { "" }, show(&text)));
                    // now and then the same message again
                    for _ in 0..if t.chance(1, 8) { 2 } else { 1 } {
                        due[model[&k].chan.unwrap()].push(text.clone());
                        list.push((k, msg.clone()));
                    }
                }
                if replaced {
                    after = true
                } else {
                    before = true
                }
                let r: Result<(), String> = if threads {
                    ctx.label("concurrent sends");
                    std::thread::scope(|sc| {
                        let hs: Vec<_> = list
                            .into_iter()
                            .map(|(k, msg)| {
                                let sid = &sids[k];
                                sc.spawn(move || guard(|| Session::sync_send_to_target(sid, m, msg)))
                            })
                            .collect();
                        hs.into_iter().try_for_each(|h| h.join().unwrap_or(Err("thread died".into())))
                    })
                } else {
                    list.into_iter().try_for_each(|(k, msg)| guard(|| Session::sync_send_to_target(&sids[k], m, msg)))
                };
                if let Err(p) = r {
                    return Err(fail("panic", format!("sending panics: {}", p), log));
                }
                if due.iter().zip(&chans).any(|(d, c)| !d.is_empty() && c.rx.is_empty()) {
                    ctx.label("sent with no receiver");
                }
                ctx.add("messages sent", n as u64);
            }
            _ => {
                let kv = m.key_values_map();
                ensure!(kv.len() == model.len() && model.keys().all(|k| kv.contains_key(&sids[*k])), "listing", log,
                    "the map lists {:?}, registered are {:?}", kv.keys().map(|k| k.to_string()).collect::<Vec<_>>(), model.keys().map(|k| sids[*k].to_string()).collect::<Vec<_>>());
            }
        }
        // receivers
        due.resize(chans.len(), vec![]);
        for (i, c) in chans.iter_mut().enumerate() {
            for r in c.rx.iter_mut() {
                let mut want = due[i].clone();
                loop {
                    match r.try_recv() {
                        Ok(s) => match want.iter().position(|w| same_text(w, &s)) {
                            Some(p) => {
                                want.remove(p);
                            }
                            None => {
                                return Err(fail("misdirected", format!("channel {} gets {}, due there: {:?}", i, show(&s), due[i].iter().map(|x| show(x)).collect::<Vec<_>>()), log))
                            }
                        },
                        Err(TryRecvError::Empty) | Err(TryRecvError::Closed) => break,
                        Err(e) => return Err(fail("misdirected", format!("channel {}: {}", i, e), log)),
                    }
                }
                ensure!(want.is_empty(), "lost", log, "channel {} does not get {:?}", i, want.iter().map(|x| show(x)).collect::<Vec<_>>());
            }
        }
        // lookups
        for (k, sid) in sids.iter().enumerate() {
            for mm in [&map, &other] {
                let got = mm.get_session(sid).map(|s| (Arc::clone(s.data_dictionary()), s.session_id.clone()));
                match (got, model.get(&k)) {
                    (None, None) => {}
                    (Some((dd, id)), Some(x)) => {
                        ensure!(Arc::ptr_eq(&dd, &templates[x.template]) && id == *sid, "lookup", log,
                            "looking up {} does not give the session last registered (it has identity {})", sid, id);
                    }
                    (a, b) => {
                        return Err(fail("lookup", format!("looking up {} gives {}, registered: {}", sid, if a.is_some() { "a session" } else { "nothing" }, b.is_some()), log))
                    }
                }
            }
        }
    }
    if replaced && before && after {
        ctx.nontrivial();
        ctx.key(&log);
        ctx.sample(|| clip(&log, 700));
    }
    ctx.label_if(replaced, "something replaced");
    Ok(())
}
