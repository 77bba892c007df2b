//! Statelessness: C21. Histories of calls on the buffers of two connections; what each call must
//! do follows from its arguments through the model, and must equal what the same call did when it
//! was the only one so far.
use super::framing::res;
use crate::adapt::{self, Error, Pk};
use crate::bytesgen;
use crate::explore::*;
use crate::gen;
use crate::model::{self, dec, enc, M, PV};
use crate::spaces::*;
use crate::stream::{self, Framing};
use bytes::BytesMut;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug)]
enum Op {
    /// bytes arrive at connection `c` and it reads once
    Feed { c: usize, bytes: Vec<u8>, limit: usize },
    /// connection `c` reads what it has
    Read { c: usize, limit: usize },
    /// a packet is written to the output of connection `c`
    Write { c: usize, m: M },
    /// a packet that cannot be encoded is written to the output of connection `c`
    BadWrite { c: usize, m: M },
    Check { bytes: Vec<u8>, limit: usize },
    Match { t: &'static str, f: &'static str },
    Valid { s: &'static str },
}
const VER: [u8; 2] = [4, 5];

fn ops() -> Vec<Op> {
    let mut v = vec![];
    let feed = |c: usize, b: &[u8]| Op::Feed { c, bytes: b.to_vec(), limit: 1000 };
    for c in 0..2 {
        let ver = VER[c];
        v.push(Op::Read { c, limit: 1000 });
        v.push(Op::Read { c, limit: 1 });
        v.push(feed(c, &[0xC0, 0]));
        v.push(feed(c, &[0x30])); // a frame that starts here
        v.push(feed(c, &[0x30, 0xFF, 0xFF, 0xFF, 0xFF])); // malformed length
        v.push(feed(c, &[0xF0, 0])); // reserved type
        v.push(feed(c, &[0x40, 2, 0, 9]));
        v.push(feed(c, &enc::encode(ver, &gen::base_packet(ver, 1, gen::Base::Full), enc::Form::Full).bytes));
        v.push(feed(c, &enc::encode(ver, &gen::base_packet(ver, 8, gen::Base::Minimal), enc::Form::Full).bytes));
        if ver == 4 {
            v.push(feed(c, &[0x32, 6, 0, 1, b'a', 0, 5, b'x']));
            v.push(feed(c, &[0x3A, 6, 0, 1, b'a', 0, 5, b'x'])); // the same, again
            v.push(feed(c, &[0x32, 5, 0, 1, b'a', 0, 0])); // packet id 0
            v.push(feed(c, &[0x20, 2, 0, 9])); // unknown code
        } else {
            v.push(feed(c, &[0x30, 8, 0, 1, b't', 3, 35, 0, 5, b'x'])); // sets a topic alias
            v.push(feed(c, &[0x30, 7, 0, 0, 3, 35, 0, 5, b'x'])); // uses it
            v.push(feed(c, &[0x30, 4, 0, 0, 0, b'y'])); // neither topic nor alias
            v.push(feed(c, &[0x20, 6, 1, 0, 3, 34, 0, 9])); // topic alias maximum
            v.push(feed(c, &[0x20, 5, 0, 0, 2, 99, 0])); // unknown property
            v.push(feed(c, &[0x40, 3, 0, 9, 0x10]));
            v.push(feed(c, &[0xE0, 1, 4]));
            let mut m = gen::base_packet(4, 1, gen::Base::Minimal);
            if let M::Connect { client_id, .. } = &mut m {
                *client_id = "old".into();
            }
            v.push(feed(c, &enc::encode(5, &m, enc::Form::Full).bytes));
        }
        let mut w = vec![gen::base_packet(ver, 12, gen::Base::Minimal), gen::base_packet(ver, 1, gen::Base::Full), gen::base_packet(ver, 3, gen::Base::Minimal), gen::base_packet(ver, 8, gen::Base::Full)];
        if ver == 5 {
            w.push(M::Publish { dup: false, qos: 1, retain: false, topic: String::new(), pkid: 7, props: vec![(35, PV::U16(5))], payload: vec![1] });
            w.push(M::Ack { kind: 4, pkid: 3, reason: 0x10, props: vec![] });
            w.push(M::Disconnect { reason: 0x8E, props: vec![] });
        } else {
            w.push(M::Publish { dup: false, qos: 2, retain: true, topic: "q".into(), pkid: 7, props: vec![], payload: vec![1] });
            w.push(M::Ack { kind: 6, pkid: 3, reason: 0, props: vec![] });
        }
        v.extend(w.into_iter().map(|m| Op::Write { c, m }));
        v.push(Op::BadWrite { c, m: M::Publish { dup: false, qos: 1, retain: false, topic: "t".into(), pkid: 0, props: vec![], payload: vec![1] } });
        v.push(Op::BadWrite { c, m: M::Publish { dup: false, qos: 1, retain: false, topic: "t".repeat(65_536), pkid: 1, props: vec![], payload: vec![1] } });
    }
    v.push(Op::Check { bytes: vec![0x30, 3, 0, 1, b'a'], limit: 1000 });
    v.push(Op::Check { bytes: vec![0x30, 3, 0], limit: 1000 });
    v.push(Op::Check { bytes: vec![0x30, 0x80, 0x80, 0x80, 0x80], limit: 1000 });
    v.push(Op::Check { bytes: vec![0x30, 3, 0, 1, b'a'], limit: 2 });
    v.push(Op::Match { t: "a/b", f: "a/+" });
    v.push(Op::Match { t: "a/b", f: "+/c" });
    v.push(Op::Match { t: "$a/b", f: "#" });
    v.push(Op::Valid { s: "a/+/#" });
    v.push(Op::Valid { s: "a#" });
    v
}

/// Further calls, for the explorations that repeat: every menu packet written and read, and a frame
/// for every way in which reading each packet type fails.
fn more_ops() -> Vec<Op> {
    let mut v = vec![];
    for c in 0..2 {
        let ver = VER[c];
        for m in gen::menu(ver) {
            v.push(Op::Feed { c, bytes: enc::encode(ver, &m, enc::Form::Full).bytes, limit: usize::MAX });
            v.push(Op::Write { c, m });
        }
        let mut seen = std::collections::BTreeSet::new();
        for t in 1..=14u8 {
            for e in bytesgen::bases(ver, t) {
                let _ = bytesgen::faults(&e, &mut |b| {
                    if let Err(bad) = dec::decode(ver, b) {
                        if let Err(got) = adapt::read_slice(ver, b, usize::MAX).0 {
                            let kind: String = format!("{got:?}").chars().take_while(|c| *c != '(').collect();
                            let bad: String = format!("{bad:?}").chars().take_while(|c| *c != '(').collect();
                            if seen.insert((b[0] >> 4, kind, bad)) {
                                v.push(Op::Feed { c, bytes: b.to_vec(), limit: usize::MAX });
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    v
}

/// The buffers of the two connections as they are and as the model has them.
struct World {
    inp: [BytesMut; 2],
    inp_m: [Vec<u8>; 2],
    out: [BytesMut; 2],
    out_m: [Vec<u8>; 2],
}
impl World {
    fn new() -> World {
        World { inp: Default::default(), inp_m: Default::default(), out: Default::default(), out_m: Default::default() }
    }
}

/// What each op does on fresh buffers, recorded as the program starts.
fn baseline() -> &'static Vec<String> {
    static B: OnceLock<Vec<String>> = OnceLock::new();
    B.get_or_init(|| {
        ops()
            .iter()
            .map(|o| {
                let mut w = World::new();
                match apply(&mut w, o, None) {
                    Ok(s) => s,
                    Err(e) => format!("wrong at once: {e}"),
                }
            })
            .collect()
    })
}

fn do_read(w: &mut World, c: usize, limit: usize) -> Result<String, String> {
    let ver = VER[c];
    let r = adapt::read(ver, &mut w.inp[c], limit);
    let have = &w.inp_m[c];
    match stream::framing(have, limit) {
        Framing::Frame { len } => {
            let want = dec::decode(ver, &have[..len]);
            stream::agree(ver, &have[..len], &r, &want)?;
            w.inp_m[c].drain(..len);
        }
        x => {
            let ok = match (&r, x) {
                (Err(Error::InsufficientBytes(n)), Framing::Need { missing, exact }) => *n == missing || (!exact && *n > 0),
                (Err(Error::MalformedRemainingLength), Framing::BadLength) => true,
                (Err(Error::PayloadSizeLimitExceeded(n)), Framing::TooBig(m)) => *n == m,
                _ => false,
            };
            if !ok {
                return Err(format!("v{ver} read of {} (limit {limit}) gives {}, but {x:?}", hex(have), res(&r)));
            }
        }
    }
    if w.inp[c][..] != w.inp_m[c][..] {
        return Err(format!("v{ver} read leaves {}, expected {}", hex(&w.inp[c]), hex(&w.inp_m[c])));
    }
    Ok(res(&r))
}

/// Applies one op and judges it; the result as text. `k`: the op's index, to compare with what it
/// did before (when its input buffer was empty, so that its arguments are the same).
fn apply(w: &mut World, o: &Op, k: Option<usize>) -> Result<String, String> {
    let mut fresh = true;
    let s = match o {
        Op::Feed { c, bytes, limit } => {
            fresh = w.inp[*c].is_empty();
            w.inp[*c].extend_from_slice(bytes);
            w.inp_m[*c].extend_from_slice(bytes);
            do_read(w, *c, *limit)?
        }
        Op::Read { c, limit } => {
            fresh = w.inp[*c].is_empty();
            do_read(w, *c, *limit)?
        }
        Op::Write { c, m } => {
            let ver = VER[*c];
            let p = Pk::from_model(ver, m, false);
            let copy = p.clone();
            let n = p.write(&mut w.out[*c]).map_err(|e| format!("v{ver} writing {m:?} fails with {e:?}"))?;
            if p != copy {
                return Err(format!("v{ver} writing changes the packet {copy:?} to {p:?}"));
            }
            let old = w.out_m[*c].len();
            if w.out[*c].len() < old || w.out[*c][..old] != w.out_m[*c][..] {
                return Err(format!("v{ver} writing {m:?} changes earlier output {}", hex(&w.out_m[*c])));
            }
            let new = w.out[*c][old..].to_vec();
            let back = dec::decode(ver, &new).map_err(|b| format!("v{ver} {m:?} is written as {}: {b:?}", hex(&new)))?;
            if n != new.len() || back.0.norm() != m.norm() || back.1 & !dec::VALUE_TOLS != 0 {
                return Err(format!("v{ver} {m:?} is written as {} (reported {n} bytes)", hex(&new)));
            }
            w.out_m[*c].extend_from_slice(&new);
            hex(&new)
        }
        Op::BadWrite { c, m } => {
            let ver = VER[*c];
            let p = Pk::from_model(ver, m, false);
            match p.write(&mut w.out[*c]) {
                Ok(_) => return Err(format!("v{ver} a packet that cannot be encoded is written")),
                Err(e) => {
                    if w.out[*c][..] != w.out_m[*c][..] {
                        return Err(format!("v{ver} the failed write changes the buffer to {}", hex(&w.out[*c])));
                    }
                    format!("{e:?}")
                }
            }
        }
        Op::Check { bytes, limit } => {
            let r = adapt::check(bytes, *limit);
            let f = stream::framing(bytes, *limit);
            let ok = match (&r, f) {
                (Ok(h), Framing::Frame { len }) => h.frame_length() == len,
                (Err(Error::InsufficientBytes(n)), Framing::Need { missing, exact }) => *n == missing || (!exact && *n > 0),
                (Err(Error::MalformedRemainingLength), Framing::BadLength) => true,
                (Err(Error::PayloadSizeLimitExceeded(n)), Framing::TooBig(m)) => *n == m,
                _ => false,
            };
            if !ok {
                return Err(format!("check of {} (limit {limit}) gives {r:?}, but {f:?}", hex(bytes)));
            }
            format!("{r:?}")
        }
        Op::Match { t, f } => {
            adapt::op();
            let r = mqttbytes::matches(t, f);
            if r != model::topic::matches(t, f) {
                return Err(format!("matches({t:?}, {f:?}) is {r}"));
            }
            r.to_string()
        }
        Op::Valid { s } => {
            adapt::op();
            let r = (mqttbytes::valid_filter(s), mqttbytes::valid_topic(s), mqttbytes::has_wildcards(s));
            if r != (model::topic::valid_filter(s), model::topic::valid_topic(s), model::topic::has_wildcards(s)) {
                return Err(format!("validity of {s:?} is {r:?}"));
            }
            format!("{r:?}")
        }
    };
    if let (true, Some(k)) = (fresh, k) {
        if baseline()[k] != s {
            return Err(format!("the call {} gives {s}; as the first call it gave {}", brief(o), baseline()[k]));
        }
    }
    Ok(s)
}
fn brief(o: &Op) -> String {
    let mut s = format!("{o:?}");
    s.truncate(200);
    s
}

fn history(all: &[Op], idx: &[usize]) -> Outcome {
    let mut w = World::new();
    for (n, i) in idx.iter().enumerate() {
        apply(&mut w, &all[*i], Some(*i)).map_err(|e| {
            let h: Vec<String> = idx[..=n].iter().map(|i| brief(&all[*i])).collect();
            format!("after the calls [{}]: {e}", h.join("; "))
        })?;
    }
    Ok(())
}

/// Two fresh threads take turns: call `k` is made by thread `who(k)` on the two connections' buffers,
/// which go along; `reps` rounds.
fn turns(all: &[Op], idx: &[usize], who: &dyn Fn(usize) -> usize, reps: usize) -> Outcome {
    use std::sync::mpsc::channel;
    type Answer = (World, Result<String, String>);
    std::thread::scope(|s| {
        let hands: Vec<_> = (0..2)
            .map(|_| {
                let (tx, rx) = channel::<(World, usize)>();
                let (back, answers) = channel::<Answer>();
                s.spawn(move || {
                    for (mut w, i) in rx {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| apply(&mut w, &all[i], Some(i)))).unwrap_or_else(|_| Err(format!("panic: {}", crate::explore::take_panic())));
                        if back.send((w, r)).is_err() {
                            return;
                        }
                    }
                });
                (tx, answers)
            })
            .collect();
        for round in 0..reps {
            let mut w = World::new();
            for (k, i) in idx.iter().enumerate() {
                let t = (who(k) + round) % 2;
                hands[t].0.send((w, *i)).expect("HARNESS: thread");
                let (back, r) = hands[t].1.recv().expect("HARNESS: thread");
                w = back;
                r.map_err(|e| {
                    let h: Vec<String> = idx[..=k].iter().enumerate().map(|(k, i)| format!("thread {}: {}", (who(k) + round) % 2, brief(&all[*i]))).collect();
                    format!("after the calls [{}]: {e}", h.join("; "))
                })?;
            }
        }
        Ok(())
    })
}

pub fn c21(th: bool) -> Vec<Exploration> {
    baseline();
    let all = Arc::new(ops());
    let mut v = vec![];
    let depth = if th { 4 } else { 3 };
    let a = all.clone();
    v.push(
        expl(format!("every history of {depth} calls over {} calls on two connections, buffers kept", all.len()), 0, move |ctx, ch| {
            let head: Vec<usize> = (0..2).map(|_| ch.pick(a.len())).collect();
            ctx.sample(|| format!("{} then {}", brief(&a[head[0]]), brief(&a[head[1]])));
            let mut idx = head;
            idx.resize(depth, 0);
            loop {
                history(&a, &idx)?;
                ctx.case("history");
                // next
                let mut k = depth;
                loop {
                    k -= 1;
                    if k < 2 {
                        return Ok(());
                    }
                    idx[k] += 1;
                    if idx[k] < a.len() {
                        break;
                    }
                    idx[k] = 0;
                }
            }
        })
        .single(),
    );
    let a = all.clone();
    let reps = if th { 140_000usize } else { 70_000 };
    v.push(
        expl(format!("one call {reps} times on fresh buffers, then every call once"), 0, move |ctx, ch| {
            let i = ch.pick(a.len());
            for _ in 0..reps {
                let mut w = World::new();
                apply(&mut w, &a[i], Some(i)).map_err(|e| format!("repeated: {e}"))?;
                ctx.case("repetition");
            }
            for j in 0..a.len() {
                history(&a, &[j])?;
                ctx.case("history");
            }
            Ok(())
        })
        .single(),
    );
    // every pair of questions about topics and filters, in both orders
    let k = if th { 5 } else { 4 };
    let words: Vec<String> = (0..=k).flat_map(|n| super::topics::words(&['a', '+', '#', '/'], n)).collect();
    v.push(
        expl(format!("every two validity questions, one after the other, about strings of up to {k} characters of {{a + # /}}"), 0, move |ctx, ch| {
            let s = ch.of(&words);
            for t in &words {
                for x in [s, t] {
                    adapt::op();
                    let r = (mqttbytes::valid_filter(x), mqttbytes::valid_topic(x), mqttbytes::has_wildcards(x));
                    if r != (model::topic::valid_filter(x), model::topic::valid_topic(x), model::topic::has_wildcards(x)) {
                        return Err(format!("asked about {s:?} and {t:?}, validity of {x:?} is {r:?}"));
                    }
                    // the same question under another address
                    let y = format!("{x} ");
                    if mqttbytes::valid_filter(&y[..x.len()]) != r.0 {
                        return Err(format!("valid_filter({x:?}) is {} for one copy and not for another", r.0));
                    }
                }
                ctx.case("two questions");
            }
            Ok(())
        })
        .single(),
    );
    let words: Vec<String> = (0..=2).flat_map(|n| super::topics::words(&['a', 'b', '+', '#', '/', '$'], n)).collect();
    let pairs: Vec<(String, String)> = words.iter().filter(|t| model::topic::valid_topic(t)).flat_map(|t| words.iter().filter(|f| model::topic::valid_filter(f)).map(move |f| (t.clone(), f.clone()))).collect();
    v.push(
        expl("every two matching questions, one after the other, over strings of up to two characters of {a b + # / $}", 0, move |ctx, ch| {
            let (t, f) = ch.of(&pairs);
            let first = mqttbytes::matches(t, f);
            for (t2, f2) in &pairs {
                adapt::op();
                let second = mqttbytes::matches(t2, f2);
                if second != model::topic::matches(t2, f2) {
                    return Err(format!("matches({t2:?}, {f2:?}) is {second} after ({t:?}, {f:?})"));
                }
                if mqttbytes::matches(t, f) != first || first != model::topic::matches(t, f) {
                    return Err(format!("matches({t:?}, {f:?}) is {first}, and {} after ({t2:?}, {f2:?})", !first));
                }
                ctx.case("two questions");
            }
            Ok(())
        })
        .single(),
    );
    let topics = super::topics::paths(&["a", "b", "cc"], 3);
    let mut filters = super::topics::paths(&["a", "b", "cc", "+"], 3);
    filters.extend(super::topics::paths(&["a", "b", "cc", "+"], 2).iter().map(|f| format!("{f}/#")));
    filters.push("#".into());
    let pairs: Arc<Vec<(String, String, bool)>> = Arc::new(topics.iter().flat_map(|t| filters.iter().map(move |f| (t.clone(), f.clone(), model::topic::matches(t, f)))).collect());
    let few = Arc::new(pairs.iter().filter(|(t, f, _)| th || t.len() > 2 && f.len() > 2 && !(t.contains("cc") && t.contains('b'))).cloned().collect::<Vec<_>>());
    v.push(
        expl("every two matching questions, one after the other, over paths of up to three levels", 0, move |ctx, ch| {
            let (t, f, w) = ch.of(&few);
            for (t2, f2, w2) in pairs.iter() {
                adapt::op();
                let (a, b) = (mqttbytes::matches(t, f), mqttbytes::matches(t2, f2));
                if (a, b) != (*w, *w2) {
                    return Err(format!("matches({t:?}, {f:?}) is {a}, and then matches({t2:?}, {f2:?}) is {b}"));
                }
            }
            ctx.case("a question and all others");
            Ok(())
        })
        .single(),
    );
    // every two texts in one place, one frame right after the other
    let texts: Arc<Vec<String>> = Arc::new({
        let mut v: Vec<String> = (0..=4).flat_map(|n| super::topics::words(&['a', 'b'], n)).collect();
        v.extend(super::topics::words(&['a', 'b', 'c'], 3).into_iter().filter(|w| w.contains('c')));
        v.extend(["sensors/1/t", "sensors/2/t", "sensors/1/u", "sensors/t/1", "tensors/1/s", "a+", "+a", "a/b", "b/a", "#", "\u{e9}", "\u{ea}"].map(|s| s.to_string()));
        v
    });
    v.push(
        expl(format!("every two of {} texts, one after the other, in every text and binary field of every packet, read and written back", texts.len()), 0, move |ctx, ch| {
            let ver = *ch.of(BOTH);
            let t = 1 + ch.pick(14) as u8;
            let base = *ch.of(&BASES);
            let (e, fields) = super::decode::content_fields(ver, t, base);
            for field in fields {
                let mut all = vec![];
                for s in texts.iter() {
                    let f = crate::bytesgen::with_content(&e, field, s.as_bytes());
                    let want = model::dec::decode(ver, &f);
                    all.push((s, f, want));
                }
                for (i, a) in all.iter().enumerate() {
                    for b in all[i..].iter() {
                        for (k, x) in [(0, a), (1, b), (2, a)] {
                            let (r, _) = adapt::read_slice(ver, &x.1, usize::MAX);
                            crate::stream::agree(ver, &x.1, &r, &x.2).map_err(|e| if k == 0 { e } else { format!("with {:?} and then {:?} in the same place: {e}", a.0, b.0) })?;
                            if let (Ok(p), Ok((_, 0))) = (&r, &x.2) {
                                let mut out = BytesMut::new();
                                let w = p.write(&mut out);
                                // a text field that must not be empty may be refused
                                if w.is_ok() {
                                    let got = model::dec::decode(ver, &out);
                                    if !matches!((&got, &x.2), (Ok((g, _)), Ok((m, _))) if g.norm() == m.norm()) {
                                        return Err(format!("v{ver} {p:?} is written as {} with {:?} and then {:?} in the same place", hex(&out), a.0, b.0));
                                    }
                                }
                            }
                        }
                    }
                    ctx.case("a text and all others");
                }
            }
            Ok(())
        })
        .single(),
    );
    // a text that is refused, and then one as long, in one place
    v.push(expl("a text of every length up to 40, refused or not, and one as long, in every text field of every packet", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let (e, fields) = super::decode::content_fields(ver, t, *ch.of(&BASES));
        for n in (1..=40usize).chain([64, 100, 128, 256]) {
            let good: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
            let mut other = good.clone();
            other[n - 1] = b'_';
            let mut front = good.clone();
            front[0] = 0xFF;
            let mut end = good.clone();
            end[n - 1] = 0xC3;
            for field in &fields {
                let fs: Vec<Vec<u8>> = [&good, &other, &front, &end].iter().map(|c| crate::bytesgen::with_content(&e, *field, c)).collect();
                let want: Vec<_> = fs.iter().map(|f| model::dec::decode(ver, f)).collect();
                for (a, b) in [(2, 0), (3, 0), (2, 1), (0, 2), (0, 3), (0, 1), (2, 3)] {
                    for x in [a, b, a] {
                        let (r, _) = adapt::read_slice(ver, &fs[x], usize::MAX);
                        crate::stream::agree(ver, &fs[x], &r, &want[x]).map_err(|e| format!("after a read of {} or {}: {e}", hex(&fs[a]), hex(&fs[b])))?;
                    }
                }
                ctx.case("a refused text and another");
            }
        }
        Ok(())
    }).single());
    // a publish with any packet id, and then one that leaves its topic out
    v.push(expl("a publish with any packet id, topic alias or both, then one with an empty topic", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let qos = ch.pick(3) as u8;
        for id in (1..=1100u16).chain([4095, 4096, 0x1234, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]) {
            for alias in [false, true] {
                if alias && ver == 4 {
                    continue;
                }
                let props = |on: bool| if on { vec![(35, PV::U16(id))] } else { vec![] };
                let one = M::Publish { dup: false, qos, retain: false, topic: "t/u".into(), pkid: if qos > 0 { id } else { 0 }, props: props(alias), payload: vec![1] };
                let two = |pkid: u16, on: bool| M::Publish { dup: false, qos, retain: false, topic: String::new(), pkid: if qos > 0 { pkid } else { 0 }, props: props(on), payload: vec![2] };
                for (a, b) in [(one.clone(), two(id, alias)), (one.clone(), two(id, !alias && ver == 5)), (one, two(9, alias))] {
                    for m in [&a, &b] {
                        let f = enc::encode(ver, m, enc::Form::Full).bytes;
                        let (r, _) = adapt::read_slice(ver, &f, usize::MAX);
                        match &r {
                            Ok(p) if p.model().norm() == m.norm() => {}
                            Err(_) if std::ptr::eq(m, &b) => {}
                            _ => return Err(format!("v{ver} {m:?} is read as {} after reads of publishes like {a:?}", res(&r))),
                        }
                        let mut out = BytesMut::new();
                        if Pk::from_model(ver, m, false).write(&mut out).is_ok() && out[..] != f[..] {
                            return Err(format!("v{ver} {m:?} is written as {} after publishes like {a:?}", hex(&out)));
                        }
                    }
                    ctx.case("a publish and one without topic");
                }
            }
        }
        Ok(())
    }).single());
    // cheap calls a very large number of times
    let reps = if th { 5_000_000usize } else { 1_100_000 };
    v.push(
        expl(format!("cheap calls, each {reps} times in a row"), 0, move |ctx, ch| {
            let n = 14;
            let i = ch.pick(n);
            let small4 = Pk::from_model(4, &gen::base_packet(4, 12, gen::Base::Minimal), false);
            let small5 = Pk::from_model(5, &gen::base_packet(5, 4, gen::Base::Minimal), false);
            let p4 = Pk::from_model(4, &gen::base_packet(4, 3, gen::Base::Minimal), false);
            let p5 = Pk::from_model(5, &gen::base_packet(5, 3, gen::Base::Minimal), false);
            let mut out = BytesMut::with_capacity(1 << 10);
            let mut f4 = BytesMut::new();
            let mut f5 = BytesMut::new();
            p4.write(&mut f4).map_err(|e| format!("{e:?}"))?;
            p5.write(&mut f5).map_err(|e| format!("{e:?}"))?;
            let mut read = |ver: u8, b: &[u8]| {
                out.clear();
                out.extend_from_slice(b);
                let r = adapt::read(ver, &mut out, 1 << 20);
                format!("{r:?} {}", out.len())
            };
            let mut one = || -> String {
                match i {
                    0 => format!("{:?}", adapt::check(&[0x30, 0xFF, 0xFF, 0xFF, 0x7F], usize::MAX)),
                    1 => format!("{:?}", adapt::check(&[0xC0, 0], usize::MAX)),
                    2 => read(4, &[0xC0, 0]),
                    3 => read(5, &[0x40, 2, 0, 7]),
                    4 => read(4, &f4),
                    5 => read(5, &f5),
                    6 => read(4, &[0x30, 0xFF]),
                    7 => read(5, &[0xF0, 0]),
                    8 => format!("{}", mqttbytes::matches("a/b", "a/+")),
                    9 => format!("{}{}", mqttbytes::valid_filter("a/#"), mqttbytes::valid_topic("a/b")),
                    10 | 11 => {
                        let mut b = BytesMut::new();
                        let r = if i == 10 { small4.write(&mut b) } else { small5.write(&mut b) };
                        format!("{r:?} {b:?}")
                    }
                    _ => {
                        let mut b = BytesMut::new();
                        let r = if i == 12 { p4.write(&mut b) } else { p5.write(&mut b) };
                        format!("{r:?} {b:?}")
                    }
                }
            };
            let first = one();
            for k in 1..reps {
                let now = one();
                if now != first {
                    return Err(format!("call {i} gives {first} at first, and {now} the {}th time", k + 1));
                }
            }
            ctx.case("calls repeated");
            Ok(())
        })
        .single(),
    );
    let more = Arc::new(more_ops());
    let core = all.clone();
    let reps = if th { 70_000usize } else { 1_100 };
    v.push(
        expl(format!("{} further calls (every menu packet, every kind of failure): each {reps} times, and alternating with each of the first {} and with each other", more.len(), all.len()), 0, move |ctx, ch| {
            let x = ch.of(&more);
            let mut w = World::new();
            let first = apply(&mut w, x, None)?;
            let again = |ctx: &mut Ctx, what: &dyn Fn() -> String| -> Outcome {
                let s = apply(&mut World::new(), x, None)?;
                if s != first {
                    return Err(format!("the call {} gives {first} at first and {s} {}", brief(x), what()));
                }
                ctx.case("repetition");
                Ok(())
            };
            for _ in 0..reps {
                again(ctx, &|| "later".into())?;
            }
            for (k, o) in core.iter().enumerate() {
                apply(&mut World::new(), o, Some(k))?;
                again(ctx, &|| format!("after {}", brief(o)))?;
            }
            for o in more.iter() {
                let mut w = World::new();
                apply(&mut w, o, None)?;
                // on the same connections, too, where the first left nothing unread
                let s = apply(&mut w, x, None)?;
                if s != first && w.inp_m.iter().all(|b| b.is_empty()) {
                    return Err(format!("the call {} gives {first} at first and {s} after {}", brief(x), brief(o)));
                }
                again(ctx, &|| format!("after {}", brief(o)))?;
            }
            Ok(())
        })
        .single(),
    );
    let a = all.clone();
    v.push(
        expl("one call 300 times, then another one 300 times, then the first again, every pair", 0, move |ctx, ch| {
            let i = ch.pick(a.len());
            let j = ch.pick(a.len());
            for k in [i, j, i] {
                for _ in 0..if th { 300 } else { 260 } {
                    let mut w = World::new();
                    apply(&mut w, &a[k], Some(k)).map_err(|e| format!("calls {} and {}: {e}", brief(&a[i]), brief(&a[j])))?;
                }
            }
            ctx.case("pair");
            Ok(())
        })
        .single(),
    );
    // one connection is left in the middle of a frame, of any size and cut, while others are served
    v.push(
        expl("a connection left in the middle of a frame of any size, then any frame on the other one, then the rest of it", 0, move |ctx, ch| {
            let c = ch.pick(2);
            let ver = VER[c];
            let mut heads: Vec<Vec<u8>> = vec![];
            for t in [1u8, 3, 4, 8, 9, 14, 15] {
                for n in [0usize, 1, 2, 5, 20, 127, 128, 129, 130, 200, 300, 16_383, 16_384, 20_000, 2_097_151, 2_097_152, 268_435_455] {
                    heads.push([&[if t == 8 { 0x82 } else { t << 4 }][..], &enc::varint(n)].concat());
                }
            }
            heads.push(vec![0x31, 0x85]);
            heads.push(vec![0x31, 0x85, 0x80]);
            heads.push(vec![0x31, 0x85, 0x80, 0x80]);
            let head = ch.of(&heads);
            let limit = *ch.of(&[usize::MAX, 1000]);
            let mut frames: Vec<(u8, Vec<u8>)> = vec![];
            for ver in [4u8, 5] {
                for m in gen::menu(ver) {
                    frames.push((ver, enc::encode(ver, &m, enc::Form::Full).bytes));
                }
                for t in [3u8, 9] {
                    for n in [126usize, 127, 128, 300, 16_384] {
                        let mut m = gen::base_packet(ver, t, gen::Base::Minimal);
                        if grow_remaining(ver, &mut m, n) {
                            frames.push((ver, enc::encode(ver, &m, enc::Form::Full).bytes));
                        }
                    }
                }
                frames.push((ver, vec![head[0], 0]));
                frames.push((ver, vec![head[0], 3, 0, 1, 0]));
                frames.push((ver, vec![head[0], 0x80, 1, 0, 1, b'a']));
                frames.push((ver, [&[head[0], 0x85, 1][..], &[1; 133]].concat()));
                frames.push((ver, [&[head[0], 0xFF, 0x7F][..], &[0; 16_383]].concat()));
            }
            for extra in [0usize, 1, 100] {
                let part = [&head[..], &vec![0; extra]].concat();
                for (v2, fr) in &frames {
                    let alone = adapt::read_slice(*v2, fr, limit);
                    let mut left = BytesMut::from(&part[..]);
                    let first = adapt::read(ver, &mut left, limit);
                    let r = adapt::read_slice(*v2, fr, limit);
                    if r != alone {
                        return Err(format!("v{v2} {} is read as {} alone, and as {} after a v{ver} read of {} on another connection", hex(fr), res(&alone.0), res(&r.0), hex(&part)));
                    }
                    if first.is_ok() || left.len() != part.len() {
                        ctx.case("not interrupted");
                        continue;
                    }
                    let second = adapt::read(ver, &mut left, limit);
                    if first != second || left[..] != part[..] {
                        return Err(format!("v{ver} read of {} gives {} and, {} having been read elsewhere, {}", hex(&part), res(&first), hex(fr), res(&second)));
                    }
                    // the buffer of the unfinished frame is used for another one
                    left.clear();
                    left.extend_from_slice(fr);
                    let r = adapt::read(*v2, &mut left, limit);
                    if (&r, &left) != (&alone.0, &alone.1) {
                        return Err(format!("v{v2} {} is read as {} alone, and as {} from a buffer in which {} was left unfinished before", hex(fr), res(&alone.0), res(&r), hex(&part)));
                    }
                    ctx.case("interrupted");
                }
            }
            Ok(())
        })
        .single(),
    );
    // threads take turns, one call at a time: every assignment of calls to two threads
    let a = all.clone();
    let (d1, reps) = if th { (3usize, 3) } else { (2, 2) };
    v.push(
        expl(format!("every history of {d1} calls over {} calls, every assignment of them to two fresh threads that take turns", all.len()), 0, move |ctx, ch| {
            let first = ch.pick(a.len());
            let mut idx = vec![0usize; d1];
            idx[0] = first;
            loop {
                for owners in 0..1usize << (d1 - 1) {
                    // the first call is thread 0's; bit k says whose call k + 1 is
                    let who = |k: usize| if k == 0 { 0 } else { owners >> (k - 1) & 1 };
                    turns(&a, &idx, &who, reps)?;
                    ctx.case("turns");
                }
                let mut k = d1;
                loop {
                    k -= 1;
                    if k < 1 {
                        return Ok(());
                    }
                    idx[k] += 1;
                    if idx[k] < a.len() {
                        break;
                    }
                    idx[k] = 0;
                }
            }
        })
        .single(),
    );
    let extra = Arc::new(more_ops());
    v.push(
        expl(format!("each of {} further calls as the first of a fresh thread, packets handed from thread to thread", extra.len()), 0, move |ctx, ch| {
            let o = ch.of(&extra);
            let here = apply(&mut World::new(), o, None)?;
            let there = std::thread::scope(|s| s.spawn(|| apply(&mut World::new(), o, None)).join().unwrap_or_else(|_| Err(format!("panic: {}", crate::explore::take_panic()))))?;
            if here != there {
                return Err(format!("the call {} gives {here}, and {there} in a fresh thread", brief(o)));
            }
            if let Op::Write { c, m } = o {
                // built and written here, read there, written here again, read there
                let ver = VER[*c];
                let mut b = BytesMut::new();
                Pk::from_model(ver, m, false).write(&mut b).map_err(|e| format!("{e:?}"))?;
                for _ in 0..2 {
                    let p = std::thread::scope(|s| s.spawn(|| adapt::read(ver, &mut b, usize::MAX)).join().map_err(|_| "panic in a fresh thread".to_string()))?;
                    match &p {
                        Ok(p) if p.model().norm() == m.norm() => {}
                        x => return Err(format!("v{ver} {m:?}, written here and read in another thread, is {}", res(x))),
                    }
                    p.unwrap().write(&mut b).map_err(|e| format!("{e:?}"))?;
                }
            }
            ctx.case("fresh thread");
            Ok(())
        })
        .single(),
    );
    // wide alternation on a persistent buffer: every frame of the menu after every other
    v.push(
        expl("every triple of menu packets written and read back on two connections' persistent buffers", 0, move |ctx, ch| {
            let menus = [gen::menu(4), gen::menu(5)];
            let c0 = ch.pick(2);
            let m0 = ch.of(&menus[c0]).clone();
            let c1 = ch.pick(2);
            let m1 = ch.of(&menus[c1]).clone();
            for c2 in 0..2 {
                for m2 in &menus[c2] {
                    let mut bufs: [BytesMut; 2] = Default::default();
                    let seq = [(c0, &m0), (c1, &m1), (c2, m2)];
                    for (c, m) in seq {
                        Pk::from_model(VER[c], m, false).write(&mut bufs[c]).map_err(|e| format!("{e:?}"))?;
                    }
                    for (c, m) in seq {
                        let got = adapt::read(VER[c], &mut bufs[c], usize::MAX);
                        match &got {
                            Ok(p) if p.model().norm() == m.norm() => {}
                            x => return Err(format!("v{} {m:?}, written and read among others, is read as {}", VER[c], res(x))),
                        }
                    }
                    ctx.case("triple");
                }
            }
            Ok(())
        })
        .single(),
    );
    // the results of the value space do not depend on what came before: everything twice, the
    // second time after everything else of the packet's type
    for e in value_space(
        BOTH,
        false,
        Arc::new(|ctx, ver, m| {
            let p = Pk::from_model(ver, m, false);
            let (mut a, mut b) = (BytesMut::new(), BytesMut::new());
            let ra = p.write(&mut a);
            let other = Pk::from_model(ver, &gen::base_packet(ver, 3, gen::Base::Full), false);
            let _ = other.write(&mut BytesMut::new());
            let _ = adapt::read_slice(ver, &[0x30, 0xFF, 0xFF, 0xFF, 0xFF], 10);
            let rb = p.write(&mut b);
            if ra != rb || a != b {
                return Err(format!("v{ver} {m:?} is written as {} and then as {}", hex(&a), hex(&b)));
            }
            let x = adapt::read(ver, &mut a, usize::MAX);
            let _ = other.write(&mut BytesMut::new());
            let y = adapt::read(ver, &mut b, usize::MAX);
            if x != y {
                return Err(format!("v{ver} {m:?} is read as {} and then as {}", res(&x), res(&y)));
            }
            ctx.case("twice the same");
            Ok(())
        }),
    ) {
        v.push(e);
    }
    // the same for frames, good and bad: read twice, other calls in between
    for e in frame_space(
        BOTH,
        false,
        Arc::new(|ctx, ver, b| {
            let (x, left) = adapt::read_slice(ver, b, usize::MAX);
            let (y, left2) = adapt::read_slice(ver, b, usize::MAX);
            if x != y || left != left2 {
                return Err(format!("v{ver} {} is read as {} and then as {}", hex(b), res(&x), res(&y)));
            }
            ctx.case("twice the same");
            Ok(())
        }),
    ) {
        v.push(e);
    }
    v
}
