//! C11: messages between this implementation and an independent peer over a simulated network.
use crate::world::*;
use simkit::simio::{Plan, Stream};
use simkit::{below, chance, cx::fail, src, Cx, R};
use simmodel::codec::*;
use simmodel::model::Model;
use simmodel::value::Value;
use std::collections::{BTreeMap, BTreeSet};

/// A conforming peer is free to choose among the legal packings of an array.
struct AnyPack(u64);
impl PackChoice for AnyPack {
    fn choose(&mut self, min: Option<u32>, default: Option<u32>) -> Option<u32> {
        match (self.0, min) {
            (0, _) | (_, None) => default,
            (1, Some(b)) => Some(b),
            (_, Some(b)) => match below(4) {
                0 => None,
                1 => Some(b),
                2 => Some((b + below(3) as u32).min(62)),
                _ => Some(b + below(63 - b as u64) as u32),
            },
        }
    }
}
struct Pkt {
    to: usize,
    msg: usize,
    frag: u32,
    total: u32,
    ack: bool,
    /// restarts before it was sent
    epoch: u64,
    data: Vec<u8>,
}
struct Faults {
    drop: u64,
    dup: u64,
    delay: u64,
    until: u64,
    mtu: usize,
}
/// A message on its way: fragments are sent again until all are acknowledged.
struct Out_ {
    from: usize,
    bytes: Vec<u8>,
    acked: BTreeSet<u32>,
    next: u64,
    rto: u64,
}
struct Net {
    now: u64,
    seq: u64,
    flight: BTreeMap<(u64, u64), Pkt>,
    f: Faults,
    parts: [BTreeMap<usize, BTreeMap<u32, Vec<u8>>>; 2],
    out: Vec<Out_>,
    done: Vec<Option<Vec<u8>>>,
    split: bool,
    epoch: u64,
}
impl Net {
    fn send(&mut self, cx: &mut Cx, p: Pkt) {
        let calm = self.now >= self.f.until;
        if self.split && !calm {
            cx.fault("partitioned", p.frag as u64);
            return;
        }
        if !calm && chance(self.f.drop, 64) {
            cx.fault("packet-dropped", p.frag as u64 + 100 * p.ack as u64);
            return;
        }
        let copies = if !calm && chance(self.f.dup, 64) {
            cx.fault("packet-duplicated", p.frag as u64);
            2
        } else {
            1
        };
        for _ in 0..copies {
            let mut d = 1_000 + below(4) * 500;
            if !calm && chance(self.f.delay, 64) {
                d += below(400_000);
                cx.fault("packet-delayed", p.frag as u64);
            }
            self.seq += 1;
            let q = Pkt { to: p.to, msg: p.msg, frag: p.frag, total: p.total, ack: p.ack, epoch: self.epoch, data: p.data.clone() };
            self.flight.insert((self.now + d, self.seq), q);
        }
    }
    fn push(&mut self, cx: &mut Cx, msg: usize) {
        let o = &self.out[msg];
        let total = o.bytes.len().div_ceil(self.f.mtu).max(1) as u32;
        let to = 1 - o.from;
        let pk: Vec<Pkt> = (0..total)
            .filter(|i| !o.acked.contains(i))
            .map(|i| {
                let a = i as usize * self.f.mtu;
                Pkt { to, msg, frag: i, total, ack: false, epoch: 0, data: o.bytes[a..(a + self.f.mtu).min(o.bytes.len())].to_vec() }
            })
            .collect();
        for p in pk {
            self.send(cx, p);
        }
        let o = &mut self.out[msg];
        o.next = self.now + o.rto;
        o.rto = (o.rto * 2).min(2_000_000);
    }
}
/// Is a failure of the listed deviation and nothing else?
fn class(kind: &str, t: &str, quirk_explains: bool) -> String {
    if quirk_explains {
        format!("align-optional-order:{}", t)
    } else {
        format!("{}:{}", kind, t)
    }
}
fn understood(m: &Model, ty: usize, b: &[u8], v: &Value) -> Result<(), String> {
    let d = decode_at(m, ty, b, 0, work_limit_for(b.len()));
    match &d.value {
        Err(e) => return Err(format!("the peer cannot decode it: {:?}", e)),
        Ok(x) if x != v => return Err(format!("the peer decodes {}", show(x))),
        _ => {}
    }
    if d.bits.div_ceil(8) != b.len() as u64 {
        return Err(format!("{} bytes were sent, the peer needs {} bits", b.len(), d.bits));
    }
    match encode_with(m, v, &mut SamePack(d.packs, 0)) {
        Ok(e) if e == b => Ok(()),
        Ok(e) => Err(format!("the peer encodes the value as {}", hex(&e))),
        Err(e) => Err(format!("the peer cannot encode the value: {}", e)),
    }
}
fn work_limit_for(n: usize) -> u64 {
    100_000 + 64 * n as u64
}
pub fn c11(cx: &mut Cx) -> R {
    let w = world();
    let n = 1 + below(4) as usize;
    let mut msgs: Vec<(Case, usize)> = vec![];
    for _ in 0..n {
        if let Some(c) = draw_case() {
            let from = below(2) as usize;
            msgs.push((c, from));
        }
    }
    if msgs.is_empty() {
        cx.count("skipped");
        return Ok(());
    }
    let f = Faults { drop: [0, 4, 20][below(3) as usize], dup: [0, 8, 24][below(3) as usize], delay: [0, 16, 48][below(3) as usize], until: [0, 200_000, 1_000_000][below(3) as usize], mtu: [1400, 1, 3, 8, 40][below(5) as usize] };
    let mtu = msgs.len();
    let mut net = Net { now: 0, seq: 0, flight: BTreeMap::new(), f, parts: Default::default(), out: vec![], done: (0..mtu).map(|_| None).collect(), split: false, epoch: 0 };
    // node 0 runs the code under test, node 1 the reference peer
    for (i, (c, from)) in msgs.iter().enumerate() {
        let bytes = if *from == 0 {
            match enc(&*c.t.make(&c.v)) {
                Out::Ok(b) => b,
                r => {
                    // C03 decides whether every value can be stored
                    cx.count("skipped:encode-refused");
                    cx.note(|| format!("{} not encoded: {}", c.t.name(), r.show(|_| "".into())));
                    vec![]
                }
            }
        } else {
            let style = below(3);
            match legal(&w.m, &c.v, style) {
                Some(b) => b,
                None => {
                    cx.count("skipped:peer");
                    vec![]
                }
            }
        };
        cx.sign(src::hash_bytes(c.t.idx() as u64, &bytes));
        cx.note(|| format!("message {} from node {}: {} {} as {}", i, from, c.t.name(), show(&c.v), hex(&bytes)));
        net.out.push(Out_ { from: *from, bytes, acked: BTreeSet::new(), next: 0, rto: 20_000 });
    }
    for i in 0..net.out.len() {
        if net.out[i].bytes.len() > 600 {
            net.f.mtu = net.f.mtu.max(1400);
        }
        // huge messages in a bounded number of packets
        net.f.mtu = net.f.mtu.max(net.out[i].bytes.len() / 300);
    }
    for i in 0..net.out.len() {
        net.push(cx, i);
    }
    let mut steps = 0u64;
    let mut crashes = below(3);
    loop {
        steps += 1;
        if net.done.iter().all(|d| d.is_some()) {
            break;
        }
        if steps > 20_000 {
            return fail("harness:no-progress", "messages are not delivered although the faults stopped");
        }
        let next_pkt = net.flight.keys().next().map(|k| k.0);
        let next_rto = (0..net.out.len()).filter(|i| net.done[*i].is_none()).map(|i| net.out[i].next).min();
        let Some(t) = [next_pkt, next_rto].into_iter().flatten().min() else { break };
        net.now = net.now.max(t);
        if net.now < net.f.until && crashes > 0 && chance(1, 24) {
            // a node restarts: what it received in part and what it knows of acknowledgements is gone
            crashes -= 1;
            let node = below(2) as usize;
            net.parts[node].clear();
            net.epoch += 1;
            net.out.iter_mut().for_each(|o| o.acked.clear());
            cx.fault("node-restarted", node as u64);
            for (i, (c, from)) in msgs.iter().enumerate() {
                if *from == 0 && node == 0 && !net.out[i].bytes.is_empty() {
                    // the sender produces its message again from the stored object
                    if let Out::Ok(b) = enc(&*c.t.make(&c.v)) {
                        if b != net.out[i].bytes {
                            return fail(format!("encode-differs:{}", c.t.name()), format!("{}: {} was encoded as {} and after a restart as {}", c.t.name(), show(&c.v), hex(&net.out[i].bytes), hex(&b)));
                        }
                    }
                }
            }
        }
        if chance(1, 40) {
            net.split = !net.split;
        }
        for i in 0..net.out.len() {
            if net.done[i].is_none() && net.out[i].next <= net.now {
                cx.count("retransmissions");
                net.push(cx, i);
            }
        }
        if next_pkt == Some(t) || next_pkt.map(|p| p <= net.now).unwrap_or(false) {
            let k = *net.flight.keys().next().unwrap();
            let p = net.flight.remove(&k).unwrap();
            if p.ack {
                if p.epoch == net.epoch {
                    net.out[p.msg].acked.insert(p.frag);
                }
                continue;
            }
            cx.count("packets-delivered");
            net.send(cx, Pkt { to: 1 - p.to, msg: p.msg, frag: p.frag, total: p.total, ack: true, epoch: 0, data: vec![] });
            if net.done[p.msg].is_some() {
                continue;
            }
            let e = net.parts[p.to].entry(p.msg).or_default();
            e.insert(p.frag, p.data);
            if e.len() as u32 == p.total {
                let all: Vec<u8> = net.parts[p.to].remove(&p.msg).unwrap().into_values().flatten().collect();
                deliver(cx, &msgs[p.msg].0, msgs[p.msg].1, &all, &net.out[p.msg].bytes, net.f.mtu)?;
                net.done[p.msg] = Some(all);
            }
        }
    }
    cx.event(net.now * 1000);
    cx.nontrivial = true;
    Ok(())
}
fn legal(m: &Model, v: &Value, style: u64) -> Option<Vec<u8>> {
    // offsets depend on the packing: what is chosen must be chosen again
    let mut v = v.clone();
    let mut d = DefaultPack;
    let mut any = AnyPack(style);
    let has_offsets = {
        let mut e = Enc::new(m, &mut d);
        e.comp(v.comp(), None).ok()?;
        !e.fix.is_empty()
    };
    if has_offsets {
        let _ = fix_offsets(m, &mut v);
        return encode(m, &v).ok();
    }
    encode_with(m, &v, &mut any).ok()
}
fn deliver(cx: &mut Cx, c: &Case, from: usize, b: &[u8], sent: &[u8], mtu: usize) -> R {
    let w = world();
    let t = c.t.name();
    if b != sent {
        return fail("harness:transport", "the simulated transport changed the message");
    }
    if b.is_empty() && encode(&w.m, &c.v).map(|x| !x.is_empty()).unwrap_or(true) {
        return Ok(());
    }
    if from == 0 {
        cx.count("sent-to-peer");
        if let Err(why) = understood(&w.m, c.t.idx(), b, &c.v) {
            let q = understood(&w.q, c.t.idx(), b, &c.v).is_ok();
            return fail(class("not-understood", t, q), format!("{}: {} was sent as {}; {}", t, show(&c.v), hex(b), why));
        }
        return Ok(());
    }
    cx.count("received-from-peer");
    let mut p = Plan::calm();
    p.short = 40;
    let mut s = Stream::source(b.to_vec(), p, mtu as u64);
    let got = call(STEPS, MEMORY, || c.t.from_reader(&mut s)).0;
    s.report(cx, "receive");
    let good = match &got {
        Out::Ok(o) => norm(&o.value()).as_ref() == Some(&c.v),
        _ => false,
    };
    if !good {
        let q = decode_at(&w.q, c.t.idx(), b, 0, work_limit_for(b.len()));
        let explained = decode_at(&w.m, c.t.idx(), b, 0, work_limit_for(b.len())).value.as_ref() == Ok(&c.v)
            && match (&got, &q.value) {
                (Out::Ok(o), Ok(x)) => norm(&o.value()).as_ref() == Some(x),
                (Out::Err(..), Err(_)) => true,
                _ => false,
            };
        return fail(class("misunderstood", t, explained), format!("{}: the peer sent {} as {}; received as {}", t, show(&c.v), hex(b), got.show(|o| show(&o.value()))));
    }
    Ok(())
}
