use crate::comp::*;
use crate::grammar::{Grammar, Verdict};
use crate::{tree, whole};
use simkit::cx::{fail, Panicked};
use simkit::{below, chance, machine, range, sched, simfs, src, Cx, R};
use std::sync::{Arc, Mutex, OnceLock};

fn show(t: &Tree) -> String {
    t.iter().map(|(p, b)| format!("{} ({} bytes, hash {:x})", p, b.len(), src::hash_bytes(1, b) & 0xffffff)).collect::<Vec<_>>().join(", ")
}
fn note_tree(cx: &mut Cx, t: &Tree) {
    cx.sign(key(t, ""));
    trace_tree(cx, t);
}
fn trace_tree(cx: &mut Cx, t: &Tree) {
    if cx.tracing {
        for (p, b) in t {
            let s = String::from_utf8_lossy(b).to_string();
            cx.note(|| format!("schema file {}: {}", p, s.replace('\n', "\\n")));
        }
    }
}
/// The tree at other places, created in another order.
fn moved(t: &Tree) -> Tree {
    let mut v: Tree = t
        .iter()
        .enumerate()
        .map(|(i, (p, b))| {
            let p = match below(5) {
                0 => p.clone(),
                1 => format!("a{}/b/{}", 9 - i % 10, p),
                2 => format!("{}{}.zs", ["z", "m", "A"][below(3) as usize], i),
                3 => format!("deep/{}/{}/x.zserio", below(5), i),
                _ => format!("{}.ZSERIO", below(1 << 20) * 64 + i as u64),
            };
            (p, b.clone())
        })
        .collect();
    for i in (1..v.len()).rev() {
        v.swap(i, below(i as u64 + 1) as usize);
    }
    if v.iter().map(|x| &x.0).collect::<std::collections::HashSet<_>>().len() < v.len() {
        return t.clone();
    }
    v
}
/// The words of a text with their positions.
fn words(b: &[u8]) -> Vec<(usize, usize)> {
    let mut l = vec![];
    let mut i = 0;
    while i < b.len() {
        let n = b[i..].iter().take_while(|c| c.is_ascii_alphanumeric() || **c == b'_').count();
        if n > 0 && b[i].is_ascii_alphabetic() {
            l.push((i, n));
        }
        i += n.max(1);
    }
    l
}
/// A name of the tree is spelled in another way everywhere.
fn renamed(t: &mut Tree) {
    let i = below(t.len() as u64) as usize;
    let all = words(&t[i].1);
    // the names of definitions have upper case letters
    let l: Vec<_> = all.iter().filter(|(k, n)| *n > 2 && t[i].1[*k].is_ascii_uppercase()).copied().collect();
    let l = if l.is_empty() || chance(1, 4) { all } else { l };
    if l.is_empty() {
        return;
    }
    let (k, n) = l[below(l.len() as u64) as usize];
    let old = t[i].1[k..k + n].to_vec();
    let mut new = old.clone();
    let at = 1 + below(n as u64) as usize;
    match below(4) {
        0 => new.insert(at, b'_'),
        1 => new.insert(at, b'0' + below(10) as u8),
        _ => {
            let letters: Vec<usize> = (1..n).filter(|k| new[*k].is_ascii_alphabetic()).collect();
            if let Some(k) = letters.get(below(letters.len().max(1) as u64) as usize) {
                new[*k] ^= 0x20;
            }
        }
    }
    for (_, b) in t.iter_mut() {
        let mut out = vec![];
        let mut from = 0;
        for (k, n) in words(b) {
            if b[k..k + n] == old[..] {
                out.extend_from_slice(&b[from..k]);
                out.extend_from_slice(&new);
                from = k + n;
            }
        }
        out.extend_from_slice(&b[from..]);
        *b = out;
    }
}
/// An earlier version of the tree: one edit, which often keeps the size of the file.
fn edited(t: &Tree) -> Tree {
    let mut t = t.clone();
    for _ in 0..range(1, 2) {
        if chance(1, 3) && !t.is_empty() {
            renamed(&mut t);
            continue;
        }
        let i = below(t.len() as u64) as usize;
        let b = &mut t[i].1;
        let from = b.windows(7).position(|w| w == b"package").and_then(|k| b[k..].iter().position(|c| *c == b';').map(|e| k + e)).unwrap_or(0);
        let at: Vec<usize> = (from..b.len()).filter(|k| b[*k].is_ascii_alphanumeric()).collect();
        if at.is_empty() {
            continue;
        }
        let k = at[below(at.len() as u64) as usize];
        match below(4) {
            0 => b.extend_from_slice(b"\nstruct Earlier { uint8 a; };\n"),
            1 => b.truncate(k),
            _ => {
                b[k] = match b[k] {
                    b'0'..=b'9' => b'0' + (b[k] - b'0' + 1) % 10,
                    b'a'..=b'z' => b'a' + (b[k] - b'a' + 1) % 26,
                    c => b'A' + (c - b'A' + 1) % 26,
                }
            }
        }
    }
    t
}
/// Sometimes a tree that has to be refused, or whose files contend for the same output.
fn contended(t: &mut Tree) -> bool {
    if !chance(1, 6) || t.is_empty() {
        return false;
    }
    let i = below(t.len() as u64) as usize;
    let text = String::from_utf8_lossy(&t[i].1).to_string();
    match below(5) {
        3 => {
            // a package with another name and the same Rust module
            let name = text.find("package").map(|k| text[k + 7..].split(';').next().unwrap_or("").trim().to_string()).unwrap_or_default();
            let other = match below(4) {
                0 => format!("{}_", name),
                1 => name.to_uppercase(),
                2 => name.replace('.', "._"),
                _ => format!("{}{}", name[..1].to_uppercase(), &name[1..]),
            };
            if other != name {
                t.push(("second/copy.zs".into(), format!("package {};\nstruct OnlyHere{} {{ uint8 a; }};\n", other, below(4)).into_bytes()));
            }
        }
        4 => {
            // definitions of different kinds with one name, or one Rust module
            let n = ["Thing", "thing", "THING", "Thing_"];
            let mut k = ["struct N { uint8 a; };", "union N { uint8 a; string b; };", "enum uint8 N { A, B };", "bitmask uint8 N { A, B };", "subtype uint16 N;", "const uint8 N = 3;", "choice N(uint8 a) on a { case 1: uint8 b; };", "struct PairFor<A> { A a; };\ninstantiate PairFor<uint8> N;"];
            for i in 0..2 {
                let j = i + below((k.len() - i) as u64) as usize;
                k.swap(i, j);
            }
            let (a, b) = (below(4) as usize, below(4) as usize);
            t[i].1 = format!("{}\n{}\n{}\n", text, k[0].replace('N', n[a]), k[1].replace('N', n[b])).into_bytes();
        }
        0 => {
            // the same package in a second file, with another content
            let cut = text.find("package").and_then(|k| text[k..].find(';').map(|e| k + e + 1)).unwrap_or(0);
            t.push(("second/copy.zs".into(), format!("{}\nstruct OnlyHere{} {{ uint8 a; }};\n", &text[..cut], below(4)).into_bytes()));
        }
        1 => {
            // two names for the same Rust module
            let s = format!("{}\nstruct TwinName {{ uint8 a; }};\nstruct Twin_Name {{ string b; }};\n", text);
            t[i].1 = s.into_bytes();
        }
        _ => {
            let s = format!(
                "{}\nstruct PairOf<A, B> {{ A a; B b; }};\nstruct Xa {{ uint8 v; }};\nstruct Xab {{ uint16 v; }};\nstruct Bcd {{ uint32 v; }};\nstruct Cd {{ string v; }};\nstruct UsesPair1 {{ PairOf<Xa, Bcd> p; }};\nstruct UsesPair2 {{ PairOf<{}> p; }};\n",
                text,
                ["Xa, Bcd", "Xab, Cd", "bit:4, bit:5", "PairOf<Xa, Cd>, Cd"][below(4) as usize]
            );
            t[i].1 = s.into_bytes();
        }
    }
    true
}
fn outcome(r: &Result<(), Panicked>) -> &'static str {
    if r.is_ok() {
        "accepted"
    } else {
        "refused"
    }
}

pub fn c12(cx: &mut Cx) -> R {
    let mut t = tree::tree();
    if contended(&mut t) {
        cx.count("contended-trees");
    }
    let root = tree::root();
    note_tree(cx, &t);
    let want = fresh(&t, root);
    cx.count(if want.is_some() { "trees-accepted" } else { "trees-refused" });
    // other compilations: before it in the same thread, and at the same time in other threads
    let before = if chance(1, 3) { range(1, 2) } else { 0 };
    let others = if chance(1, 3) { range(1, 2) } else { 0 };
    let m = moved(&t);
    cx.note(|| format!("placed as {}", m.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")));
    // (tree, hash seed); what they yield by themselves is found out first, which also brings the
    // caches of the compiler's parser into the state they have in every repetition of this run
    let pres: Vec<Tree> = (0..before).map(|_| match below(4) {
        0 => t.clone(),
        1 if !t.is_empty() => edited(&t),
        _ => tree::tree(),
    }).collect();
    let rest: Vec<(Tree, u64)> = (0..others).map(|_| (if chance(1, 2) { t.clone() } else { tree::tree() }, below(1 << 32))).collect();
    for o in pres.iter().chain(rest.iter().map(|x| &x.0)) {
        fresh(o, "");
    }
    // an earlier version of the schema that was compiled by the same process from the same place
    let prior = (chance(1, 3) && !m.is_empty()).then(|| edited(&m));
    if let Some(e) = &prior {
        fresh(e, root);
        cx.fault("schema-edited-between", 0);
        if cx.tracing {
            cx.note(|| "compiled from the same place before:".to_string());
            trace_tree(cx, e);
        }
    }
    let same_out = prior.is_some() && chance(1, 2);
    let away = below(3);
    let schema = ["/sim/schema", "/sim/s", "/sim/home/user/project/schema"][away as usize];
    let out = ["/sim/out", "/sim/home/user/project/target/out", "/sim/o"][away as usize];
    simfs::reset();
    simfs::clock_moves(range(0, 400_000_000) as i64 * 1_000_000_000);
    sched::set_pid(range(1000, 60_000));
    let surroundings = below(1 << 40);
    machine::set(surroundings);
    if surroundings > 0 {
        cx.fault("other-machine", surroundings);
    }
    place(schema, prior.as_ref().unwrap_or(&m));
    simfs::mkdirs(out);
    simfs::mkdirs("/sim/out");
    let mut pre = vec![];
    for (i, o) in pres.iter().enumerate() {
        place(&format!("/sim/before{}", i), o);
        pre.push((format!("/sim/before{}", i), budget(o)));
    }
    let shuffle = chance(2, 3);
    let hash = below(1 << 32);
    let (b, r) = (budget(&t), root.to_string());
    simfs::arm(simfs::Plan { shuffle, ..simfs::Plan::calm() });
    cx.fault("hash-seed", hash);
    if shuffle {
        cx.fault("listing-shuffled", 0);
    }
    if m != t {
        cx.fault("files-moved", 0);
    }
    if before > 0 {
        cx.fault("compiled-before", before);
    }
    let got: Arc<Mutex<Vec<Option<Result<(), Panicked>>>>> = Arc::new(Mutex::new(vec![None; 1 + others as usize]));
    let main = {
        let (got, now) = (got.clone(), m.clone());
        move || {
            sched::set_hash_seed(hash);
            if surroundings > 0 {
                machine::shape_heap(surroundings);
            }
            for (i, (d, b)) in pre.iter().enumerate() {
                let _ = compile(d, &format!("/sim/out-before{}", i), "", *b);
            }
            if prior.is_some() {
                let _ = compile(schema, if same_out { out } else { "/sim/out-earlier" }, &r, b);
                simfs::replace(schema, &now);
            }
            let x = compile(schema, out, &r, b);
            got.lock().unwrap()[0] = Some(x);
        }
    };
    let mut extra = vec![];
    if others == 0 {
        alone(hash, main);
    } else {
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![Box::new(main)];
        for (i, (o, h)) in rest.into_iter().enumerate() {
            let (d, out) = (format!("/sim/other{}", i), format!("/sim/out-other{}", i));
            place(&d, &o);
            let (b, got, d2, o2) = (budget(&o), got.clone(), d.clone(), out.clone());
            bodies.push(Box::new(move || {
                sched::set_hash_seed(h);
                let x = compile(&d2, &o2, "", b);
                got.lock().unwrap()[1 + i] = Some(x);
            }));
            extra.push((o, out));
        }
        let o = sched::run(bodies);
        cx.add("thread-switches", o.switches);
        cx.add("preemption-points", o.preempts);
        cx.add("lock-waits", o.futex_waits);
        if o.clock_jumps > 0 {
            cx.fault("clock-jumped", 0);
        }
        cx.sign(o.sig);
        cx.fault("concurrent-compilation", others);
    }
    cx.event(simfs::sim_ns());
    simfs::disarm();
    let got = std::mem::take(&mut *got.lock().unwrap());
    sched::set_pid(0);
    machine::set(0);
    let mut all = vec![(t.clone(), root, out.to_string(), simfs::files(out))];
    for (o, out) in extra {
        all.push((o, "", out.clone(), simfs::files(&out)));
    }
    for (i, (t, root, out, files)) in all.into_iter().enumerate() {
        let want = if i == 0 { want.clone() } else { fresh(&t, root) };
        let r = got[i].clone().unwrap_or(Err(Panicked { at: "?".into(), msg: "did not end".into() }));
        cx.add("compilations-compared", 1);
        cx.note(|| format!("{}: {}", out, outcome(&r)));
        if i > 0 {
            trace_tree(cx, &t);
        }
        match (&want, &r) {
            (Some(_), Err(p)) => return fail("refused", format!("the schema {} is accepted by itself and refused here: {} at {}", show(&t), p.msg, p.at)),
            (None, Ok(())) => return fail("accepted", format!("the schema {} is refused by itself and accepted here", show(&t))),
            (Some(w), Ok(())) => {
                if let Some((k, d)) = diff(w, &files, same_out && i == 0) {
                    return fail(format!("output-{}", k), format!("two compilations of the same schema {} do not yield the same files: {} is {}", show(&t), d, k));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

const ERRNO: [i32; 10] = [5, 28, 13, 30, 24, 12, 116, 122, 110, 2];
pub fn c13(cx: &mut Cx) -> R {
    let t = tree::tree();
    let root = tree::root();
    note_tree(cx, &t);
    let Some(want) = fresh(&t, root) else {
        cx.count("skipped:refused-schema");
        return Ok(());
    };
    simfs::reset();
    place("/sim/schema", &t);
    // an old version may be in place
    if chance(1, 3) {
        for (p, b) in &want {
            if chance(1, 2) {
                simfs::put(&format!("/sim/out/{}", p), &b[..below(b.len() as u64) as usize]);
            }
        }
        cx.count("old-output-present");
    }
    let mut p = simfs::Plan { shuffle: chance(1, 2), ..simfs::Plan::calm() };
    let files = (t.len() + want.len()) as u64;
    match below(8) {
        0 => {
            p.short = range(1, 60);
            p.intr = below(40);
        }
        1 => {
            let total: u64 = want.values().map(|b| b.len() as u64).sum();
            p.space = Some(below(total + 1));
        }
        k => {
            p.fail_at = Some(1 + below(files * 2));
            p.only = [None, Some("open"), Some("read"), Some("opendir"), Some("readdir"), Some("create"), Some("write"), Some("mkdir"), Some("stat")][below(9) as usize];
            if p.only.is_none() {
                p.fail_at = Some(1 + below(files * 8));
            }
            p.errno = ERRNO[below(10) as usize];
            p.persistent = chance(1, 3);
            if k > 5 {
                p.short = range(1, 30);
                p.intr = below(20);
            }
        }
    }
    simfs::arm(p);
    let r = solo(&t, below(1 << 32), "/sim/schema", "/sim/out", root);
    let inj = simfs::injected();
    cx.event(simfs::sim_ns());
    let log = simfs::disarm();
    cx.add("fs-operations", log.len() as u64);
    let mut worst = String::new();
    for e in &log {
        match e.err {
            0 => {}
            -1 => cx.fault("short-transfer", e.op),
            4 => cx.fault("interrupted", e.op),
            n => {
                cx.fault(&format!("{}-error", e.kind), e.op);
                worst = format!("{} of {} failed with error {}", e.kind, e.path, n);
                cx.note(|| format!("operation {}: {} of {} fails with error {}", e.op, e.kind, e.path, n));
            }
        }
    }
    cx.note(|| format!("{}; {} faults injected", outcome(&r), inj));
    cx.count(if r.is_ok() { "outcome-success" } else { "outcome-failure" });
    if r.is_ok() {
        if inj > 0 {
            cx.count("success-despite-error");
        }
        if let Some((k, d)) = diff(&want, &simfs::files("/sim/out"), true) {
            return fail(format!("success-with-{}", k), format!("the compiler reported success, but {} is {}{}", d, k, if worst.is_empty() { String::new() } else { format!(" ({})", worst) }));
        }
    }
    Ok(())
}

/// Another version of the schema: definitions more, less or changed.
fn version(t: &Tree) -> Tree {
    let mut t = t.clone();
    for f in t.iter_mut() {
        let mut s = String::from_utf8_lossy(&f.1).to_string();
        match below(4) {
            0 => s += &format!("\nstruct Obsolete{} {{ uint8 a; string b; uint32 c[]; }};\n", below(3)),
            1 => s = s.replace("uint8 ", "uint16 "),
            2 => s = s.replacen("uint16 ", "string ", 1),
            _ => {}
        }
        f.1 = s.into_bytes();
    }
    t
}
pub fn c14(cx: &mut Cx) -> R {
    let t = tree::tree();
    let root = tree::root();
    note_tree(cx, &t);
    let Some(want) = fresh(&t, root) else {
        cx.count("skipped:refused-schema");
        return Ok(());
    };
    let old = version(&t);
    let older = if chance(1, 2) { fresh(&old, root) } else { None };
    simfs::reset();
    place("/sim/schema", &t);
    simfs::mkdirs("/sim/out");
    match below(4) {
        0 => {}
        1 => {
            for (p, b) in older.iter().flatten() {
                simfs::put(&format!("/sim/out/{}", p), b);
            }
            cx.count("older-version-present");
        }
        2 => {
            // longer, torn and foreign content
            for (p, b) in &want {
                let mut b = b.clone();
                match below(5) {
                    0 => continue,
                    1 => b.extend_from_slice(b"\npub struct Leftover { pub x: u8 }\n".repeat(range(1, 300) as usize).as_slice()),
                    2 => b.truncate(below(b.len() as u64) as usize),
                    3 => {
                        let n = b.len() as u64;
                        for _ in 0..range(1, 9) {
                            b[below(n) as usize] ^= 1 << below(8);
                        }
                    }
                    _ => b = vec![0; below(9000) as usize],
                }
                simfs::put(&format!("/sim/out/{}", p), &b);
            }
            cx.fault("damaged-output-present", 1);
        }
        _ => {
            for (p, b) in &want {
                simfs::put(&format!("/sim/out/{}", p), b);
            }
            cx.count("same-version-present");
        }
    }
    simfs::sync_all();
    let ops = 20 + (t.len() + want.len()) as u64 * 6;
    for k in 0..range(1, 3) {
        let mut p = simfs::Plan { shuffle: chance(1, 2), ..simfs::Plan::calm() };
        if chance(1, 3) {
            p.short = range(1, 30);
        }
        p.die_at = Some(below(ops));
        simfs::arm(p.clone());
        // the process that dies may have been started for the older version
        let _ = solo(&t, below(1 << 32), "/sim/schema", "/sim/out", root);
        let died = simfs::died();
        cx.event(simfs::sim_ns());
        let log = simfs::disarm();
        cx.add("fs-operations", log.len() as u64);
        if died {
            cx.fault("killed", p.die_at.unwrap());
            let n = log.len();
            cx.note(|| format!("compilation {} killed after {} operations ({:?})", k, n, log.last().map(|e| (e.kind, e.path.clone()))));
        }
        if chance(1, 2) {
            let mut v = vec![];
            simfs::power_loss(|p, w| v.push((p.to_string(), w)));
            for (p, w) in v {
                cx.fault(&format!("power-loss-{}", w), src::hash_bytes(3, p.as_bytes()));
                cx.note(|| format!("power loss: {} {}", p, w));
            }
            simfs::sync_all();
        }
    }
    let short = chance(1, 3);
    simfs::arm(simfs::Plan { shuffle: chance(1, 2), short: if short { range(1, 30) } else { 0 }, ..simfs::Plan::calm() });
    let r = solo(&t, below(1 << 32), "/sim/schema", "/sim/out", root);
    cx.event(simfs::sim_ns());
    simfs::disarm();
    cx.count("recoveries");
    if let Err(p) = &r {
        return fail("recovery-refused", format!("after the crashes the compiler no longer succeeds: {} at {}", p.msg, p.at));
    }
    if let Some((k, d)) = diff(&want, &simfs::files("/sim/out"), true) {
        return fail(format!("recovered-{}", k), format!("after the crashes a complete compilation leaves {} {}", d, k));
    }
    Ok(())
}

fn grammar() -> &'static Grammar {
    static G: OnceLock<Grammar> = OnceLock::new();
    G.get_or_init(Grammar::new)
}
/// Damages a stored file; says how.
fn damage(b: &mut Vec<u8>, other: &[u8]) -> (&'static str, u64) {
    let n = b.len() as u64;
    if n == 0 {
        return ("none", 0);
    }
    let region = |b: &[u8]| {
        let n = b.len() as u64;
        let a = below(n);
        let len = match below(4) {
            0 => 1 + below(4),
            1 => 1 + below(40),
            2 => 1 + below(n),
            _ => 512,
        };
        (a as usize, (a + len).min(n) as usize)
    };
    let (mut a, mut z) = region(b);
    // whole lines and whole blocks are what storage and editors lose
    if chance(1, 3) {
        while a > 0 && b[a - 1] != b'\n' {
            a -= 1;
        }
        while z < b.len() && b[z - 1] != b'\n' {
            z += 1;
        }
    }
    let at = a as u64;
    let k = match below(10) {
        0 | 1 => {
            b.truncate(a);
            "torn"
        }
        9 => {
            // nothing is left of the file, or as good as nothing
            *b = match below(6) {
                0 | 1 => vec![],
                2 => vec![0; n as usize],
                3 => vec![b'\n'; below(3) as usize + 1],
                4 => b"/** emptied */\n".to_vec(),
                _ => other[..(below(60) as usize).min(other.len())].to_vec(),
            };
            "content-lost"
        }
        2 => {
            b.drain(a..z);
            "region-lost"
        }
        3 => {
            b[a..z].fill(0);
            "region-zeroed"
        }
        4 => {
            for x in &mut b[a..z] {
                *x = below(256) as u8;
            }
            "region-garbage"
        }
        5 => {
            let c = b[a..z].to_vec();
            let p = below(b.len() as u64 + 1) as usize;
            b.splice(p..p, c);
            "region-duplicated"
        }
        6 => {
            b[a] ^= 1 << below(8);
            "bit-flipped"
        }
        7 => {
            let (x, y) = if other.is_empty() { (0, 0) } else { region(other) };
            b.splice(a..z, other[x..y].iter().copied());
            "foreign-region"
        }
        _ => {
            b[a] = b"{};:,<>()[]=.*/\"@ x0"[below(20) as usize];
            "byte-replaced"
        }
    };
    (k, at)
}
pub fn c15(cx: &mut Cx) -> R {
    let mut t = tree::tree();
    let root = tree::root();
    if fresh(&t, root).is_none() {
        cx.count("skipped:refused-schema");
        return Ok(());
    }
    if chance(1, 12) && t.len() > 1 {
        let i = below(t.len() as u64) as usize;
        let (p, _) = t.remove(i);
        cx.fault("file-lost", i as u64);
        cx.note(|| format!("file {} lost", p));
    }
    let faults = below(4).min(2);
    for _ in 0..faults {
        let i = below(t.len() as u64) as usize;
        let o = t[below(t.len() as u64) as usize].1.clone();
        let (k, at) = damage(&mut t[i].1, &o);
        cx.fault(k, at);
        cx.note(|| format!("file {}: {} at {}", t[i].0, k, at));
    }
    note_tree(cx, &t);
    let mut bad = None;
    let mut sure = true;
    for (p, b) in &t {
        let text = String::from_utf8_lossy(b);
        match grammar().check(text.as_bytes()) {
            Verdict::Valid => sure &= std::str::from_utf8(b).is_ok(),
            Verdict::Invalid(w, at) => bad = Some(format!("{}: unexpected {} at byte {}: {:?}", p, w, at, text.as_bytes()[at.min(text.len())..].iter().take(24).map(|c| *c as char).collect::<String>())),
            Verdict::Unsure => sure = false,
        }
    }
    let parsed = if bad.is_none() && sure { whole::parse(&t) } else { None };
    if let Some(pk) = &parsed {
        bad = whole::broken(pk);
        if bad.is_some() {
            cx.count("invalid-by-meaning");
        }
    }
    cx.count(match (&bad, sure) {
        (Some(_), _) => "trees-invalid",
        (None, true) => "trees-valid",
        _ => "trees-undecided",
    });
    simfs::reset();
    place("/sim/schema", &t);
    simfs::mkdirs("/sim/out");
    simfs::arm(simfs::Plan { shuffle: chance(1, 2), ..simfs::Plan::calm() });
    simkit::cx::set_label("schema compilation");
    let r = solo(&t, below(1 << 32), "/sim/schema", "/sim/out", root);
    cx.event(simfs::sim_ns());
    simfs::disarm();
    cx.count(if r.is_ok() { "outcome-success" } else { "outcome-failure" });
    cx.note(|| format!("{}; schema is {}", outcome(&r), bad.clone().unwrap_or("valid or undecided".into())));
    if r.is_ok() {
        if let Some(why) = bad {
            return fail("accepted-invalid", format!("the compiler reported success for what is no schema: {}", why));
        }
        if let Some(pk) = &parsed {
            cx.count("bindings-examined");
            if let Some(w) = whole::lacking(pk, &simfs::files("/sim/out")) {
                return fail("bindings-lack", format!("the compiler reported success for incomplete bindings: {}", w));
            }
        }
    }
    Ok(())
}
/// Fills the caches of the compiler's parser, and checks the oracles on undamaged trees.
pub fn warm_up() {
    for t in tree::fixed() {
        for (p, b) in &t {
            let v = grammar().check(b);
            assert!(v == Verdict::Valid, "{}: {:?}", p, v);
        }
        fresh(&t, "");
    }
}
