//! from_file on the simulated file system.
use crate::world::*;
use simkit::simfs;
use simkit::simio;
use simkit::{below, chance, Cx};
use simschema::glue::{Obj, TypeOps};

/// Reads an object from a simulated file; returns the failure injected into its source, if any.
pub fn read_file(cx: &mut Cx, t: &dyn TypeOps, data: &[u8], p: &simio::Plan) -> (Out<Box<dyn Obj>>, Option<String>, &'static str) {
    simfs::reset();
    let mut path = "/sim/store/object.bin".to_string();
    let mut cause = None;
    simfs::put(&path, data);
    let mut fp = simfs::Plan { short: p.short, intr: p.intr.min(40), lie: chance(1, 4), ..simfs::Plan::calm() };
    match below(8) {
        0 => {
            path = ["/sim/store/missing.bin", "/sim/absent/object.bin", "/sim/store/object.bin/x"][below(3) as usize].to_string();
            cause = Some("no such file");
        }
        1 => {
            path = "/sim/store".into();
            cause = Some("a directory");
        }
        2..=4 => {
            fp.only = Some(if chance(1, 4) { "open" } else { "read" });
            fp.fail_at = Some(1 + below(4));
            fp.errno = [5, 13, 24, 116, 110, 11, 12, 107][below(8) as usize];
            fp.persistent = chance(1, 2);
        }
        _ => {}
    }
    simfs::arm(fp);
    let got = call(STEPS, MEMORY, || t.from_file(&path)).0;
    let inj = simfs::injected();
    cx.event(simfs::sim_ns());
    let log = simfs::disarm();
    let mut failed = cause.map(|c| c.to_string());
    for e in &log {
        match e.err {
            0 => {}
            -1 => cx.fault("file-short-read", e.op),
            4 => cx.fault("file-interrupted", e.op),
            n => {
                cx.fault(&format!("file-{}-error", e.kind), e.op);
                if inj > 0 && (e.kind == "open" || e.kind == "read") {
                    failed = Some(format!("{} error {}", e.kind, n));
                }
            }
        }
    }
    if cause.is_some() {
        cx.fault("file-missing-or-directory", 1);
    }
    cx.count("file-reads");
    (got, failed, "from_file")
}

/// Reads an object from an intact simulated file with harmless disturbances.
pub fn read_intact(cx: &mut Cx, t: &dyn TypeOps, data: &[u8], p: &simio::Plan) -> (Out<Box<dyn Obj>>, Option<String>, &'static str) {
    simfs::reset();
    simfs::put("/sim/store/object.bin", data);
    simfs::arm(simfs::Plan { short: p.short, intr: p.intr.min(40), lie: chance(1, 4), ..simfs::Plan::calm() });
    let got = call(STEPS, MEMORY, || t.from_file("/sim/store/object.bin")).0;
    cx.event(simfs::sim_ns());
    for e in simfs::disarm() {
        match e.err {
            -1 => cx.fault("file-short-read", e.op),
            4 => cx.fault("file-interrupted", e.op),
            _ => {}
        }
    }
    (got, None, "from_file")
}
