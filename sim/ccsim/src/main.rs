mod checks;
mod comp;
mod grammar;
mod tree;
mod whole;
use simkit::driver::CheckDef;
#[global_allocator]
static A: simkit::alloc::Acct = simkit::alloc::Acct;

const REAL: &str = "real: the zserio-rs-build crate (rebuilt from /repo) with antlr-rust, syn, prettyplease, codegen, walkdir, and std::fs";
const STUB: &str = "simulated: the file system below std::fs (libc calls interposed), the hash seeds of the process, the thread scheduler; not run: the command line front ends, which only call the library";
const A_TREES: &str = "schema trees are parts of the corpus in sim/corpus, the repository's own schema collection (a copy in sim/ref) and random schemas; constructs that occur in none of them are not explored";
const A_SEED: &str = "seeded search: what no run reached is not decided";

fn main() {
    simkit::sys::fixed_addresses();
    simkit::simfs::mute_stderr(!std::env::args().any(|a| a == "bench"));
    simkit::cx::quiet_panics();
    // the parser of the compiler keeps its caches for the life of the process, and how far they
    // are filled decides how many steps a thread needs
    simkit::driver::isolate(&["C12"]);
    if std::env::args().nth(1).map(|a| a != "check" && a != "list").unwrap_or(false) {
        checks::warm_up();
    }
    let checks = [
        CheckDef {
            id: "C12",
            run: checks::c12,
            quick: 4_000,
            thorough: 1_000_000,
            rule: "a run compiles a schema tree (sometimes one whose definitions contend for a name) under a drawn hash seed, listing order, placement of the files, with other compilations before it in the thread and in other simulated threads at the same time, and compares outcome and files with those of a fresh compilation; every run is non-trivial; distinct by tree, hash seed, faults and interleaving",
            real: REAL,
            stub: STUB,
            assumptions: &[A_TREES, A_SEED],
        },
        CheckDef {
            id: "C13",
            run: checks::c13,
            quick: 8_000,
            thorough: 1_000_000,
            rule: "a run compiles a schema tree while file-system operations fail (one drawn operation, once or for good, 10 error codes; a full disk; short and interrupted transfers); non-trivial: at least one fault; distinct by tree and faults",
            real: REAL,
            stub: STUB,
            assumptions: &[A_TREES, A_SEED, "errors of close are not injected: no Rust program sees them"],
        },
        CheckDef {
            id: "C14",
            run: checks::c14,
            quick: 6_000,
            thorough: 1_000_000,
            rule: "a run starts from an empty, older, damaged or current output directory, kills 1-3 compilations at drawn file-system operations, with power losses in between that lose, tear, zero or mix what was not synced, and compiles once more; non-trivial: at least one crash or damage; distinct by tree and faults",
            real: REAL,
            stub: STUB,
            assumptions: &[A_TREES, A_SEED],
        },
        CheckDef {
            id: "C15",
            run: checks::c15,
            quick: 10_000,
            thorough: 1_500_000,
            rule: "a run damages the files of an accepted schema tree (torn, regions lost, zeroed, duplicated, overwritten, bits flipped, a file lost) and compiles it; non-trivial: at least one fault; distinct by the damaged tree",
            real: REAL,
            stub: STUB,
            assumptions: &[A_TREES, A_SEED, "which damaged files are no schemas is decided by an independent recogniser of the documented grammar, and by duplicate or unknown type names; other rules of the language are not part of the oracle"],
        },
    ];
    std::process::exit(simkit::driver::main(&checks));
}
