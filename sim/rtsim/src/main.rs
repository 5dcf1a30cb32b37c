mod files;
mod io;
mod net;
mod store;
mod threads;
mod world;
use simkit::driver::CheckDef;
#[global_allocator]
static A: simkit::alloc::Acct = simkit::alloc::Acct;

const REAL: &str = "real: the zserio runtime crate and the bindings its schema compiler generates for the corpus (rebuilt from /repo), bitreader, rust-bitwriter, std::io adapters, std::fs::File";
const A_CORPUS: &str = "the guarantee over all schemas is explored through the constructs of the schema corpus in sim/corpus, not over arbitrary schemas";
const A_MODEL: &str = "the independent reference codec (sim/simmodel), validated against the reference Python implementation during development, says what the wire format prescribes";
const A_SEED: &str = "seeded search: what no run reached is not decided";

fn main() {
    world::world();
    simkit::driver::isolate(&["C07"]);
    let checks = [
        CheckDef {
            id: "C01",
            run: io::c01,
            quick: 400_000,
            thorough: 40_000_000,
            rule: "a run writes up to 5 objects of random types and values to simulated sinks (short, interrupted, delayed, zero-length and failing writes at drawn operations or byte positions), some unserialisable, with retries on healthy sinks; non-trivial: at least one sink fault; distinct by the sequence of fault kinds and positions",
            real: REAL,
            stub: "simulated: the output sinks",
            assumptions: &[A_CORPUS, A_SEED, "the bytes of an object are those to_bytes returns (C03 and C11 decide whether they are right)"],
        },
        CheckDef {
            id: "C02",
            run: io::c02,
            quick: 600_000,
            thorough: 60_000_000,
            rule: "a run reads a stored (intact, torn or damaged) object through a simulated stream and a simulated file with short, interrupted and failing operations at drawn positions; non-trivial: at least one fault; distinct by the sequence of fault kinds and positions",
            real: REAL,
            stub: "simulated: input streams; the file system below std::fs (libc calls interposed)",
            assumptions: &[A_CORPUS, A_SEED, "what the bytes decode to in one piece is what from_bytes returns"],
        },
        CheckDef {
            id: "C03",
            run: store::c03,
            quick: 600_000,
            thorough: 60_000_000,
            rule: "a run stores a random legal value of a random type through a disturbed sink and loads it through a disturbed stream or file; every run is non-trivial; distinct by type, value and faults",
            real: REAL,
            stub: "simulated: sinks, sources and the file system",
            assumptions: &[A_CORPUS, A_SEED, "the reference model decides which values a schema allows"],
        },
        CheckDef {
            id: "C04",
            run: store::c04,
            quick: 300_000,
            thorough: 30_000_000,
            rule: "a run stores a random value and loads its prefixes: all of them up to 96 bytes, 48 drawn ones beyond; non-trivial: at least one crash point; distinct by type and stored bytes",
            real: REAL,
            stub: "simulated: sources; the crash that tears the stored bytes",
            assumptions: &[A_CORPUS, A_SEED],
        },
        CheckDef {
            id: "C05",
            run: store::c05,
            quick: 900_000,
            thorough: 80_000_000,
            rule: "a run stores a random value, damages the bytes with 1-3 storage faults (11 kinds), forged lengths, another object or garbage, and loads the result under a step, stack and memory budget in proportion to the data; non-trivial: at least one fault; distinct by type and damaged bytes",
            real: REAL,
            stub: "simulated: the storage that damages the bytes",
            assumptions: &[A_CORPUS, A_SEED, "elements that take no bits make the work of a correct decoder unbounded by the data: damaged data of that kind (recognised by the reference decoder) are left out", "steps are control-flow edges of the instrumented code; the budget is about 10 times the highest use seen"],
        },
        CheckDef {
            id: "C06",
            run: store::c06,
            quick: 900_000,
            thorough: 80_000_000,
            rule: "a run loads an object with a forged length or damaged bytes under a drawn allocation chunk; the peak of live memory is compared with a budget computed from the data length, the items present, the size of the types and the chunk; non-trivial: at least one fault; distinct by type, chunk and bytes",
            real: REAL,
            stub: "simulated: the storage that damages the bytes; the allocator only counts",
            assumptions: &[A_CORPUS, A_SEED, "elements that take no bits are left out (see C05)", "the budget is about 3.5 times the highest use seen"],
        },
        CheckDef {
            id: "C07",
            run: threads::c07,
            quick: 150_000,
            thorough: 15_000_000,
            rule: "2-4 simulated threads run 1-4 calls each on shared objects (encode, write to failing sinks, size, decode intact, torn and damaged data, reuse, clone), some failing or panicking; the scheduler preempts at drawn control-flow edges and memory accesses; results must equal those of the calls alone; non-trivial: at least one thread switch; distinct by the schedule (thread and step of every switch) and faults",
            real: REAL,
            stub: "simulated: the thread scheduler, futex waits, sinks and sources",
            assumptions: &[A_CORPUS, A_SEED, "one thread runs at a time: reorderings of a weakly ordered memory are not simulated", "preemption inside uninstrumented crates (bitreader, rust-bitwriter, std) happens only at futex calls"],
        },
        CheckDef {
            id: "C08",
            run: threads::c08,
            quick: 300_000,
            thorough: 30_000_000,
            rule: "1-3 simulated threads set and read the allocation chunk and decode; histories of the setting are checked for linearizability, results against those with the default, the biggest single allocation of arrays with forged lengths and no data against the settings that can be in effect; every completed run is non-trivial; distinct by schedule, operations and settings",
            real: REAL,
            stub: "simulated: the thread scheduler; the allocator only counts",
            assumptions: &[A_CORPUS, A_SEED, "one thread runs at a time (see C07)"],
        },
        CheckDef {
            id: "C09",
            run: store::c09,
            quick: 400_000,
            thorough: 40_000_000,
            rule: "a run drives one object through 2-7 operations: decodes of intact, torn and damaged data, failing and repeated encodes; non-trivial: decoded into after a history; distinct by the faults of the history",
            real: REAL,
            stub: "simulated: the storage that tears and damages the bytes",
            assumptions: &[A_CORPUS, A_SEED],
        },
        CheckDef {
            id: "C10",
            run: store::c10,
            quick: 400_000,
            thorough: 40_000_000,
            rule: "a run writes 1-5 objects of random types behind each other from a drawn bit position, tears the log at a drawn byte or appends garbage, and reads it back, partly with reused objects; non-trivial: a fault; distinct by starting position and log bytes",
            real: REAL,
            stub: "simulated: the storage that tears the log",
            assumptions: &[A_CORPUS, A_SEED, "offsets of records are set to the positions the format prescribes, as the application has to"],
        },
        CheckDef {
            id: "C11",
            run: net::c11,
            quick: 200_000,
            thorough: 20_000_000,
            rule: "1-4 messages of random types and values, each direction, between the code under test and the reference peer over a simulated network (fragmentation, loss, duplication, reordering by delay, partitions, restarts of nodes, retransmission; faults stop at a drawn time); the peer draws among all legal packings; every completed run is non-trivial; distinct by messages and faults",
            real: REAL,
            stub: "simulated: the network and its reliable transport; the peer is the reference codec",
            assumptions: &[A_CORPUS, A_SEED, A_MODEL],
        },
    ];
    std::process::exit(simkit::driver::main(&checks));
}
