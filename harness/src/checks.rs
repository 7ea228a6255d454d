//! The registry of checks.
use crate::{budget, cli, content, det, enums, faults, feature, hostile, trees, typed, ub};
use crate::run::{self, Check, Out, Tier};

pub fn one(c: &Check, tier: Tier, seed: u64, case: u64) {
    let mut out = Out::new(c.id, tier, seed);
    out.case = case;
    out.verbose = true;
    let run = c.run;
    let text = run::on_stack(move || {
        run(&mut out, case);
        out.report()
    });
    println!("{text}");
}

const RULE: &str = "A document is drawn at random (structure, values, presence of every optional property, unknown properties and objects), encoded with drawn representation choices, and parsed; every value that the public accessors return for this property is compared with the drawn one. Non-trivial: at least one value of this property was compared; distinct by the bytes of the file.";

fn content(id: &'static str) -> Check {
    Check {
        id,
        level: "exploration",
        rule: RULE,
        quick: 2000,
        thorough: 40000,
        run: content::simple,
        assumptions: &["the generator's reading of MS-ONE/MS-ONESTORE/MS-FSSHTTPB is right (cross-checked on the sample files)"],
        floor: 100,
    }
}

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    for id in ["C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C29"] {
        v.push(content(id));
    }
    v.push(Check { run: content::c13, ..content("C13") });
    v.push(Check { run: content::c14, ..content("C14") });
    v.push(Check { run: content::c15, ..content("C15") });
    v.push(Check {
        id: "C01",
        level: "exploration",
        rule: "A hostile input is drawn (object graphs no honest writer produces, damaged values, wire tokens and bytes of samples and generated files), given to the entry points on a thread with a 2 MiB stack in a process of its own, and the result walked through Debug and every accessor; a panic, abort or signal is a violation. Non-trivial: every distinct input.",
        quick: 12000,
        thorough: 60000,
        run: hostile::c01,
        assumptions: &["the debug profile (overflow checks, unoptimised frames) is the strictest build"],
        floor: 1000,
    });
    v.push(Check {
        id: "C02",
        level: "exploration",
        rule: "Hostile inputs and documents scaled in one respect are parsed under a processor-time watchdog with an allowance of 1 s + 20 us per input byte; notebook directory trees are parsed with opened files counted against the files on disk. Non-trivial: every distinct input.",
        quick: 12000,
        thorough: 60000,
        run: budget::c02,
        assumptions: &["processor time of the worker process stands for the work done"],
        floor: 1000,
    });
    v.push(Check {
        id: "C03",
        level: "exploration",
        rule: "Hostile inputs and documents scaled in one respect are parsed with a counting allocator; the peak heap of the parse must stay below 1 MiB + 512 bytes per input byte. Non-trivial: every distinct input.",
        quick: 12000,
        thorough: 60000,
        run: budget::c03,
        assumptions: &["all memory comes from the global allocator"],
        floor: 1000,
    });
    v.push(Check {
        id: "C08",
        level: "exploration",
        rule: "Generated, large and hostile files are parsed from memory and from disk: plainly, with short, interrupted and failing reads injected at the C library, through links, bare names and a pipe; results are compared value by value. Non-trivial: every distinct file.",
        quick: 900,
        thorough: 20000,
        run: trees::c08,
        assumptions: &["the library reads files through the C library's open and read"],
        floor: 300,
    });
    v.push(Check {
        id: "C09",
        level: "exploration",
        rule: "Sections, tables of contents and files of another schema (generated in all encodings, and the samples) are given to every entry point, as are missing and unreadable files; the outcome and the exact error text are compared. Non-trivial: every distinct file.",
        quick: 6000,
        thorough: 100000,
        run: trees::c09,
        assumptions: &[],
        floor: 300,
    });
    v.push(Check {
        id: "C10",
        level: "exploration",
        rule: "A notebook directory with files and links inside and outside of it is built, one hostile name (from a catalogue of 61) is listed at the root or in a section group at some depth, and the resolved target of every descriptor the parser opens must lie in the notebook's directory. Non-trivial: distinct combinations of names, depth and path.",
        quick: 5000,
        thorough: 100000,
        run: trees::c10,
        assumptions: &["the library opens files and directories through the C library"],
        floor: 300,
    });
    v.push(Check {
        id: "C11",
        level: "exploration",
        rule: "Every parse (well-formed, flawed and hostile files and notebook directories, with and without injected faults) is observed at the C library and by snapshots of the directory before and after. Non-trivial: distinct directories.",
        quick: 4000,
        thorough: 60000,
        run: trees::c11,
        assumptions: &["changes are made through the C library's interposed calls or show in the snapshot"],
        floor: 300,
    });
    v.push(Check {
        id: "C12",
        level: "exploration",
        rule: "A notebook directory tree is drawn (names, ordering ids, duplicates, missing entries, recycle bins, section groups, subdirectories, junk) with its expectation, optionally with one flaw; the parsed notebook or the error is compared. Non-trivial: distinct expectations.",
        quick: 5000,
        thorough: 60000,
        run: trees::c12,
        assumptions: &[],
        floor: 300,
    });
    v.push(Check {
        id: "C28",
        level: "exploration",
        rule: "One item per value is put in a document for each encoded enumeration, flag set, colour and alignment, and the accessors' answers are compared with the format's tables; undefined values go in documents of their own, which must be refused. All values of fields of up to 16 bits, structured and random ones of 32 bits. Non-trivial: every distinct (field, value).",
        quick: enums::round(),
        thorough: enums::round() * 24,
        run: enums::c28,
        assumptions: &["the tables restate MS-ONE"],
        floor: 300_000,
    });
    v.push(Check {
        id: "C30",
        level: "exploration",
        rule: "The built onenote-parse is run on well-formed, damaged, truncated, foreign and missing files under drawn names (extension variants, unusual characters), from several working directories and in several environments; output, standard error, status and the directory are compared with what the library answers for the same path. Non-trivial: distinct (file, argument).",
        quick: 1000,
        thorough: 12000,
        run: cli::c30,
        assumptions: &["the tool is compiled from /repo's source in the harness's profile"],
        floor: 600,
    });
    v.push(Check {
        id: "C04",
        level: "exploration",
        rule: "Workers built with AddressSanitizer (thorough: then also with MemorySanitizer, standard library included) parse hostile and generated inputs from allocations of exactly the input's size and read the result through every accessor, Debug and a copy; every text value must be valid UTF-8. Miri interprets the parse and the reading of small inputs. A report of a sanitizer or of Miri is a violation. Non-trivial: distinct inputs.",
        quick: 3008,
        thorough: 30008,
        run: ub::c04,
        assumptions: &["Miri and the sanitizers see the undefined behaviour that the executed inputs reach"],
        floor: 1000,
    });
    v.push(Check {
        id: "C05",
        level: "exploration",
        rule: "Groups of inputs (well-formed, ambiguous, faulty in several ways, two packages in one, identities made equal, the same identities with other contents, twins of one length, notebook directories) are parsed repeatedly, in other orders, from other memory, by 2-8 threads sharing one parser, in other processes (also one for each input) and environments, and from rewritten files; value (all accessors and Debug) or error and message must equal the first answer. Send and Sync of every public type are observed at compile time. Non-trivial: distinct inputs and distinct thread interleavings.",
        quick: 1200,
        thorough: 30000,
        run: det::c05,
        assumptions: &["an answer that depends on anything but bytes and name varies within the repetitions made"],
        floor: 1000,
    });
    v.push(Check {
        id: "C33",
        level: "exploration",
        rule: "Documents (whole and cut short), sections and notebook directories on disk and hostile inputs are parsed three times each under a counting allocator: after the value (read through every accessor, cloned) or the error is dropped, the heap in use must be what it was, the first time but for a total of 64 KiB set up once per process; results are also dropped on another thread, and the threads of the process are counted. Non-trivial: every distinct input.",
        quick: 4000,
        thorough: 60000,
        run: crate::leak::c33,
        assumptions: &["all memory comes from the global allocator"],
        floor: 1000,
    });
    v.push(Check {
        id: "C31",
        level: "exploration",
        rule: "Drawn inputs (well-formed, faulty, hostile, notebook directories, missing and odd files) are answered by a build without the feature and by a process built with it; values (all accessors and Debug), error texts and the chain of their sources must be equal, and with the feature every error must hold a backtrace, captured exactly when backtraces are asked for. Non-trivial: distinct inputs.",
        quick: 500,
        thorough: 12000,
        run: feature::c31,
        assumptions: &["the two builds, both by the nightly compiler, differ in the feature only"],
        floor: 1000,
    });
    v.push(Check {
        id: "C32",
        level: "fault_enumeration",
        rule: "A rich section or table of contents is drawn; for every object its content refers to, the faults of its type are enumerated (mandatory property removed, known property of another type or undecodable, reference dangling, object of another type, payload, root or page missing), one of each class is injected, and the parser must answer with an error; the intact document must parse. Non-trivial: distinct damaged files.",
        quick: 3000,
        thorough: 150000,
        run: typed::c32,
        assumptions: &[],
        floor: 2000,
    });
    v.push(Check {
        id: "C06",
        level: "fault_enumeration",
        rule: "A well-formed section or table of contents is drawn and encoded (or a sample taken); every proper prefix that ends before the closing packaging marker (every position of small files, token boundaries and random positions of large ones) must be rejected with the 'Unexpected end of file' error, from memory and from disk, and every longer prefix must parse to the whole result. Non-trivial: distinct files that were cut.",
        quick: 1200,
        thorough: 12000,
        run: faults::c06,
        assumptions: &[],
        floor: 60,
    });
    v.push(Check {
        id: "C07",
        level: "fault_enumeration",
        rule: "A well-formed file is drawn and encoded with every wire token recorded; one structural fault is injected at a token (each kind of token in each file) or in the object graph, and the parser must answer with an error. Non-trivial: distinct damaged files.",
        quick: 4000,
        thorough: 60000,
        run: faults::c07,
        assumptions: &["the catalogue of faults contains only what the format forbids"],
        floor: 2000,
    });
    v
}
