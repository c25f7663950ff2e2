#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json.
import json, os
REF = "Trusts the independent model in harness/src (setup.rs, audio.rs, huff.rs, ogg.rs), written from the Vorbis I and Ogg specifications, and the generators' reach."
C = [
("C01", "runtime oracle: independent symbol-level decoder and PCM decoder over remuxed streams", "exploration",
 "Every remuxed stream is decoded symbol by symbol, input against output. " + REF),
("C02", "runtime oracle: independent strict header parser over remuxed streams", "exploration",
 "Headers of every output are parsed strictly and compared field by field with the input. " + REF),
("C03", "runtime oracle: codeword usage counted by an independent decoder, optimal cost computed by package-merge", "exploration",
 "The emitted lengths are compared with the optimum for the symbols actually observed. " + REF),
("C04", "runtime oracle: independent comment header model", "exploration",
 "Every vendor and fields action and every truncation point of generated comment headers. " + REF),
("C05", "runtime monitor: strict Ogg page-trace checker (RFC 3533)", "exploration",
 "Every page of every output is checked against the container rules. " + REF),
("C06", "runtime monitor: granule position trace checker", "exploration",
 "Every page position is compared with a model of the documented rules. " + REF),
("C07", "hostile workloads under overflow checks, panic and CPU-time monitors, AddressSanitizer, MemorySanitizer and Miri", "exploration",
 "Mutated, spliced, truncated and hostile inputs; every panic, overflow, crash, sanitizer report and stall is a violation. Absence is shown only for what was run."),
("C08", "fault injection on every I/O operation index, with a monitored source and sink", "fault_enumeration",
 "For each generated input, every read, seek and write operation is failed in turn, with several error kinds and chunkings."),
("C09", "runtime oracle: chaining and multiplexing model over generated files", "exploration",
 "Expected streams and errors are computed from the construction of the file. " + REF),
("C10", "runtime monitor over serials, across separate processes", "exploration",
 "Serials of all outputs, and byte equality of the outputs of separate processes."),
("C11", "differential runtime monitoring: repetition, repaging, reuse and concurrent remuxes, also under ThreadSanitizer and Miri", "exploration",
 "Whole outputs are compared. Thread schedules are those that the operating system gave, and in Miri those of random seeds."),
("C12", "runtime oracle: bit-vector reference model, both feature builds; all float words", "exploration",
 "All 2^32 float words are read and packed in both builds; operation sequences are random."),
("C13", "differential runtime oracle: defective against clean streams", "exploration",
 "Random subsets of the listed defects; the output must be the clean stream's. " + REF),
("C14", "fault injection in streams: single violations of the specification, judged by an independent validator", "exploration",
 "Every injected violation is confirmed by the independent parser before an error is required. " + REF),
("C15", "black-box process monitor: exit status, outputs and messages of the built program under option and fault enumeration", "exploration",
 "The program's outputs are compared with the library's; write faults are real (full device, file size limit, closed pipe)."),
("C16", "hooked mangler: recorded call trace checked against the output and a model", "exploration",
 "Recording and altering manglers; every call and every page is compared. " + REF),
("C17", "runtime contract monitor over the low-level API, differential against the remuxer", "exploration",
 "Every return value of every call is checked. " + REF),
("C18", "differential runtime monitoring: the WebAssembly build in Node.js, with overflow checks, against the native build", "exploration",
 "Results, exceptions, serials and memory of the real wasm32 build are observed; the host's glue replaces what the wasm-bindgen tool (not available) would generate."),
("C19", "online monitor of the page's state and outputs over random user sessions, in a model of a browser with worker faults", "exploration",
 "The scripts are run as they are; the browser and the library are models (web/dom.mjs, web/run.mjs), which the check trusts."),
("C20", "counting allocator and CPU clock as runtime monitors: peak, growth and balance of memory over long, hostile and failing runs", "exploration",
 "Every allocation and release of the thread under test is counted, including those of libraries; only the constants of the bounds are chosen, far from what is observed."),
]
HAVE = os.environ.get("HAVE", "").split() or [c[0] for c in C]
NA = []
m = dict(version=1, setup_cmd="mkdir -p evidence scratch && cargo build --release --offline --locked --quiet --target-dir target --manifest-path harness/Cargo.toml",
  checks=[dict(property=i, quick_cmd="VERIF_TIER=quick ./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i, evidence_file=f"evidence/{i}.json",
    technique=t, level=l, level_note=n) for i, t, l, n in C if i in HAVE],
  not_applicable=[dict(property=i, reason=r) for i, r in NA] + [dict(property=i, reason="check being built") for i, *_ in C if i not in HAVE])
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
open(p, "w").write(json.dumps(m, indent=1) + "\n")
