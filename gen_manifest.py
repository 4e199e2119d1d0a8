#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
IL = "exhaustive interleaving exploration of the real code (source-DPOR, controlled scheduler) with a linearizability or history oracle"
SQ = "exhaustive enumeration of bounded operation sequences and inputs on the real code against a reference model"
NI = "Every interleaving of the listed small programs, at the granularity of atomic accesses, lock operations and futexes under sequential consistency, plus happens-before race and use-after-free detection honouring the declared memory orderings. Trusts the scheduler runtime (cross-validated against naive enumeration) and a stand-in for parking_lot's locks; weak-memory reorderings of atomics are not enumerated. "
NS = "Every case of a finite enumeration runs on the real code and is compared with an independent model; nothing is sampled. Trusts the model. "
C = {
 "C01": (IL + "; " + SQ, NI + "2-3 threads with 1-3 calls each, and all call sequences over boundary operands single-threaded."),
 "C02": (IL + "; " + SQ, NI + "2-3 threads with 1-3 calls each, and all call sequences over boundary operands single-threaded."),
 "C03": (IL, NI + "2-3 threads, fresh and used histograms, recordings and loads; bucket-wise interval oracle."),
 "C04": (SQ, NS + "All small configurations times all values, boundary values for large ones, all sequences of recordings, updates and loads to a depth."),
 "C05": (IL, NI + "2-3 threads of updates and loads; linearizability against a register holding whole updates."),
 "C06": (IL + "; " + SQ, NI + "Forcing, peeking at and enumerating a lazy metric, with initialisers that succeed, panic or are slow."),
 "C07": (SQ, NS + "All sequences of build, register, re-register, move, drop over a few boxed and pinned metrics, with an allocator that reuses memory at once."),
 "C08": (IL, NI + "2-3 threads creating, dropping and viewing; views are linearizable set reads; freed memory is poisoned and deadlocks are detected."),
 "C09": (SQ, NS + "All sequences of builder calls to a depth for boxed and pinned metrics of every kind."),
 "C10": ("exhaustive enumeration of bounded programs (argument subsets, orders, forms, types, placements), compiled and run with the real macro, against a table of expectations; every malformed declaration of a family must be rejected", "Every declaration of a generated family is compiled and inspected at run time, and every ill-formed one must be a compile error. Trusts the compiler and linker."),
 "C11": (SQ, NS + "All sequences of iterator calls to a depth for every small number of static and dynamic metrics and metadata entries; oracle is a deque."),
 "C12": (SQ, NS + "All sequences of offers to a depth times all requests, directly, through static and dynamic entries and through lazy metrics."),
 "C13": (SQ, NS + "All names and metadata over an alphabet of special characters to a length; a Prometheus label parser as oracle."),
 "C14": (SQ, NS + "All kinds of metric times metadata, description, formatter and filter; pairs; all histories of build, update, drop and snapshot to a depth; controlled clock."),
 "C15": (IL, NI + "A snapshot against threads that update, create and drop metrics; interval oracle per reading, exact set oracle per metric."),
 "C16": (SQ, NS + "Boundary values, lengths and metadata in every combination listed; all streams of up to three or four snapshots of both versions."),
 "C17": (SQ, NS + "All histories of up to three snapshots over subsets of four metrics in every configuration and entry point, longer ones over fewer; read back with the Parquet library, which is trusted."),
 "C18": ("exhaustive fault enumeration: every truncation, byte change, start position, transfer size, and every fault at every I/O operation of the real conversion", "Each case runs the real conversion with a reader and writer supplied by the harness; success is compared with an independent decoding of the bytes. Single faults and pairs, on fixed inputs of three and forty snapshots."),
 "C19": (SQ, NS + "All sets of labels out of eleven, all values over an alphabet for up to three identifying labels, all map insertion orders and snapshot orders."),
 "C20": (SQ, NS + "All histories of snapshot metadata and of metric metadata to length three, all batch sizes and compressions listed; read back with the Parquet library, which is trusted."),
}
m = {"version": 1, "setup_cmd": "python3 /verif/check.py build",
 "checks": [{"property": p, "quick_cmd": "python3 /verif/check.py %s quick" % p, "thorough_cmd": "python3 /verif/check.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
   "technique": t, "level": "fault_enumeration" if p == "C18" else "model_checking", "level_note": n} for p, (t, n) in C.items()],
 "not_applicable": [],
 "notes": "No hooks in /repo: the concurrent engine compiles the crates and the standard library with ThreadSanitizer instrumentation and supplies its own runtime, so /repo's source is used unmodified. Defects found and repaired are listed in known_findings.txt."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
