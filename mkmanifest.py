#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered modules (NOTES) and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
D = "deterministic simulation with fault injection"
NOTES = {
 "C01": ("seeded schemas and host values, real encoder against a reference encoder", "Sampled schemas and values from a seeded generator; compared with an independent model of the wire format, byte for byte."),
 "C02": ("fleet of nodes over a simulated link with loss, duplication, reordering, damage and restarts; history check of delivered against sent values", "Sampled fleets, schemas and delivery orders; every frame sent is delivered at least once after faults stop unless the link lost it."),
 "C03": ("frames damaged in flight and illegal host values, verdicts against a reference decoder", "Sampled damage; the reference model decides accept or the error class."),
 "C04": ("frames cut at every length (sampled above 40 bytes) and every too-small buffer, under AddressSanitizer", "Sampled schemas, all cuts of short frames; reference prefix semantics."),
 "C05": ("host callback failure injected at every callback index (sampled above 30) and retried", "Sampled schemas and values; failure points exhaustive for short runs."),
 "C06": ("contexts as fibers preempted at basic blocks of the engine by a seeded scheduler, compared with the same runs alone", "Sampled interleavings at basic-block granularity; single hardware thread, so no torn memory accesses."),
 "C07": ("torn, spliced, bit-flipped and arbitrary images executed on arbitrary frames under AddressSanitizer", "Sampled images and frames; memory errors are those AddressSanitizer and bounds checks see."),
 "C08": ("compiled, damaged and arbitrary programs through the verifier, judged by an independent reader", "Sampled programs; one-sided for damaged ones (malformed must be refused)."),
 "C09": ("compiles on a simulated disk with every single open, read, write and close failure, short transfer, kill and full disk, against the healthy compile", "Sampled import graphs and schemas; single faults exhaustive up to 70 per graph, then sampled; pairs sampled."),
 "C10": ("import graphs compiled repeatedly in one process, interleaved at basic blocks with other compiles, with poisoned memory and other path spellings, against the single-file image", "Sampled graphs, schedules and spellings."),
 "C11": ("encode, decode and fmt on a simulated disk with every open, read, write, close, seek and tell failure, short transfer, kill and full disk; data files, documents and images damaged at rest", "Sampled schemas and values; single faults of a command sampled to 40 per run; document mutations beyond cuts and trailing text must only not crash or hang."),
 "C12": ("documents through encode and decode and back, several conversions and failed conversions in one process, against an independent JSON reader and the reference wire model", "Sampled schemas, values and spellings; integers above 2^53 are a known finding; no end-of-stream arrays."),
 "C13": ("editor sessions in lockstep over a simulated pipe, the same bytes fragmented at random, cut off, failing or stalled, and the session without its strange messages, against a strict reader of the protocol", "Sampled sessions; what an answer says is C14's business; unsupported methods may stay unanswered."),
 "C14": ("editing sessions (open, change, save, several documents, disk changing underneath) with every answer compared with a fresh server's and with the compiler's verdict", "Sampled sessions; documents that import others are compared with a fresh server only; columns are bytes; packets have no member completion."),
 "C15": ("random token layouts of schemas formatted once and twice, with poisoned memory, and images compared", "Sampled sources and layouts; comments wherever the grammar takes them."),
 "C16": ("free-running hosts, failures and damaged frames; every callback checked against the event grammar", "Sampled runs; grammar checked on every call, path on model-checked runs."),
 "C17": ("condition- and expression-heavy schemas with host values changing during the run, against a reference evaluator", "Sampled schemas and values; operands of % & | ^ << >> ~ ! && || are integers; integer arithmetic is 64-bit."),
 "C18": ("mixed-version fleet upgraded and rolled back under a seeded schedule", "Sampled schema versions; trailing optional scalars and strings."),
 "C19": ("damaged counts and lengths on a step clock of basic blocks; allocator and stdio counted", "Sampled frames; the bound is linear in program times buffer with a fixed constant."),
 "C20": ("recorded engine runs replayed by goroutines through the real Go binding, interleaved at callbacks by a seeded scheduler, with failing and panicking callbacks, nested engines, shared and read-only frames, failed allocations and forced collections", "Sampled scripts; goroutines switch at callbacks only; the engine inside the binding is judged against the engine outside it."),
 "C21": ("inspection commands on torn, spliced and bit-flipped images and failing disks under AddressSanitizer, listings against an independent reader", "Sampled images and damage; listing content checked for intact images."),
 "C22": ("one flaw of some fifty kinds injected at a random place of a sound schema or an imported file, and sources cut off, with the same piece without the flaw as control", "Sampled schemas, flaws and places; the kinds of flaw are listed by hand from the language."),
}
NA = []
def main():
    checks = [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
               "technique": D + ": " + t, "level": "exploration", "level_note": n} for p, (t, n) in sorted(NOTES.items())]
    json.dump({"version": 1, "setup_cmd": "bash build.sh && bash build_go.sh build", "checks": checks, "not_applicable": [{"property": a, "reason": b} for a, b in NA]}, open(V + "/MANIFEST.json", "w"), indent=1)
main()
