"""Regenerates MANIFEST.json from CHECKS below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "explicit-state model checking of the implementation"
FE = "exhaustive fault enumeration on the implementation"
# id: (level, technique, note)
CHECKS = {
 "C01": ("model_checking", MC + ": all operation sequences to a depth, in lockstep with a reference byte vector",
   "Exhaustive over all sequences of body operations up to the stated depth and append sizes, on the real crate with real files; not beyond that depth."),
 "C02": ("model_checking", MC + ": all source delivery scripts",
   "Exhaustive over the listed lengths, estimates, limits, buffer sizes, and all choices of the first deliveries, interruptions and failures; later deliveries are as large as fits."),
 "C03": ("model_checking", MC + ": all lengths around each limit, on every ingestion path",
   "Exhaustive over the listed limits, lengths next to them, buffer sizes and the first delivery or item sizes."),
 "C04": ("model_checking", MC + ": all lengths around the RAM limit, files opened observed at system call level",
   "Exhaustive over the listed limits, lengths next to them, buffer sizes and the first delivery or item sizes."),
 "C05": ("model_checking", MC + ": all schedules of threads sharing a body up to a preemption bound (controlled scheduler), and all operation sequences of several readers",
   "Exhaustive over the listed programs and body states, and all interleavings of file system calls, lock and thread operations up to the stated number of preemptions."),
 "C06": ("fault_enumeration", FE + ": every placement of up to 2 faults over all short operation sequences",
   "Exhaustive over the listed scenarios and all placements of errors, short counts and interruptions at the file system calls made, up to the stated number of faults."),
 "C07": ("fault_enumeration", FE + ": directory, descriptors and mappings observed after every operation of all short sequences, with and without a fault",
   "Exhaustive over the listed scenarios with at most one fault; a process crash is not part of it."),
 "C08": ("model_checking", MC + ": all combinations of header blocks, bodies, states, compressions and tunings of the stated families",
   "Exhaustive over the listed families; contents of bodies are patterns, not all contents."),
 "C09": ("model_checking", MC + ": all histories of writes, reopens, reads and seeks to a depth, in lockstep with a list of records",
   "Exhaustive over all histories up to the stated depth with up to 2 readers and 3 kinds of records."),
 "C10": ("model_checking", MC + ": all schedules of writers and readers up to a preemption bound (controlled scheduler)",
   "Exhaustive over the listed records and thread counts, and all interleavings of file system calls and lock operations up to the stated number of preemptions."),
 "C11": ("model_checking", MC + ": all schedules of writers up to a preemption bound (controlled scheduler), with deadlock detection",
   "Exhaustive over the listed records and thread counts, and all interleavings of file system calls and lock operations up to the stated number of preemptions."),
 "C12": ("fault_enumeration", "exhaustive crash-point enumeration on the implementation, with torn appends",
   "Exhaustive over all crash points of a write (and of pairs of writes) in the listed configurations; process crash, not power loss."),
 "C13": ("fault_enumeration", FE + ": every placement of up to 2 faults over opening a writer and writing",
   "Exhaustive over the listed configurations and all placements of up to 2 faults, at most one an error."),
 "C14": ("fault_enumeration", FE + ": every placement of up to 2 faults over reading two records",
   "Exhaustive over the listed configurations and all placements of up to 2 faults."),
 "C15": ("fault_enumeration", "exhaustive damage enumeration on the implementation: cuts, byte substitutions, head fields, piece sequences",
   "Exhaustive over the listed families of damage; not all files."),
 "C16": ("model_checking", MC + ": all dialogs of the stated families converted and compared field by field",
   "Exhaustive over the listed families of methods, URLs, versions, status codes, encodings, headers and bodies, and of malformed meta values."),
 "C17": ("model_checking", MC + ": all records of the stated families at, below and above the exact threshold, stored bytes decoded independently",
   "Exhaustive over the listed content types, lengths, marks, coefficients and minimums."),
 "C18": ("model_checking", MC + ": all schedules of polls, permit grants and the pool thread up to a preemption bound, with read faults",
   "Exhaustive over the listed stream types, bodies and sizes, and all choices of permit holders, spurious polls, changed wakers, one read fault, and interleavings of the dispatch pool thread."),
 "C19": ("model_checking", MC + ": hints and ends checked around every poll of all schedules of the stream space",
   "Exhaustive over the same space of streams as C18; not for sizes beyond the listed ones."),
 "C20": ("model_checking", MC + ": all sequences of sends and flushes to a depth under all schedules of permits and the pool thread, with write faults",
   "Exhaustive over the listed sink types, initial bodies, limits and buffer forms, and all choices of permit holders, spurious polls and interleavings of the dispatch pool thread."),
 "C21": ("model_checking", MC + ": permits and thread checked at every file system call of all schedules, including drops and cancellation",
   "Exhaustive over the listed permit and dispatch streams and sinks, up to the stated preemptions; polled outside of a tokio runtime."),
 "C22": ("model_checking", MC + ": all header lists and spellings to a length, all truncations and bit flips of compressed bodies, all placements of faults",
   "Exhaustive over the listed header lists, encodings, bodies, states, sizes and damage; contents of bodies are patterns."),
 "C23": ("model_checking", MC + ": all sequences of buffer operations to a depth, in lockstep with reference byte vectors",
   "Exhaustive over the listed origins and lengths and all operation sequences up to the stated depth."),
 "C24": ("model_checking", MC + ": all requests of the stated families recorded, and sent through every stream type",
   "Exhaustive over the listed methods, URLs, headers, bodies and stream types; hyper::Body is covered by C27."),
 "C25": ("model_checking", MC + ": all selections, parts, input lists and outputs of the stated families, run as a process and compared with a model",
   "Exhaustive over the listed archives and command lines; the network command is not part of it."),
 "C26": ("model_checking", MC + ": all sequences of setters to a depth, in lockstep with a model",
   "Exhaustive over all setter sequences up to the stated depth with limit values for each setting."),
 "C27": ("model_checking", MC + ": all splits, break-off and stall points of responses and all orders of tasks up to a number of deviations, on the real code with an in-memory server and virtual time",
   "Exhaustive over the listed responses and policies within the stated number of pieces and deviations in order; TLS and sockets are replaced by a stand-in."),
 "C28": ("model_checking", MC + ": all encodings, framings, break-off points and options of the stated families, run as a process against a scripted server and compared with a model",
   "Exhaustive over the listed responses and options; TLS and sockets are replaced by a stand-in."),
 "C29": ("model_checking", MC + ": all orders of polling, releasing and dropping of 2 or 3 transfers, and all schedules of the pool threads up to a preemption bound, on the real streams, sinks and pool",
   "Exhaustive over poll orders and file operation schedules of the listed transfers; locks inside the pool never hand over fairly, as time stands still."),
 "C30": ("fault_enumeration", FE + ": every reply of the destination to the first writes, over bodies of all states",
   "Exhaustive over replies to the first writes; later ones are taken whole."),
 "C31": ("model_checking", MC + ": all histories of writes to one archive by the library and by an independent codec of the format, each read by the other",
   "Exhaustive over the listed histories, records and settings of compression; contents of bodies are patterns."),
 "C32": ("model_checking", MC + ": all operation sequences, archive histories and encoding lists to a depth, on a build without optional features",
   "Exhaustive over the listed operations, records, streams and header lists; both features off at once, dispatch streams left out."),
 "C33": ("model_checking", MC + ": all messages by levels of detail and threads, all commands with all forms of debug flags, and the quick exploration of eleven other checks with messages composed",
   "Exhaustive over the listed levels, targets, commands and inner configurations; with messages composed but dropped within the harness."),
 "C34": ("model_checking", MC + ": all combinations of making and using a body over the limits, for two lengths each, with the peak of memory allocated measured; all combinations of claimed lengths",
   "Exhaustive over the listed ways, uses, settings and claims; by two lengths, 1.5 MiB and 6 MiB."),
}
NA = {}
exec(open(os.path.join(root, "tools", "manifest_na.py")).read()) if os.path.exists(os.path.join(root, "tools", "manifest_na.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check setup", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        lv, tech, note = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
                            "evidence_file": f"evidence/{p}.json", "technique": tech, "level": lv, "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
