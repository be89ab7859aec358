"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
C = {
 "C01": ("seeded thread schedules of the real parallel builder against a layer-size formula and an element model", "Every simulated build finishes, with the layer sizes of an independent formula and the elements given."),
 "C02": ("seeded thread schedules of the real parallel builder, full well-formedness check of every list", "Every list of every layer of every simulated build is checked."),
 "C03": ("seeded thread schedules in the regime where no link may be dropped, symmetry/connectivity/brute-force oracle", "Oracle is complete in the lossless regime (distinct non-zero elements, room in every list)."),
 "C04": ("seeded histories of push/build/save/crash+restart/search against a reference model, parallel steps under seeded schedules", "Reference model compared after every step."),
 "C05": ("seeded thread schedules (stalls, bursts, starvation) of real builds, recall against brute force and a one-thread build", "Statistical property: thresholds were calibrated on 2000 builds with a margin of about three times the worst deviation seen."),
 "C06": ("seeded schedules of concurrent searches on built, byte-loaded and mapped indexes against an independent reachability/distance oracle", "Exhaustive answers are decided exactly; small budgets only for truthfulness and equality with a lone search."),
 "C07": ("seeded schedules of concurrent inserters on RwGranneBuilder, history checked against an id/slot model", "Checks ids, contents, capacity and refusals over complete histories."),
 "C08": ("seeded schedules of searches beside inserts, interval history against visible/completed inserts", "Visibility is decided in the lossless regime."),
 "C09": ("seeded schedules of saves beside inserts, snapshot consistency over the recorded history and reloaded files", "Each saved pair of files is loaded and compared with the history."),
 "C10": ("seeded schedules with stalls over all operations, deadlock/livelock detection with a fair phase after a step cap", "Liveness: no deadlock and completion within a step bound under fair scheduling."),
 "C11": ("seeded schedules of concurrent filling, layer structure compared with an offline build and formula", "Layer structure decided exactly; losslessness in the lossless regime."),
 "C12": ("seeded short/interrupted I/O while saving and loading, complete graph and byte comparison with an in-memory model", "Handcrafted graphs reach encodings that builds do not; two known format limits are listed in known_findings.json."),
 "C13": ("one injected I/O fault (EIO, ENOSPC, zero-length write, failing seek/flush, transient or sticky) at any operation of a save, output compared with the fault-free one", "Success is only accepted with the complete bytes."),
 "C14": ("simulated crashes at any point (also inside a write) of a save, each disk image loaded and compared", "Prefix-of-issued-writes crash model (no reordering by the OS)."),
 "C15": ("seeded histories of save/map/load/push/permute with I/O and mapping faults against a bit-exact model", "Every element compared bit for bit after every step."),
 "C16": ("one-worker builds repeated under seeded clocks (frozen, jumping) with and without progress, byte comparison; many-worker progress runs", "Byte identity of the saved index."),
 "C17": ("seeded schedules of reordering against a complete relabelling oracle", "Every list, element and layer range compared."),
 "C18": ("same reordering under seeded schedules of several workers and by one worker, byte comparison, searches before/after", "Byte identity between worker counts."),
 "C19": ("seeded schedules, directory orders and short/interrupted I/O over the real parsing pipeline against a reference that generated the text", "Every element compared with the reference."),
 "C20": ("one injected fault (read/write/open/mmap/readdir error, disk full, truncated/corrupt/invalid input) in a data-preparation job, complete output required on normal return", "Normal return is only accepted with the complete output."),
 "C22": ("panics injected at random element accesses and by foreign elements, under seeded schedules of all operations of the concurrent builder and of offline builds, history and graph judged afterwards", "Judged by the same history model as C07-C09 (and C01-C03 for offline builds); what a panicking batch leaves behind may or may not be there."),
 "C23": ("a save stuck in a random device operation, or an insert stuck where it begins to link an element, under seeded schedules of readers beside it; a reader that waits is a deadlock", "Only one insert at a time (a second one waiting for the lock may keep readers waiting by the lock's fairness)."),
 "C24": ("seeded histories of load/search/save/build/drop with injected I/O faults, open files, mappings, threads and heap of the simulated process compared with those before", "Heap growth is judged over repeated steps."),
 "C32": ("short/interrupted I/O and every way of loading over files from an independent encoder of the pinned format, complete comparison", "Files are encoded by the harness (no file of an earlier release exists here), with the metadata of several releases."),
 "C33": ("seeded schedules, short/interrupted I/O and injected I/O faults under random call histories in a CPython interpreter inside the simulated process, compared call by call with the Rust library", "One Python thread (the bindings hold the interpreter lock for the whole of every call); CPython 3.12."),
 "C21": ("seeded schedules and short/interrupted writes of the real embedding computation against a bit-exact and an independent float reference", "Every vector compared."),
}
FINE = {k: ", and at any load or store of granne in a second, instrumented build" for k in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C16 C17 C18 C19 C21 C22 C23".split()}
NA = {
 "C30": "pure function of two vectors: no schedule, clock, I/O, fault or history can influence it, so there is nothing to simulate (its effect on search answers is covered by C06)",
 "C31": "pure function of one vector: no schedule, clock, I/O, fault or history can influence it (stored values are covered by C15 and C21)",
}
checks = [{
    "property": k,
    "quick_cmd": f"bash check.sh {k}",
    "thorough_cmd": f"bash check.sh {k}",
    "evidence_file": f"evidence/{k}.json",
    "technique": T + t,
    "level": "exploration",
    "level_note": n + " Seeded search: samples schedules and faults, does not enumerate them. Sequentially consistent memory; preemption at lock operations, element accesses, futex, I/O, thread start" + FINE.get(k, "") + ".",
} for k, (t, n) in sorted(C.items())]
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the simulator interposes libc symbols and patches lock_api inside the harness only. Tier is taken from VERIF_TIER; GSIM_SECS overrides the exploration time."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
