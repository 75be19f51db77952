"""Write MANIFEST.json."""
import json
SIM = "deterministic simulation: seeded search over "
C = {
"C01": ("exploration", SIM+"insertion orders x polygon sets, exact tiling oracle", "Samples the order and input space (up to 270,000 vertices and 66,000 polygons); every run is judged exactly in integer arithmetic. Trusts the oracle and that the simulated coordinates are exact."),
"C02": ("exploration", SIM+"insertion orders x polygon sets, conforming-mesh oracle", "Samples; every run is judged exactly edge by edge. Trusts the oracle."),
"C03": ("exploration", SIM+"insertion orders x formats x winding requests, exact orientation of every triangle", "Samples; exact signs. Zero-area triangles have no winding and are not judged here."),
"C04": ("exploration", SIM+"uniform and adversarial insertion orders with a step clock and a bounded-progress oracle", "Samples orders, including identity-like and constant choices; bounded liveness in simulated steps, wall-clock watchdog for loops that take no step."),
"C05": ("exploration", SIM+"insertion orders, work counted in simulated steps, bytes and executed code regions, averaged per size and shape", "Statistical, with margins far above the spread seen over many seeds; catches changes in growth rate, not constant factors under two."),
"C06": ("exploration", SIM+"insertion orders, differential check of all formats and containers on one trapezoidation", "Samples orders and sets; per run all formats, containers, wrappers are covered."),
"C07": ("exploration", SIM+"call histories with injected builder errors, checked step by step against a model sequence", "Samples histories of up to eight calls."),
"C08": ("fault_enumeration", "deterministic simulation: every builder callback of each sampled execution fails in turn; invalid geometry, delimiter collisions, undersized sets", "Per sampled execution every fault position is tried; executions are sampled."),
"C09": ("fault_enumeration", "deterministic simulation: every builder callback fails in turn, lifecycle automaton over the recorded history", "Per sampled execution every fault position is tried; executions are sampled."),
"C10": ("exploration", SIM+"histories of successes, builder errors and panics at arbitrary steps against one trapezoidation", "Samples histories and crash points."),
"C11": ("exploration", "deterministic simulation: real threads parked at every step and released one at a time by a seeded scheduler, nested calls, crashes", "Samples interleavings at the granularity of user-visible steps; interleavings inside one step are not explored. Send/Sync of a shared trapezoidation is checked by the compiler."),
"C12": ("exploration", SIM+"insertion orders x input representations, exact tiling oracle", "Samples; covers every representation the crate implements."),
"C13": ("exploration", SIM+"insertion orders and placements of undersized polygons, error and callback history", "Samples."),
"C14": ("fault_enumeration", "deterministic simulation: crashes at many steps of each sampled execution, live-object and byte accounting", "Per sampled execution crash points are spread over all steps (every one for small inputs); executions are sampled. A twelfth of them also run under AddressSanitizer with unsafe-call checks."),
"C15": ("exploration", "deterministic simulation of the file system under the tracing: injected disk errors, short writes, full and read-only disks, missing directories", "Samples fault traces over every file operation. Trusts that the tracing reaches the disk through libc."),
"C16": ("exploration", SIM+"insertion orders x invalid geometry, containment oracle (result, indices, output, live objects, later calls)", "Samples; a run stopped at the step bound is counted, not judged. Memory safety is observed, not proved: sentinels and live-object counts in every run, AddressSanitizer and the standard library's checks of unsafe calls in a twelfth of them."),
"C17": ("exploration", SIM+"insertion orders in a build with debug assertions and overflow checks", "Samples; sets up to 5,000 vertices with all assertions, up to 270,000 with overflow checks alone."),
}
checks = []
for k, (lvl, tech, note) in C.items():
    checks.append({"property": k, "quick_cmd": f"VERIF_TIER=quick ./check.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {k}", "evidence_file": f"evidence/{k}.json", "technique": tech, "level": lvl, "level_note": note})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks,
 "not_applicable": [
  {"property": "C18", "reason": "Whether rounding in the orientation test misleads the algorithm is a function of the coordinates alone: no schedule, fault or seam changes it, and the crate promises no robustness there; the simulator uses exact coordinates on purpose."},
  {"property": "C19", "reason": "The crate allocates through the infallible Vec interface, so the Rust runtime aborts the process on allocation failure before the library could return anything; there is no behaviour of the crate to decide."}],
 "notes": "No hooks in /repo: every seam is a patched dependency (rand's thread_rng, getrandom), the crate's own generics (coordinates, indices, vertices, polygon lists, formats, containers), the global allocator, or an interposed libc call. Genuine defects found are repaired in fix: commits and listed in known-findings.txt."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
