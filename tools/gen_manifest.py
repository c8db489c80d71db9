#!/usr/bin/env python3
"""Writes MANIFEST.json (developer tool)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("property-based testing against a reference model of clause evaluation", "Crafted automata, weights and samples over every backend, tile size and storage width; each vote and decision is recomputed from the definition."),
"C02": ("property-based testing: batch against single calls, recomputed argmax and accuracy", "Generated estimators and batches; every answer is recomputed from decision values."),
"C03": ("differential property-based testing of twin estimators", "Twins differing only in execution settings run the same generated call sequences; full states are compared."),
"C04": ("stateful property-based testing: used against fresh estimator", "Generated histories before a fit; the full state after it is compared with that of a new estimator."),
"C05": ("metamorphic property-based testing of epoch composition", "Epoch splits, argument orders, and per-epoch presentation counted through observable training effects and statistical tests with negligible false-alarm rates."),
"C06": ("round-trip and stateful differential property-based testing", "Export, import into used states, re-export and continued training are compared with the original."),
"C07": ("fault-injecting property-based testing of arguments with a twin as oracle", "One generated defect per call at a generated position; status, state and later behaviour are compared with a twin."),
"C08": ("grammar-based and mutational fuzzing against an independent acceptance oracle", "Generated and damaged parameter texts are judged by a separate statement of the accepted language and defaults; crashes and hangs are contained in worker processes."),
"C09": ("differential property-based testing: named arguments against JSON", "Subsets and orders of arguments are sampled at compile-time-instantiated call sites; values are generated."),
"C10": ("stateful property-based testing with an invariant over histories", "The invariant is checked after every call of generated histories, including ones started from automata at their limits."),
"C11": ("property-based testing of single updates against the update rules", "States before and after one update are compared with the set of transitions the rules allow."),
"C12": ("property-based testing of single updates against the update rules", "States before and after one update are compared with the set of transitions the rules allow, and update counts with the loss."),
"C13": ("statistical property-based testing with Bernstein and chi-square bounds", "Rates measured over many seeds and generated states; limits are set so that a correct library exceeds them with negligible probability."),
"C14": ("stateful property-based testing of copies, interleavings and threads; ThreadSanitizer on generated thread programs", "Each estimator is compared with one that lives alone. Thread schedules are those the machine produces."),
"C15": ("model-based property-based testing against plain arrays", "Operation sequences over all container instantiations are compared with vectors after every step."),
"C16": ("model-based property-based testing of histories; chi-square tests", "Histories over several generators against the model (seed, draws); ranges at extreme bounds; evenness limits with negligible false-alarm rates."),
"C17": ("stateful property-based testing against a twin which is not queried", "Every query is bracketed by full state comparisons, repeated, and followed by training compared with the twin."),
"C18": ("property-based testing of algebraic laws and against a double-precision reference", "Laws are checked at generated pairs of errors, leaning to the neighbourhood of C1."),
"C19": ("property-based testing of learning on generated concepts", "Generated concepts, noise, features and sensible settings; accuracy on all inputs against thresholds with a wide margin."),
"C20": ("structured fuzzing of call sequences under AddressSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck", "Sanitizers judge every generated call sequence; parallel regions are serial in these builds."),
"C21": ("property-based testing of comparison on singly altered copies and on pairs of histories", "Each component is altered at generated places; pairs of histories are judged by a field-by-field comparison."),
"C22": ("model-based property-based testing of operation chains with lifetime-tracked values", "Chains over the result types are compared with a model of side and value; copies, calls and lifetimes are counted."),
"C23": ("property-based testing of call sequences with the process inspected after every call", "Standard streams are captured and process-wide settings compared around every call."),
"C24": ("stateful property-based testing with injected allocation failures and damaged texts, a twin as oracle", "Chosen allocations of generated calls fail, and exported states are damaged before import; state, answers and later training are compared with an estimator which had none of this. A second build runs under AddressSanitizer."),
}
checks = [{"property": k, "quick_cmd": "python3 tools/check.py %s --tier quick" % k,
           "thorough_cmd": "python3 tools/check.py %s --tier thorough" % k,
           "technique": v[0], "level": "exploration",
           "level_note": v[1] + " Sampled, not exhaustive; trusts the harness in /verif/harness and the compiler."} for k, v in sorted(T.items())]
m = {"version": 1, "setup_cmd": "python3 -c \"print('checks build themselves from /repo')\"", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the checks use the public API, the state structures and the private headers of /repo/lib as they are."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
