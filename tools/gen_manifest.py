#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, subprocess
T = {
 "C01": ("crash/overflow/stack monitor over hostile texts, debug-vs-release verdict comparison", "Observed executions only: hostile text families with sizes to about 10^5-10^6 characters, parsed on a 2 MiB stack in debug (overflow checks) and optimised builds and both precisions; panics, process deaths and runaway CPU are attributed to a case and must repeat."),
 "C02": ("reference-value monitor: delivered numbers against independently computed values", "Literals are generated over the whole grammar; the oracle is exact integer arithmetic and the standard library's correctly rounded decimal conversion of the literal as written."),
 "C03": ("reference-value monitor: delivered strings against the characters generated", "Strings are generated from the decoded characters, so the expected value is known by construction."),
 "C04": ("reference-model monitor: parsed world tree against the generated tree", "The scene tree is known by construction; kinds, strings, order and nesting compared node by node."),
 "C05": ("reference-model monitor: parameter collections against the generated ones", "Every collection of every parameter set is compared entirely, so lost, added, moved and reordered parameters are seen."),
 "C06": ("reference-model monitor: option list against the generated one", "All 18 option kinds with random operands; compared entirely."),
 "C07": ("online oracle: independent recogniser judges accept/refuse of edited scenes", "Trusts the recogniser in harness/src/refparse.rs, which abstains where the language is unspecified (abstentions are counted in the evidence)."),
 "C08": ("reference-value monitor: reported positions against positions computed from the text", "Positions are computed from the rendered text by an independent counter of rows and characters."),
 "C09": ("metamorphic monitor: two layouts of one token sequence must agree", "The two results (positions stripped) or verdicts are compared with each other; no model of the language is trusted."),
 "C10": ("history and schedule monitor: repeated, reordered and concurrent calls compared; ThreadSanitizer", "Call results compared across orders, threads and processes with opposite histories; ThreadSanitizer watches the same batches. Interleavings are those the scheduler produced."),
 "C11": ("cost monitor: callgrind instruction counts and allocator events over growing inputs", "64 growing families, growth per 4-fold length must stay below 6 (linear is 4, measured at most 4.4). Verdict on counted instructions and bytes, not on time."),
 "C12": ("reference-value monitor: residual of the returned inverse against the identity", "Residual computed in double-double/f64 and judged relative to the condition number; ill-conditioned and singular matrices are not judged (counted)."),
 "C13": ("refusal monitor: every singular matrix offered must panic", "Rows and columns of zeros at all positions in random, structured and sparse matrices."),
 "C14": ("reference-value monitor: matrix results against exact or double-precision definitions", "Integers are compared exactly, floats within a rounding bound."),
 "C15": ("invariant monitor: matrix times stored inverse over chains of derived transforms", "The pair is observed through inverse(); residual judged relative to the condition number."),
 "C16": ("reference-value monitor: application and classification against definitions", "Deviations within 1% of the classification threshold are not judged."),
 "C17": ("reference-value monitor: arithmetic against component-wise definitions", "Integers exactly, floats bit-exactly or within a rounding bound where the order of operations is free."),
 "C18": ("reference-value monitor: component selection against definitions", "Ties, signed zeros and extremes are part of the workload; out-of-range indices must be refused."),
 "C19": ("invariant monitor: orthonormality and orientation of computed frames", "Tolerance of a few rounding units."),
 "C20": ("membership monitor: probe points against set definitions", "Probe points lie on, next to and between all face coordinates of both boxes."),
 "C21": ("reference-value monitor: measures against double-precision definitions", "Floats within a rounding bound, integers exactly."),
 "C22": ("sequence monitor: yielded pixels against the row-major enumeration", "All boxes with corners in -4..4 are enumerated; larger ones are random. The iterator is also asked again after its end."),
 "C23": ("reference-value and composition monitor over scaling sequences", "Within a rounding bound scaled by the operands."),
 "C24": ("AddressSanitizer, LeakSanitizer, memcheck, Miri and allocation-balance monitor over hostile inputs", "A clean run says nothing about paths not driven; red-zone tools miss far out-of-bounds accesses; the interpreter sees small inputs only."),
 "C25": ("online oracle: independent recogniser names the offending token of edited scenes", "Trusts the recogniser in harness/src/refparse.rs, which abstains where the place is a matter of taste (counted)."),
 "C26": ("differential monitor: == of two results against comparison of their observed parts", "Every part is read through the hooks and compared by the harness; pairs are mostly one edit apart."),
 "C27": ("reference-value and refusal monitor: NaN recognition, limits and conversions against the bit patterns", "Float bit patterns of every class (quiet and signalling NaNs of both signs, infinities, subnormals)."),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("hooks:")]
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --setup",
 "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS='--cfg verif_hooks' when building /verif/harness (path dependency on /repo)", "source_commits": hooks},
 "checks": [{"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
             "evidence_file": "evidence/%s.json" % i, "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": n} for i, (t, n) in sorted(T.items())],
 "not_applicable": [],
 "notes": "All checks share the driver check.py and the harness crate harness/. Exit 2 means inconclusive.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
