#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "exploration"; M = "model_checking"
NOTE_E = "Bounded exhaustive enumeration of inputs and configurations: every case within the bounds of DESIGN.md is executed on the real code and compared with an independent big-integer reference."
NOTE_M = "Every operation history within the bounds of DESIGN.md is executed on the real objects and compared step by step with the reference model."
CLAIM = {
 "C01": (E, "exhaustive small-modulus and boundary-alphabet enumeration of the real kernels against a 128-bit reference"),
 "C02": (E, "exhaustive enumeration of operations x levels x aliasing x value patterns on the real code against big-integer polynomials"),
 "C03": (E, "exhaustive enumeration of basis and boundary polynomials x degrees x variants on the real code against direct evaluation"),
 "C04": (E, "exhaustive enumeration of level pairs x boundary integers on the real code against exact CRT"),
 "C05": (E, "exhaustive enumeration of levels x dropped primes x rounding boundaries on the real code against exact division"),
 "C06": (E, "exhaustive enumeration of Galois elements, amounts and degrees on the real code against direct substitution"),
 "C07": (E, "exhaustive enumeration of adversarial random streams and of all leading bits/bytes against validity, exact outcome counts and tables computed from the definition"),
 "C08": (E, "exhaustive enumeration of object kinds x shapes x flags x receiver and buffer states on the real encoders against structural equality and use of the decoded object"),
 "C09": (M, "all operation histories up to a depth on real generators and buffers, compared step by step with a byte-stream and a byte-list model; helpers on all small arguments"),
 "C10": (E, "exhaustive enumeration of parameter shapes x encryption routes x levels x domains x degrees on the real encryptors and decryptors against the exact integer phase"),
 "C11": (E, "exhaustive enumeration of key generators x level pairs x digit layouts x Galois elements x routes on the real key switcher against the exact gadget product"),
 "C12": (E, "exhaustive enumeration of literals, moduli tuples, pairs of sets and prime searches on the real constructors against independent definitions"),
 "C13": (M, "all operation histories up to a depth on a real fast key switcher against a fresh one, and exhaustive enumeration of layouts x levels x rotations x operands against the exact gadget product"),
 "C14": (M, "all histories of encoder operations up to a depth against a fresh encoder bit by bit, and exhaustive enumeration of layouts x levels x scales x domains x receiver states against the exact canonical embedding"),
 "C15": (M, "all operation programs up to a depth run on the implementation beside an exact integer model of the decryption phase, level and scale, plus exhaustive enumeration of operand levels x degrees x scales x constants x receivers per operation"),
 "C16": (M, "all operation histories up to a depth on one real object of each kind against fresh objects bit by bit, with operands, keys and earlier results monitored; exhaustive enumeration of receivers and aliasings"),
 "C17": (M, "all schedules of two and three goroutines with one preemption (thorough: two) at the statements of the instrumented implementation, under a cooperative scheduler, against the results of the operations alone; exhaustive comparison of the memory reachable from two objects around every operation; a race detector run"),
 "C18": (M, "all operation programs up to a depth run on the real fast evaluator beside an exact integer model of phase, level and scale and beside a fresh evaluator bit by bit; all message histories up to a depth; exhaustive enumeration of levels x receivers x rotations"),
 "C21": (E, "all histories of key generations and encryptions up to a depth on one set of real objects, with the mask, error and ephemeral secret of every RLWE sample recovered exactly; exhaustive flipping of the bits of the seeds"),
 "C20": (M, "all histories of operations and misuses up to a depth on one real object of each kind against fresh objects bit by bit; exhaustive enumeration of degrees x levels x domains x scales x receivers, of slot counts and of key degrees against the documented preconditions"),
 "C19": (E, "exhaustive enumeration of object kinds x shapes x flags x receiver shapes x single-component changes on the real constructors, copies, comparisons and resizings"),
}
ALL = ["C%02d" % i for i in range(1, 22)]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in ALL:
    if p in CLAIM:
        lv, tech = CLAIM[p]
        m["checks"].append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
            "technique": "bounded exhaustive exploration of the implementation: " + tech, "level": lv,
            "level_note": NOTE_E if lv == E else NOTE_M})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
