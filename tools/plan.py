"""Which instrumented programs decide which property."""
import os
REPO = os.environ.get("VERIF_REPO_DIR", "/repo")
# feature sets (of left, fake_exp, rayon, f32) beyond those of the quick tier
_OTHERS = [[], ["left", "rayon"], ["left", "f32"], ["fake_exp", "rayon"], ["fake_exp", "f32"], ["rayon", "f32"],
           ["left", "fake_exp", "rayon"], ["left", "fake_exp", "f32"], ["left", "rayon", "f32"], ["fake_exp", "rayon", "f32"]]
# the double-precision programs that are repeated under other conventions
_ALL = ["c%02d" % i for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 27, 28)]
PLAN = {
    "C01": dict(runs=[dict(bin="c01")]),
    "C02": dict(runs=[dict(bin="c02")]),
    "C03": dict(runs=[dict(bin="c03"), dict(bin="c03", kind="release", scale={"quick": 0.3, "thorough": 0.3})]),
    "C04": dict(runs=[dict(bin="c04")]),
    "C05": dict(runs=[dict(bin="c05")]),
    "C06": dict(runs=[dict(bin="c06")]),
    "C07": dict(runs=[dict(bin="c07")]),
    "C08": dict(runs=[dict(bin="c08")]),
    "C09": dict(runs=[dict(bin="c09")]),
    "C10": dict(runs=[dict(bin="c10"), dict(bin="c10_fac", build_is_property=True)]),
    "C11": dict(runs=[dict(bin="c11")]),
    "C12": dict(runs=[dict(bin="c12")]),
    "C13": dict(runs=[dict(bin="c13")]),
    "C14": dict(runs=[dict(bin="c14")]),
    "C15": dict(runs=[dict(bin="c15")]),
    "C16": dict(runs=[dict(bin="c16")]),
    "C17": dict(runs=[dict(bin="c17")]),
    "C18": dict(runs=[dict(bin="c18")]),
    "C19": dict(runs=[dict(bin="c19")]),
    "C20": dict(runs=[dict(bin="c20")]),
    "C21": dict(runs=[dict(bin="c21")]),
    "C22": dict(runs=[dict(bin="c22")]),
    "C23": dict(runs=[dict(bin="c23")]),
    "C24": dict(runs=[dict(bin="c24", features=["rerun"])]),
    "C25": dict(runs=[
        dict(bin="c25"),
        dict(bin="c25", kind="release", scale={"quick": 0.5, "thorough": 0.5}),
        dict(bin="c25", kind="asan", scale={"quick": 0.3, "thorough": 0.5}),
    ] + [dict(bin=b, kind="asan", only_crash=True, scale={"quick": q, "thorough": 0.3}) for b, q in
         [("c11", 0.1), ("c12", 0.1), ("c13", 0.1), ("c18", 0.1), ("c23", 0.2), ("c27", 0.1), ("c28", 0.1)]]),
    "C26": dict(runs=[dict(bin="c26", features=f, build_is_property=True) for f in
                      [["left"], ["fake_exp"], ["rayon"], ["f32"], ["left", "fake_exp"], ["f32", "left", "fake_exp", "rayon"]]]
                + [dict(bin="c26", features=f, build_is_property=True, tier="thorough") for f in _OTHERS]
                + [dict(bin=b, features=[f], scale={"quick": 0.2, "thorough": 0.3}) for f, bs in
                   [("left", ["c02", "c03", "c05", "c13", "c20"]), ("fake_exp", ["c02", "c03", "c13"]), ("rayon", ["c11", "c13", "c14"])] for b in bs]
                + [dict(bin=b, features=f, scale={"thorough": 0.1}, tier="thorough") for f in
                   [["left"], ["fake_exp"], ["rayon"], ["left", "fake_exp"], ["left", "fake_exp", "rayon"]] for b in _ALL]),
    "C27": dict(runs=[dict(bin="c27"), dict(bin="c27", kind="release", scale={"quick": 0.3, "thorough": 0.3})]),
    "C28": dict(runs=[dict(bin="c28"), dict(bin="c28", kind="release")]),
    "C29": dict(runs=[dict(bin="c29", crate="serde/monitor")]),
}
_T = "runtime monitoring: "
TECH = {
    "C01": (_T + "every group operation executed and compared online with an independent matrix-group reference; invariant monitor (unit norm) along long operation chains", ""),
    "C02": (_T + "exp/log calls compared online with a scaling-and-squaring matrix exponential and an independent principal logarithm, workload concentrated at 0, pi, 2pi and both quaternion covers", ""),
    "C03": (_T + "oplus/ominus calls and container updates compared online with the reference exponential; frame monitor on the variables an update does not address", ""),
    "C04": (_T + "matrix Lie group identities asserted on every observed call against the matrix representation", ""),
    "C05": (_T + "forward-mode Jacobians of generated functions compared with exact derivatives and 4th-order differences of an independent matrix-level map", ""),
    "C06": (_T + "numerical Jacobians compared with exact derivatives within the step-size error bound", ""),
    "C07": (_T + "residual evaluations and Jacobians through the public traits compared with a matrix-level model", ""),
    "C08": (_T + "whitening calls of every constructor compared with an independently inverted covariance; rejection monitor on invalid matrices", ""),
    "C09": (_T + "kernel calls compared with the documented formulas, and loss/weight consistency, monotonicity and range asserted along parameter sweeps", ""),
    "C10": (_T + "factor error and linearisation compared with noise and kernel models recording what they were given; the fac! forms are compiled and executed", ""),
    "C11": (_T + "assembled sparse systems compared with dense placement of individually observed factors", ""),
    "C12": (_T + "solver outputs judged by dense QR/LU and by the stationarity residual, over reuse histories of one solver object", ""),
    "C13": (_T + "every optimizer step recorded through the observer interface and judged offline against a dense least-squares reference", ""),
    "C14": (_T + "trace checker: an instrumented linear solver records every damped system the optimizer forms; the log is replayed against the documented lambda schedule automaton", ""),
    "C15": (_T + "trace checker over scripted optimizers and recorded observer events against the stopping-rule specification", ""),
    "C16": (_T + "history-independence checker: recorded traces of reused optimizers compared with those of fresh ones", ""),
    "C17": (_T + "stationarity, recovery and invariance monitors on complete optimisation runs under permutation, renaming and solver changes", ""),
    "C18": (_T + "online model checker: every operation of random histories compared with a reference map", ""),
    "C19": (_T + "symbol/key round trips observed over all Unicode letters and index regimes against an injectivity table", ""),
    "C20": (_T + "IMU factor residuals compared with direct integration of the same measurements by an independent integrator", ""),
    "C21": (_T + "information read back from the observed linearisation compared with an independent covariance recursion", ""),
    "C22": (_T + "residual shifts under bias changes compared with re-integration; Jacobian compared with differences of the model", ""),
    "C23": (_T + "files written by a generator are loaded by the real parser and the resulting graph and values compared, factor by factor, with what was written; malformed files must be rejected", ""),
    "C24": (_T + "conversions and a memory-sink recording of the streaming observer compared, decoded, with the variables given", ""),
    "C25": ("sanitizers: AddressSanitizer builds plus debug assertions, overflow checks, panic and hang monitors over hostile and long-history workloads", "Also runs the workloads of seven other properties under AddressSanitizer."),
    "C26": (_T + "the reference-model monitors repeated under each feature configuration, with precision-scaled tolerances", ""),
    "C27": (_T + "orderings and linear values observed after random histories compared with an interval-partition specification", ""),
    "C28": (_T + "rejection monitor: every misuse site is executed and must panic or return the documented error; the neighbouring valid use must not", ""),
    "C29": (_T + "graphs, values, factors and variables written to JSON and read back are compared, by their observable behaviour, with the originals; damaged documents must be refused", "The repository's fork of typetag is an empty submodule here; a stand-in with the same registration semantics is linked instead."),
}
