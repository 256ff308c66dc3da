"""Writes MANIFEST.json (run by hand when properties or techniques change)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "sessions run against /repo, recorded and judged by TLC with spec/NnjTrace.tla"
T = {
    "C01": "TLA+: exact integer derivatives in Layers.tla, themselves model checked against differences of Fwd (MCDeriv.tla); " + TRACE,
    "C02": "TLA+: exact integer weight derivatives in Layers.tla, model checked (MCDeriv.tla); " + TRACE,
    "C03": "TLA+ Contract.tla (Exact), refined by the layerwise recursion (Chain.tla); " + TRACE,
    "C04": "TLA+ Contract.tla (Exact), refined by the layerwise recursion (Chain.tla), laws in MCAlgebra.tla; " + TRACE,
    "C05": "TLA+ Contract.tla (Exact, block diagonal metrics), Chain.tla with refuted variants, MCAlgebra.tla; " + TRACE,
    "C06": "TLA+ Contract.tla (Exact, block results), Chain.tla with refuted variants, MCAlgebra.tla; " + TRACE,
    "C07": "TLA+ Contract.tla (absent matrix); " + TRACE,
    "C08": "TLA+ Contract.tla (DiagBackprop recursion); " + TRACE,
    "C09": "TLA+ Surgery.tla model checked, its behaviours replayed into the real code; NnjTrace.tla (slice, edit, nest); " + TRACE,
    "C10": "TLA+ Cache.tla model checked, its behaviours replayed into the real code; " + TRACE,
    "C11": "TLA+ contract per sample; " + TRACE,
    "C12": "side effects measured around every call of a session, judged by TLC (NnjTrace.tla, Effects)",
    "C13": "TLA+ NnjTrace.tla (SetWeight, GetWeight, Copy); " + TRACE,
    "C14": "TLA+ Likelihood.tla (exact rationals), model checked (MCLik.tla); " + TRACE,
    "C15": "TLA+ Likelihood.tla (exact rational Hessians), model checked (MCLik.tla); " + TRACE,
    "C16": "TLA+ NnjTrace.tla (a torch network and its conversion, one specification module); " + TRACE,
    "C17": "TLA+ NnjTrace.tla (Invert: matrix times result is the identity, integers); " + TRACE,
    "C18": "TLA+ NnjTrace.tla (MayCall: exact or refused); " + TRACE,
    "C19": "TLA+ Acts.tla (scaled integer tables and sign regimes); " + TRACE,
    "C21": "TLA+ Contract.tla (the same vector Jacobian product, whoever computes it); " + TRACE,
    "C20": "TLA+ Layers.tla (custom layers) and Contract.tla; " + TRACE,
}
NOTE = ("The specification is evaluated exactly on every recorded session, so agreement is exact (integer arithmetic, no tolerance), "
        "but only for the sessions run: bounded sizes, small integer weights and inputs, CPU. Trusted: TLC, the recorder "
        "harness/drive.py, and that torch is exact on small integers.")


def main():
    checks = []
    for p in sorted(T):
        checks.append(dict(property=p, quick_cmd=f"python3 harness/check.py {p} --tier quick",
                           thorough_cmd=f"python3 harness/check.py {p} --tier thorough", technique=T[p], level="model_checking",
                           level_note=NOTE))
    m = dict(version=1, setup_cmd="python3 harness/selftest.py", checks=checks, not_applicable=[],
             notes="No hooks in /repo: everything is observed through the public interface. Known and fixed defects: known_findings.json.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
