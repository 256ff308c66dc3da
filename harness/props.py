"""What decides each property: budgets, design models, assumptions."""
import plans
import tlc

EXACT = ("networks and inputs are integer (or in units that make every derivative rational), so that the judge compares exactly; "
         "sizes bounded by the generators in harness/plans.py")


def P(quick, max_quick, thorough, max_thorough, models=(), assumptions=()):
    return dict(quick=quick, max_quick=max_quick, thorough=thorough, max_thorough=max_thorough, models=list(models),
                assumptions=[EXACT, "CPU, float32 and float64", "TLC 1.8 and the recorder harness/drive.py are trusted"] + list(assumptions))


def M(module, cfg, what, tier="quick", violates=False, timeout=700):
    return dict(module=module, cfg=cfg + ".cfg", what=what, tier=tier, violates=violates, timeout=timeout)


T = "thorough"
DERIV = [M("MCDeriv", "MCDeriv_lin", "the Jacobians of the specification are exact difference quotients: linear layers, all small sizes"),
         M("MCDeriv", "MCDeriv_net3", "the same for compositions of three layers and skip connections"),
         M("MCDeriv", "MCDeriv_net2", "the same for all compositions of two layers of the zoo", T),
         M("MCDeriv", "MCDeriv_up", "the same for upsampling", T),
         M("MCDeriv", "MCDeriv_pool", "the same for pooling, padding and reshaping", T),
         M("MCDeriv", "MCDeriv_conv", "the same for convolutions", T, timeout=1500)]
CHAIN = [M("Chain", "Chain_right", "layer-by-layer accumulation, forwards and backwards, computes the products of the whole Jacobian"),
         M("Chain", "Chain_deep", "the same for chains of three layers", T)]
CHAINNEG = [M("Chain", "Chain_" + n, "a faulty accumulation (%s) is told apart" % n, T, True)
            for n in ("diag-early", "diag-late", "weight-late", "add-early", "no-offset")]
ALGEBRA = [M("MCAlgebra", "MCAlgebra_2", "adjointness, factorisation, symmetry, positivity, diagonal and block restrictions of the products, 2x2"),
           M("MCAlgebra", "MCAlgebra_3", "the same, larger", T)]
SURGERY = [M("Surgery", "Surgery", "shared and edited compositions: weights read back, copies are separate, nobody else sees a write"),
           M("Surgery", "SurgeryDeep", "the same, one step deeper", T)]
CACHE = [M("Cache", "Cache", "products that recompute their feature maps never use those of another input, batch or weight"),
         M("Cache", "CacheDeep", "the same, longer histories", T),
         M("Cache", "CacheReuseTensor", "reusing them when the tensor is the same, whatever it holds, is told apart", T, violates=True),
         M("Cache", "CacheReuse", "reusing stored feature maps is told apart", violates=True),
         M("Cache", "CacheReuseBatch", "reusing them when only the batch size is compared is told apart", T, violates=True),
         M("Cache", "CacheReuseInput", "reusing them when only the input is compared is told apart", T, violates=True)]
LIK = [M("MCLik", "MCLik", "gradients and GGNs of the likelihoods against their definitions")]

PROPS = {
    "C01": P(3e7, 6000, 1.5e9, 60000, DERIV),
    "C02": P(3e7, 3000, 1.5e9, 60000, DERIV),
    "C03": P(3e7, 4000, 2e9, 40000, CHAIN),
    "C04": P(8e7, 3000, 2e9, 40000, CHAIN + ALGEBRA),
    "C05": P(2e8, 2500, 2e9, 40000, CHAIN + ALGEBRA + CHAINNEG),
    "C06": P(3.6e8, 2500, 3e9, 40000, CHAIN + ALGEBRA + CHAINNEG),
    "C07": P(5e8, 2500, 3e9, 40000, ALGEBRA),
    "C08": P(6e8, 4000, 3e9, 40000, ALGEBRA),
    "C09": P(5e7, 2200, 2e9, 30000, SURGERY),
    "C10": P(1e12, 4000, 1e12, 30000, CACHE),
    "C11": P(2.2e8, 1500, 2e9, 30000, [ALGEBRA[0]]),
    "C12": P(2.4e8, 1500, 2e9, 30000, SURGERY),
    "C13": P(1e9, 2500, 1e12, 20000, SURGERY + DERIV[:1]),
    "C14": P(1e9, 6000, 1e12, 30000, LIK),
    "C15": P(1e9, 6000, 1e12, 30000, LIK),
    "C16": P(1.2e8, 2000, 2e9, 30000, DERIV[:2]),
    "C17": P(1e9, 4000, 1e12, 20000, [ALGEBRA[0]]),
    "C18": P(5e8, 4000, 2e9, 30000, DERIV[:1] + DERIV[3:]),
    "C19": P(1e9, 8000, 1e12, 50000),
    "C21": P(1.6e8, 3000, 2e9, 40000, DERIV[:2] + CACHE[:1]),
    "C20": P(1e8, 4000, 2e9, 40000, DERIV[:2]),
}


def make_plans(prop, seed, thorough, scale, tmp):
    p = PROPS[prop]
    g = plans.Gen(prop, str(seed), (p["thorough"] if thorough else p["quick"]) * scale,
                  int((p["max_thorough"] if thorough else p["max_quick"]) * scale))
    g.tmp, g.thorough = tmp, thorough
    plans.GENS[prop](g)
    return g.plans, g.cover


def run_model(m, a, tmp):
    r = tlc.run(m["module"], m["cfg"], env=m.get("env"), workers=8, timeout=m.get("timeout", 700), allow_violation=bool(m.get("violates")))
    ok = r["violated"] if m.get("violates") else not r["violated"]
    return dict(name=m["module"] + "/" + m["cfg"], what=m["what"], ok=ok, distinct=r["distinct"], states=r["states"], wall=round(r["wall"], 1))
