"""Which models and which families of behaviours decide which property."""

# models: module, cfg, and what TLC checks in them
LAWS = {
    "overrides": "operators evaluated by Java methods agree with their TLA+ definitions",
    "quadrature": "Gauss-Legendre rules and Legendre polynomials: exactness, orthogonality",
    "normal": "normalisation and series of the scattering functions",
    "expansion": "closed forms, convergence and stability of the Legendre coefficients",
    "combination": "linear combinations and their groups",
    "terms": "limits, monotonicity, reciprocity and linearity of the surface and volume term",
    "derivative": "dual-number derivatives are limits of difference quotients",
    "kernels": "continuity and symmetry of the interaction kernel",
    "interaction": "reciprocity, limits, closed form and azimuth-independence of the interaction term",
}
MODELS = {}
for _n, (_few, _many) in {
    "overrides": (40, 1000), "quadrature": (40, 1000), "normal": (40, 400), "expansion": (40, 1000),
    "combination": (40, 1000), "terms": (40, 1000), "derivative": (60, 1500), "kernels": (100, 3000),
    "interaction": (20, 500),
}.items():
    for _t, _c, _seed in (("", _few, 1), ("+", _many, 2)):
        MODELS["laws." + _n + _t] = {
            "module": "Laws", "env": {"LAW_GROUP": _n, "LAW_COUNT": str(_c), "LAW_SEED": str(_seed)},
            "what": LAWS[_n],
        }
MODELS["cache"] = {
    "module": "Cache", "cfg": "Cache.cfg",
    "what": "the caching design of two models is coherent: no remembered value is ever stale",
}
MODELS["cache.mutants"] = {
    "module": "Cache", "cfg": "CacheMutants.cfg", "workers": 1,
    "what": "each invalidation left out: stale values exactly where the invalidation is needed",
}

PLAN = {
    "C01": {"quick": {"Gen.evalsv": 400}},
    "C02": {"quick": {"Gen.eval": 200, "Gen.evalhi": 30}},
    "C03": {"quick": {"Gen.units": 140}},
    "C04": {"quick": {"Gen.hist": 130, "Gen.duo": 90, "CacheTour.mem": 20},
            "thorough": {"Gen.hist": 2000, "Gen.duo": 2048, "CacheTour.mem": 300},
            "models": ["cache", "cache.mutants"]},
    "C05": {"quick": {"Gen.fixdyn": 96, "Tour.geo": 12}},
    "C06": {"quick": {"Gen.geo": 80, "Tour.geo": 40}},
    "C07": {"quick": {"Gen.switch": 40, "Gen.backend": 40, "Gen.scatB": 36, "Gen.linB": 10, "Gen.jacB": 16,
                      "Gen.limitB": 12, "Gen.shapeB": 10, "Gen.paramsB": 12, "Gen.hemiB": 6, "Gen.polarB": 8}},
    "C08": {"quick": {"Gen.shape": 180}},
    "C09": {"quick": {"Gen.params": 200}},
    "C10": {"quick": {"Gen.jac": 160}},
    "C11": {"quick": {"Gen.sparse": 150}},
    "C12": {"quick": {"Gen.limit": 180}},
    "C13": {"quick": {"Gen.copy": 120}},
    "C14": {"quick": {"Gen.scat": 180}},
    "C15": {"quick": {"Gen.scat": 100, "Gen.scatlin": 40, "Gen.nocoef": 30, "Gen.evalhi": 10}},
    "C16": {"quick": {"Gen.scatlin": 100, "Gen.evallin": 45}},
    "C17": {"quick": {"Gen.pair": 140}},
    "C18": {"quick": {"Gen.reuse": 120}},
    "C19": {"quick": {"Gen.wid": 64}},
    "C20": {"quick": {"Gen.hemi": 64}},
    "C21": {"quick": {"Gen.log": 200}},
    "C22": {"quick": {"Gen.polar": 120}},
}
for _p, _laws in {
    "C01": ["overrides", "terms"], "C02": ["kernels", "interaction"], "C03": ["terms"], "C07": ["overrides"],
    "C10": ["derivative"], "C11": ["derivative"], "C12": ["terms", "interaction"], "C14": ["normal"],
    "C15": ["quadrature", "expansion"], "C16": ["combination"], "C20": ["normal", "quadrature"],
}.items():
    PLAN[_p]["models"] = ["laws." + i for i in _laws]
    PLAN[_p]["models_thorough"] = ["laws." + i + "+" for i in _laws]
# (counts: cases; of a tour the percentage, CacheTour: per mille, of its cases)
for _p in PLAN.values():
    _p.setdefault("thorough", {k: 100 if k.startswith("Tour") else 10 * v for k, v in _p["quick"].items()})

NOTES = {
    p: "Every call of every generated behaviour is compared with the value, shape or exception the "
       "specification computes for the state it was made in."
    for p in PLAN
}
