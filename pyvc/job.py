"""One proof job in its own process:  job.py SPEC CASE OUT"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    name, case, out = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    from specs import registry
    spec = registry.get(name)
    budget = os.environ.get("PYVC_BUDGET_SCALE")
    if budget:
        spec.budget = spec.budget * float(budget)
    try:
        from pyvc.prove import prove
        r = prove(spec, spec.cases[case])
    except BaseException:  # noqa: BLE001
        r = {"spec": name, "error": "engine: " + traceback.format_exc()[-1500:], "obligations": [], "models": [], "functions": []}
    r["caseno"] = case
    r["source"] = source_hashes(r.get("functions", []))
    for m in r.get("models", []):
        m["spec"] = name
    with open(out, "w") as f:
        json.dump(r, f, default=str)


def source_hashes(functions):
    """normalised text (comments and docstrings dropped) of every function the proof read"""
    import ast
    import hashlib
    repo = os.environ.get("PYVC_REPO", "/repo")
    out = {}
    trees = {}
    for fq in functions:
        fq = fq.replace(" (by contract)", "")
        mod, qual = fq.split(":")
        p = os.path.join(repo, mod.replace(".", "/") + ".py")
        if not os.path.exists(p):
            continue
        if p not in trees:
            trees[p] = ast.parse(open(p).read())
        body = trees[p].body
        node = None
        for part in qual.split("."):
            node = next((s for s in body if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == part), None)
            if node is None:
                break
            body = node.body
        if node is None:
            continue
        for x in ast.walk(node):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.body and isinstance(x.body[0], ast.Expr) and isinstance(x.body[0].value, ast.Constant):
                x.body = x.body[1:] or [ast.Pass()]
        out[fq] = hashlib.sha256(ast.dump(node).encode()).hexdigest()[:16]
    for p, t in trees.items():
        top = [s for s in t.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        out[os.path.relpath(p, repo) + " (module level)"] = hashlib.sha256("".join(ast.dump(s) for s in top).encode()).hexdigest()[:16]
    from specs.base import flat_toml
    for f in ("constants.toml", "config.toml"):
        out[f] = hashlib.sha256(repr(sorted(flat_toml(os.path.join(repo, f)).items())).encode()).hexdigest()[:16]
    return out


if __name__ == "__main__":
    main()
