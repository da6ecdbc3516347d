"""Writes sa/extern_calls.json: the call shapes of the functions of the numerical libraries, from their signatures.
Run with the interpreter of the build environment: /opt/venv/bin/python tools/extern_calls.py"""
import importlib
import inspect
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UFUNC = ["out", "where", "casting", "order", "dtype", "subok", "signature", "extobj", "axes", "axis", "keepdims", "sig"]
mods = json.load(open(os.path.join(HERE, "sa", "extern.json")))["modules"]
out = {}
for m in sorted(mods):
    if m.split(".")[0] not in ("numpy", "scipy", "copy", "warnings", "math"):
        continue
    try:
        mod = importlib.import_module(m)
    except Exception:
        continue
    for a in sorted(mods[m]):
        f = getattr(mod, a, None)
        if f is None or not callable(f):
            continue
        if type(f).__name__ == "ufunc":
            out[m + "." + a] = {"pos": ["x"] * (f.nin + f.nout), "need": f.nin, "var": False, "kw": UFUNC, "anykw": False}
            continue
        if inspect.isclass(f):
            continue
        try:
            s = inspect.signature(f)
        except (ValueError, TypeError):
            continue
        P = inspect.Parameter
        ps = list(s.parameters.values())
        pos = [p for p in ps if p.kind in (P.POSITIONAL_ONLY, P.POSITIONAL_OR_KEYWORD)]
        out[m + "." + a] = {"pos": [p.name if p.kind == P.POSITIONAL_OR_KEYWORD else "" for p in pos],
                            "need": sum(p.default is P.empty for p in pos),
                            "var": any(p.kind == P.VAR_POSITIONAL for p in ps),
                            "kw": [p.name for p in ps if p.kind == P.KEYWORD_ONLY],
                            "kwneed": [p.name for p in ps if p.kind == P.KEYWORD_ONLY and p.default is P.empty],
                            "anykw": any(p.kind == P.VAR_KEYWORD for p in ps)}
json.dump(out, open(os.path.join(HERE, "sa", "extern_calls.json"), "w"), indent=0, sort_keys=True)
print(len(out))
