ASSUMPTIONS = {
    "*": [
        "A-REAL: float and Decimal arithmetic is treated as exact real arithmetic (a float literal denotes its shortest "
        "decimal); rounding, overflow and NaN propagation are outside the proofs unless a contract names them",
        "A-LIB: math/numpy/bisect/geometry-library functions behave as the stand-ins of pyvc/shims.py say "
        "(sin/cos: s^2+c^2=1, addition theorems, parity, signs; sqrt; tan; atan/atan2 ranges)",
        "A-LOG: logging calls have no effect on the program state",
        "A-PY: CPython's semantics of the executed bytecode; contracts checks of PyContracts disabled (DISABLE_CONTRACTS=1)",
    ],
}


def _levels():
    import json, os

    try:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json")) as f:
            return {c["property"]: c["level"] for c in json.load(f)["checks"]}
    except Exception:
        return {}


LEVELS = _levels()
