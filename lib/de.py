"""Values of DeepEq.tla as real objects."""
import numpy as np, pandas as pd

NUM = {"1": 1.0, "1~": 1.0 + 1e-9, "2": 2.0, "nan": float("nan")}
REC = np.dtype([("x", np.float64), ("y", np.int64)])


def f1(x):
    return x + 1


def f2(x):
    return x + 2


def value(t):
    k, v = t["k"], [NUM.get(c, c) for c in t["v"]]
    if k in ("float", "int"):
        return {"float": float, "int": int}[k](v[0]) if v[0] == v[0] else float("nan")
    if k == "none":
        return None
    if k == "str":
        return v[0]
    if k == "func":
        return f1 if t["v"][0] == "1" else f2
    if k == "array":
        if t["dt"] == "rec":
            x = np.zeros(t["sh"], REC)
            x["x"] = np.reshape(v, t["sh"])
            x["y"] = 3
            return x
        return np.reshape(np.array(v, dtype=t["dt"]), t["sh"])
    if k == "series":
        return pd.Series(v, name=t["n"])
    if k == "frame":
        return pd.DataFrame({t["n"]: v})
    if k == "index":
        return pd.Index(v, name=t["n"])
    xs = [value(i) for i in t["items"]]
    return xs if k == "list" else tuple(xs) if k == "tuple" else dict(zip(t["keys"], xs))
