"""JSON values as tagged tuples, the form in which the specification reads them (see spec/Wire.tla)."""
import json


def tag(v):
    if v is None:
        return ["n"]
    if isinstance(v, bool):
        return ["b", v]
    if isinstance(v, int):
        return ["i", str(v)] if v >= 0 else ["x", str(v)]
    if isinstance(v, str):
        try:
            v.encode("utf-8")
        except UnicodeEncodeError:
            return ["x", ascii(v)]
        return ["s", v]
    if isinstance(v, (list, tuple)):
        return ["a", [tag(x) for x in v]]
    if isinstance(v, dict):
        if not all(isinstance(k, str) for k in v):
            return ["x", ascii(v)]
        return ["o", {k: tag(x) for k, x in v.items()}] if v else ["o", []]
    return ["x", ascii(v)]


def dumps(v):
    return json.dumps(v, ensure_ascii=False, separators=(",", ":"))
