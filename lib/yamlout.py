"""A small YAML emitter whose scalars mean the same thing in YAML 1.1 and 1.2."""
import json
import math
import re

PLAIN = re.compile(r"[a-z][a-z0-9_]*([._][a-z0-9_]+)*\Z")
RESERVED = {"null", "true", "false", "yes", "no", "on", "off", "y", "n", "nan", "inf"}


def scalar(v):
    if v is None:
        return "null"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            raise ValueError(v)
        s = repr(v)
        return s if ("." in s or "e" in s) else s + ".0"
    if PLAIN.match(v) and v not in RESERVED:
        return v
    return json.dumps(v, ensure_ascii=False)


def emit(v, ind=0):
    pad = "  " * ind
    if isinstance(v, dict):
        if not v:
            return pad + "{}\n"
        out = []
        for k, x in v.items():
            if isinstance(x, (dict, list)) and x:
                out.append(f"{pad}{scalar(k)}:\n{emit(x, ind + 1)}")
            elif isinstance(x, dict):
                out.append(f"{pad}{scalar(k)}: {{}}\n")
            elif isinstance(x, list):
                out.append(f"{pad}{scalar(k)}: []\n")
            else:
                out.append(f"{pad}{scalar(k)}: {scalar(x)}\n")
        return "".join(out)
    if isinstance(v, list):
        if not v:
            return pad + "[]\n"
        out = []
        for x in v:
            if isinstance(x, dict) and x:
                body = emit(x, ind + 1)
                out.append(f"{pad}- {body[len(pad) + 2:]}")
            elif isinstance(x, list):
                out.append(f"{pad}- {json.dumps(x, ensure_ascii=False)}\n")
            elif isinstance(x, dict):
                out.append(f"{pad}- {{}}\n")
            else:
                out.append(f"{pad}- {scalar(x)}\n")
        return "".join(out)
    return pad + scalar(v) + "\n"


def write(path, v, rng=None):
    with open(path, "w", encoding="utf-8") as f:
        if rng is not None and rng.random() < 0.15:
            json.dump(v, f, ensure_ascii=False, indent=2)   # JSON is YAML
        else:
            f.write(emit(v))
