"""Writing registries to disk, and reading diagnostics."""
import json
import os
import re

from . import yamlout


def write_tree(root, files, rng=None, manifest=None):
    for p, doc in files.items():
        path = os.path.join(root, p)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if isinstance(doc, str):
            with open(path, "w") as f:
                f.write(doc)
        else:
            yamlout.write(path, doc, rng)
    os.makedirs(root, exist_ok=True)
    if manifest is not None:
        yamlout.write(os.path.join(root, "manifest.yaml"), manifest)
    return root


def manifest_v2(name, version="1.0.0", deps=()):
    m = {"name": name, "description": "A test registry.", "schema_url": f"https://example.test/{name}/{version}"}
    if deps:
        m["dependencies"] = list(deps)
    return m


def manifest(schema_url, deps=(), **kw):
    m = {"schema_url": schema_url, "description": "A test registry.", **kw}
    if deps:
        m["dependencies"] = list(deps)
    return m


def diags(res):
    """The diagnostics of a run made with --diagnostic-format json: list of dicts, or None if malformed."""
    if "[" not in res.err:
        return []
    for stream in (res.err, res.out):
        i = stream.find("[\n")
        j = stream.find("[{")
        cands = [x for x in (i, j) if x >= 0]
        for k in sorted(cands):
            try:
                v, _ = json.JSONDecoder().raw_decode(stream[k:])
            except ValueError:
                continue
            if isinstance(v, list) and v and all(isinstance(x, dict) and "diagnostic" in x for x in v):
                return v
    return []


WORD = re.compile(r"[A-Za-z0-9_./@:-]+")


def normal_message(m, *roots):
    """A message as a sorted bag of words: lists inside a message may come in any order."""
    for r in roots:
        m = m.replace(r, "<ROOT>")
    return " ".join(sorted(WORD.findall(m)))
