#!/usr/bin/env python3-vt
"""Validates documents against JSON schemas: stdin holds a JSON list of [key, schema path, document path];
prints a JSON list of [key, message] for those that do not conform."""
import json
import sys

import jsonschema
import yaml

Loader = getattr(yaml, "CSafeLoader", yaml.SafeLoader)


def main():
    jobs = json.load(sys.stdin)
    cache, out = {}, []
    for key, schema, doc in jobs:
        if schema not in cache:
            s = json.load(open(schema))
            cls = jsonschema.validators.validator_for(s)
            cache[schema] = cls(s)
        with open(doc) as f:
            d = json.load(f) if doc.endswith(".json") else yaml.load(f, Loader)
        for e in cache[schema].iter_errors(d):
            out.append([key, f"{'/'.join(map(str, e.absolute_path))}: {e.message[:300]}"])
            break
    json.dump(out, sys.stdout)


main()
