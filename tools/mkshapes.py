#!/usr/bin/env python3
"""Writes units/shapes.json: the loops of every proved function, as its contract knows them, and the functions without a
contract whose bodies are put in place in it.

usage: mkshapes.py META.json...   (the extractor's output for every unit, on the unchanged tree)
"""
import json, os, sys
out = {}
for f in sys.argv[1:]:
    for k, v in json.load(open(f))["functions"].items():
        if v["role"] == "proved" and v["shapes"]:
            assert out.get(k, v["shapes"]) == v["shapes"], k
            out[k] = v["shapes"]
        inl = sorted(x for x in v.get("rewrites", {}) if x.startswith("callee inlined: "))
        if v["role"] == "proved" and inl:
            out[k + "#inlined"] = sorted(set(inl) | set(out.get(k + "#inlined", [])))
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "units", "shapes.json")
json.dump(dict(sorted(out.items())), open(p, "w"), indent=1)
