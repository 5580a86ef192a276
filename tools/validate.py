#!/usr/bin/env python3-vt
"""Validates the committed files and the evidence against the schemas."""
import json, glob, jsonschema
S = "/root/.vp/"
load = lambda f: json.load(open(f))
jsonschema.validate(load("MANIFEST.json"), load(S + "MANIFEST.schema.json"))
ps = load(S + "PROPERTIES.schema.json")
for l in open("properties.jsonl"): jsonschema.validate(json.loads(l), ps)
for f in sorted(glob.glob("evidence/*.json")):
    jsonschema.validate(load(f), load(S + "EVIDENCE.schema.json")); print("ok", f)
