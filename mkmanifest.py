#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
REF = "against an independent reference parser"
CLAIMED = {
    "P01": "bounded exhaustive enumeration of value trees and encoder settings, each encoded and decoded by the real code and compared",
    "P02": "bounded exhaustive enumeration of static types composed by reflection and of their values, each encoded and decoded by the real code and compared",
    "P03": "bounded exhaustive enumeration of values and encoder settings, each document of the real encoder parsed by an independent reference parser and compared as a graph",
    "P04": "bounded exhaustive enumeration of documents, run through the real decoder, " + REF,
    "P05": "bounded exhaustive enumeration of byte strings, damaged documents and extreme lengths, run through every entry point under watch of panics, time and allocation",
    "P06": "bounded exhaustive enumeration of byte strings and damaged documents, run through the real decoder, rejections compared with an independent reference parser",
    "P07": "bounded exhaustive enumeration of pairs of header data and body, of documents with both and of damage to either, run through the real code and compared with an independent reference parser",
    "P08": "bounded exhaustive enumeration of bodies, compressors, levels, thresholds, buffers and compressed streams, run through the real code and compared with the uncompressed documents",
    "P09": "bounded exhaustive enumeration of pointer graphs and map iteration orders, each encoded and decoded by the real code and compared as graphs",
    "P10": "bounded exhaustive enumeration of sequences of documents and merger settings, each merged by the real code, the result parsed by an independent reference parser and compared as a graph",
    "P11": "bounded exhaustive enumeration of histories of good and bad documents and Finish, each run on a real merger and compared with a fresh merger that is given only the documents taken",
    "P12": "bounded exhaustive enumeration of sequences of calls that succeed, fail or panic on one instance, each call compared with the same on a new instance",
    "P13": "bounded exhaustive enumeration of documents, destinations, values, settings and pairs of calls, each run on the real code with every byte of inputs and results overwritten afterwards, and memory compared by address",
    "P14": "stateless model checking of the implementation under a controlled scheduler: exhaustive enumeration of the interleavings of pairs and triples of calls, at statement granularity, with bounded preemptions, each compared with the calls alone, and again under the race detector",
    "P15": "bounded exhaustive enumeration of values and of limits around their depth, each encoded by the real code and judged by a count of the nesting",
    "P16": "bounded exhaustive enumeration of hooked types, positions, payloads, registrations, documents and failures, run through the real code and compared with an independent reference parser and with what the hooks were given",
    "P17": "bounded exhaustive enumeration of documents, Go values, encoders and map iteration orders, each decoded and encoded twice by the real code and compared as graphs by an independent reference parser",
    "P18": "bounded exhaustive enumeration of types, of values and of the documents that say the same, each decoded by the real code and compared with a reference model of assignment",
    "P19": "bounded exhaustive enumeration of magics, versions, types, header lengths and truncations, each offered to every entry point and judged by an independent reference parser",
    "P20": "bounded exhaustive enumeration of values of all kinds of Go types in all nestings of up to two (thorough: three) of 20 wrappers, encoded by the real code in every place and judged by the harness's own walk over the value and an independent reference parser",
    "P21": "bounded exhaustive enumeration of values and all orders of map keys, and of sequences of documents and failures merged, with an independent parser reporting every string that the real code's output spells out",
}
TRUST = "Exhaustive within the bounds that check.sh list prints; every execution runs the real code. Trusts the harness's own reference model, the Go toolchain and the bounds."
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "model checking: " + CLAIMED[p["id"]],
        "level": "model_checking",
        "level_note": TRUST,
    } for p in props if p["id"] in CLAIMED],
    "not_applicable": [{"property": p["id"], "reason": "the check is not built yet"} for p in props if p["id"] not in CLAIMED],
    "notes": "Checks build a harness against /repo/Go/sereal in a scratch directory; no hooks are committed to /repo.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
