#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
CODEC = "Every execution of the real decoder/encoder in the bounded space is compared with an independent reference codec; trusts that codec, parity-scale-codec for leaf integers and scale-info for the registry."
TEXT = "Every execution of the real printer/parser in the bounded space is compared with an independent printer or parser of the documented syntax; trusts those."
ENC = "Every execution of the real encoder in the bounded space is compared with the reference relation between values, types and bytes; trusts that relation."
SERDE = "Every datum in the bounded space goes through the real conversions and is compared with the expected structure; trusts the interpreter of derived code (itself compared with really derived types)."
ACC = "Every value in the bounded space is put through the real functions and compared with definitions written out over the value tree."
CONF = "The real code is built and executed in every configuration, and outcomes are compared between configurations; that the common outcome is right is what the other properties decide."
ALL = "Every message in the bounded space is taken through the real decoder, printer, parser, serde conversions and encoder; the end is compared with the reference codec's canonical bytes."
note = {"D": CODEC, "T": CODEC, "S": TEXT, "E": ENC, "J": SERDE, "A": ACC, "F": CONF, "X": ALL}
extra = {
 "D02": " Memory is measured by a counting allocator; a panic, abort or hang is attributed to the input that was in flight.",
 "E05": " The states are histories: all sequences of encodings, refused ones included, into one buffer.",
 "E06": " Work is counted as type lookups by an instrumented resolver, not by time.",
 "A04": " The invocations are compiled and run as one generated program; one that does not compile is a violation.",
}
tech = {
 "D": "exhaustive bounded enumeration of (type, input) executions of the real decoder against a reference codec model",
 "T": "exhaustive bounded enumeration of (type, input) executions of both real decoders against a reference model",
 "S": "exhaustive bounded enumeration of texts/values executed on the real parser/printer against a reference model",
 "E": "exhaustive bounded enumeration of (value, type) executions of the real encoder against a reference relation",
 "J": "exhaustive bounded enumeration of Rust data shapes through the real conversions against a reference model",
 "X": "exhaustive bounded enumeration of (type, message) executions of the real parts in sequence against a reference codec model",
 "F": "exhaustive enumeration of build configurations, each executed on a bounded space of inputs and compared with the others",
 "A": "exhaustive bounded enumeration of executions of the real code against a reference model",
}
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": [{
   "property": i,
   "quick_cmd": f"./check.sh {i} quick",
   "thorough_cmd": f"./check.sh {i} thorough",
   "technique": "model checking: " + tech[i[0]],
   "level": "model_checking",
   "level_note": "Holds on every behaviour within the bounds stated in the evidence file and DESIGN.md. " + note[i[0]] + extra.get(i, ""),
 } for i in ids],
 "not_applicable": [],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
