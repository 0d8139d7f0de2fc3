#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = {
    "C01": "generated calls (enumerated short inputs, structured and unstructured random inputs, every small buffer length) against an invariant on every result",
    "C02": "model-based: enumerated scalar values and code unit pairs, random strings with invalid parts, against a model of UTF-16",
    "C03": "model-based: enumerated scalar values and 32-bit values, random strings with invalid parts, against a model of UTF-32",
    "C04": "model-based: enumerated byte strings up to length 3 and boundary classes of length 4-5, random strings, against Unicode table 3-7",
    "C05": "model-based: enumerated byte pairs and positions, random strings, against frozen published mappings",
    "C06": "model-based: every scalar value, positions, random texts, against frozen published mappings",
    "C07": "model-based: enumerated byte pairs in context, random strings, against the WHATWG Big5 decoder over a frozen index",
    "C08": "model-based: every scalar value, enumerated combining sequences, random texts, against the frozen index",
    "C09": "model-based: enumerated byte pairs in context, random strings, against the WHATWG Shift_JIS decoder over a frozen index",
    "C10": "model-based: every scalar value in context, random texts, against the frozen index",
    "C11": "stateful: random histories of chunks, buffers and error handling against the one-shot call and the model",
    "C12": "stateful: random histories of chunks, buffers and error handling against the one-shot call and the model",
    "C13": "metamorphic over buffer lengths: every length for short inputs, unit boundaries for long ones, against the model's prefixes",
    "C14": "generated texts with unrepresentable characters, resumed after every error, against the model",
    "C15": "generated byte strings with invalid parts, resumed after every error, against the model",
    "C16": "round trip: every scalar value, random texts and character pairs",
    "C17": "round trip: enumerated byte pairs and encoded scalar values, random byte strings",
    "C18": "metamorphic over the end flag: enumerated prefixes of characters, random truncated inputs",
    "C19": "metamorphic: the same call under perturbed memory, history and concurrent calls",
    "C20": "differential between the encodings of the crate: enumerated pairs and scalar values, random inputs",
    "C21": "generated mapping files through the generator script and a rebuilt crate, compared exhaustively with the mapping",
    "C22": "generated index files through the generator scripts and a rebuilt crate, compared exhaustively with the index",
    "C23": "differential: crate rebuilt from regenerated tables against committed tables and frozen mappings, exhaustive over short inputs",
    "C24": "generated calls under a counting allocator, and generated calls of up to megabytes on a small stack",
    "C25": "metamorphic over sizes: CPU time of generated calls as the input, the surplus input or the surplus buffer grows",
    "C26": "stateful: generated transcoding pipelines with random chunks, buffers and error policies against the composed one-shot models",
    "C27": "generated mapping files through the generator scripts under varied environments, earlier contents, concurrent runs and injected write faults; outputs compared with each other",
    "C28": "generated valid mapping files with one injected defect through the generator scripts; exit status and files",
    "C29": "differential: the same generated calls in builds of several profiles and processor features, and under an interpreter for a big-endian and for a 32-bit target, compared with each other",
    "C30": "generated calls with the input and the buffer next to inaccessible pages and at every alignment, coverage-guided search, and generated calls under Miri",
}
GUIDED = ["C%02d" % i for i in range(1, 21)] + ["C26", "C30"]
NOTE = ("Holds on every generated case; single characters and short byte strings are enumerated completely, longer inputs "
        "are sampled from a seeded generator. Trusts the reference model and the frozen mapping data in /verif/ref.")
NOTES = {
    "C19": "Holds on every generated pair of calls. Concurrency is sampled by running threads, not by enumerating schedules; the code has no shared state.",
    "C21": "Holds for every generated mapping file; each mapping is checked exhaustively over byte pairs and scalar values. Trusts python3, rustc and the reading of the file format in /verif/harness/src/tables.rs.",
    "C22": "Holds for every generated index; each index is checked exhaustively over byte pairs and scalar values. Trusts python3, rustc and the model of the WHATWG algorithms.",
    "C23": "Complete over byte strings of length 1-2 and scalar values for the one configuration there is. Trusts python3, rustc and the frozen mapping data in /verif/ref.",
    "C24": "Holds on every generated call. The stack bound is tested at 128 KiB with inputs up to 4 MiB, so a growth per input byte below about 1/32 byte would not show.",
    "C25": "Holds on every generated case. Judged by ratios of thread CPU time with wide margins, repeated before a violation is reported: detects a wrong order of growth, not a constant factor.",
    "C28": "Holds on every generated malformed mapping file. Trusts python3.",
    "C29": "Holds on every generated call on x86_64 in four builds and, as long as Miri works, on s390x and i686. Trusts Miri.",
    "C30": "Holds on every generated call. Protected pages show an access that leaves the page the input or buffer ends on; Miri shows the rest, on short inputs.",
    "C27": "Holds on every generated mapping file and environment. Trusts python3 and the file system of the scratch directory.",
}
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "bash run.sh %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough bash run.sh %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "property-based testing%s: %s" % (
                " and coverage-guided fuzzing" if p["id"] in GUIDED else "", TECH[p["id"]]),
            "level": "exploration",
            "level_note": NOTES.get(p["id"], NOTE),
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "No hooks: every property is observable through the public API. Replay: bash run.sh --replay FILE. Defects found and repaired: known_findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
