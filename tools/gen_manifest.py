#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
"C01": "file/table reference monitor on generated files, ASan+UBSan builds in both precisions",
"C02": "defective-file workload, full-session snapshots before/after as oracle, ASan+UBSan",
"C03": "save/reload bit comparison after generated histories, ASan+UBSan, both precisions",
"C04": "injected write failures after every byte (file-size limit) and unopenable paths, on-disk size as oracle",
"C05": "min-max reference monitor over generated datasets and histories, ASan+UBSan",
"C06": "block-mean reference monitor over generated datasets and block sizes, ASan+UBSan",
"C07": "view/bounds reference monitor, valid and invalid requests, ASan+UBSan",
"C08": "extended-precision reference monitor for the pairwise distance, ASan+UBSan",
"C09": "extended-precision banded-alignment reference monitor, ASan+UBSan",
"C10": "cut-off and lower-bound soundness monitor against the reference distance, ASan+UBSan",
"C11": "naive sliding-extreme monitor over request/addition/assignment histories, ASan+UBSan",
"C12": "value-semantics model next to a pool of live objects, ASan and heap accounting",
"C13": "partition monitor over the live groups and group files, hostile clock readings, ASan+UBSan",
"C14": "replay of the grouping rule from the observed groups on exactly representable data, ASan+UBSan",
"C15": "independent group-file parser and round-trip comparison, ASan+UBSan",
"C16": "every truncation and generated corruptions of group files, index snapshots as oracle, ASan+UBSan",
"C17": "reference-distance monitor on every match over computed, loaded and hand-written indexes",
"C18": "exhaustive reference search over the observed index next to every match",
"C19": "differential histories: long-lived session against fresh sessions, full-state snapshots",
"C20": "invalid-argument workload in generated session states, full-session snapshots as oracle",
"C21": "staleness monitor over generated operation histories against freshly loaded twins",
"C22": "registry model next to generated multi-session histories",
"C23": "ASan+UBSan+library assertions with gcc and clang, heap accounting per session, libFuzzer, ThreadSanitizer if the library starts threads",
"C24": "generated and hostile scripts for the instrumented program, transcript and file monitors",
"C25": "transcript monitor: the instrumented program against the library and the reference definitions",
"C26": "digests of the same session in fresh processes under different heaps, clocks and prior work; valgrind memcheck",
"C27": "exhaustive reference search next to the bundled search, ASan+UBSan",
"C28": "order-axiom monitor over generated candidate collections, ASan+UBSan",
}
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line); i = p["id"]
    fe = i in ("C04", "C16")
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
        evidence_file="evidence/%s.json" % i, technique="runtime monitoring: " + T[i],
        level="fault_enumeration" if fe else "exploration",
        level_note="Held on the executions counted in the evidence file, no more: seeded generated workloads on the real code, judged by an oracle independent of it. "
                   + ("Fault points are enumerated exhaustively per generated file within the stated size. " if fe else "")
                   + "Trusts the sanitizer runtimes, libstdc++ and the reference model in harness/."))
m = dict(version=1, setup_cmd="python3 check.py --prebuild", checks=checks, not_applicable=[],
         notes="No hooks in /repo: every monitor observes public interfaces, files and the process boundary. Defects found and repaired are listed in known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
