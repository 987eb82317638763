#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and the fixed list of known_findings.json from the tables below."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
"C01": ("AddressSanitizer + UndefinedBehaviorSanitizer over replayed coverage-guided inputs, seeded mutations and damaged generated streams (libFuzzer campaign in the thorough tier)", "sanitizer-monitored hostile workloads",
        "every intra-array bound is seen through UBSan only where the array type is known; overflow between members of one structure through pointers is invisible"),
"C02": ("AddressSanitizer + UndefinedBehaviorSanitizer on the real command-line player over generated and damaged MP4 files", "sanitizer-monitored hostile workloads", "sampled inputs"),
"C03": ("AddressSanitizer + UndefinedBehaviorSanitizer over generated and mutated side-information buffers", "sanitizer-monitored hostile workloads", "sampled inputs"),
"C04": ("online progress/status monitor over valid, damaged and random inputs in many slicings", "runtime monitoring", "sampled inputs and slicings"),
"C05": ("guarded output buffer and exact byte accounting against the generated frame count", "runtime monitoring", "sampled streams"),
"C06": ("MemorySanitizer plus differential runs under different initial heap and stack contents", "sanitizer + differential monitoring", "sampled streams"),
"C07": ("interleaved and threaded instances compared with solo runs; ThreadSanitizer race detection", "schedule stress with race detection", "sampled schedules; races need only both accesses to run, not the bad timing"),
"C08": ("trace comparison between slicings of the same stream", "metamorphic monitoring", "sampled streams and slicings"),
"C09": ("trace comparison with and without inserted packets", "metamorphic monitoring", "sampled streams and insertions"),
"C10": ("file player's WAV output compared with the library's output on the same frames", "differential monitoring", "sampled table layouts"),
"C11": ("differential runs in three word lengths and against the float model with overload", "differential monitoring", "sampled signals"),
"C12": ("sample-exact comparison with an independent model of the frequency-domain decoder", "model-based monitoring", "model covers what DESIGN.md lists"),
"C13": ("block fingerprints compared with recorded references of the tree", "reference-trace monitoring", "fixed corpus"),
"C14": ("monitor of per-loudspeaker energy and reported geometry against the layout standard", "runtime monitoring", "all layouts, sampled element splits"),
"C15": ("monitor of measured conversion matrices", "metamorphic monitoring", "sampled layout pairs"),
"C16": ("monitor of measured loudspeaker gains", "metamorphic monitoring", "sampled positions"),
"C26": ("every output sample of binaurally rendered scenes compared with an independent convolution model fed with the loudspeaker signals", "model-based monitoring", "sampled scenes and response sets in the time-domain format; frequency-domain (FIR) sets only as far as C01/C13 go"),
"C27": ("every output sample of streams with the multichannel coding tool compared with an independent float64 model", "model-based monitoring", "sampled streams; one signal group; stereo filling of rotated short-window pairs and the tool together with gap filling are not modelled"),
"C17": ("every output sample of generated HOA scenes compared with an independent spatial decoder; rendering matrices identified from the output and judged by geometry and recorded reference", "model-based monitoring", "sampled scenes over all orders and layouts; sub-band and screen-related options not modelled"),
"C18": ("measured gain against the transmitted metadata", "model-based monitoring", "sampled metadata"),
"C19": ("output compared with an independent model of the limiter", "model-based monitoring", "sampled signals"),
"C20": ("sample counts, tone level, frequency and image level measured", "runtime monitoring", "sampled tones on all rate pairs"),
"C21": ("allocator monitor with fault injection at every position; AddressSanitizer and LeakSanitizer-style accounting", "exhaustive over allocation positions, sampled over streams", "six allocations per instance"),
"C22": ("every channel of scenes with descriptions, presets and requests compared with the same stream without a description, scaled as the description and request say", "differential monitoring", "sampled channel scenes; switch groups, preset extensions, loudness compensation and object positions are only exercised (C03), not judged"),
"C23": ("enumeration of configuration fields against an acceptance table", "enumerated configurations, monitored", "single fields and sampled pairs"),
"C24": ("trace comparison of the audio after a change with a fresh decoder", "metamorphic monitoring", "sampled pairs"),
"C25": ("trace comparison after injected losses with undisturbed decoding", "fault injection", "sampled losses"),
}
BUILT = [x for x in sorted(T) if os.path.exists(os.path.join(R, "checks", x.lower() + ".py"))]
NA = {
"C02": "the MP4 reader and player live in /repo/test, where files may be neither repaired nor broken here; not built",
"C10": "depends on the player in /repo/test (see C02); not built",
}
m = {"version": 1, "setup_cmd": "python3 /verif/setup.py", "checks": [], "not_applicable": []}
for k in sorted(T):
    t, l, n = T[k]
    if k in BUILT:
        m["checks"].append({"property": k, "quick_cmd": "python3 /verif/run.py %s quick" % k, "thorough_cmd": "python3 /verif/run.py %s thorough" % k,
                            "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": k, "reason": NA.get(k, "no check yet")})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
