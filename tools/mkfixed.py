#!/usr/bin/env python3
"""Writes the 'fixed' list of known_findings.json: one entry per fix commit of /repo (property, commit, what failed)."""
import json, os, subprocess
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
W = {
"report one consumed byte when side-information or binaural set-up fails": ("C04", "a failed side-information or binaural set-up reported stale/zero consumption for ever: the caller never progressed"),
"never report more consumed bytes than were presented": ("C04", "skipping past the end of a truncated packet reported more consumed bytes than presented"),
"keep the resampler's delay-line index inside the delay line": ("C01", "resampling read and wrote before the start of the delay line"),
"bound the loudspeaker count of the local set-up information": ("C03", "local set-up with more loudspeakers than the tables hold overflowed them"),
"look for the requested preset among the scene's presets": ("C03", "preset search ran over the number of groups, past the preset table"),
"check every group of an element interaction request": ("C22", "only the last group of an element interaction request was checked against the scene"),
"do not keep a rejected element count": ("C01", "a refused element count stayed in the configuration and was used to index element arrays later"),
"stop at the declared number of flexible loudspeakers": ("C01", "symmetric pairs in a flexible layout wrote one loudspeaker past the array"),
"refuse too many signals before parsing the decoder configuration": ("C01", "more signals than channels reached the per-channel arrays while parsing the element configuration"),
"refuse configuration packets longer than the stored copy": ("C01", "a configuration packet above 768 bytes overflowed the stored configuration"),
"pass the whole input length to the header bit buffer": ("C01", "header bit buffer was given a 16-bit truncated length"),
"ignore a TCX noise-shaping filter whose start band was rejected": ("C01", "TCX noise shaping with a start band above the stop band indexed before its array"),
"bound the binaural filter length and diffuse block count": ("C03", "binaural filter blocks longer than the decoder's arrays overflowed them"),
"make room for the current block in the binaural history": ("C03", "binaural diffuse convolution wrote past its history"),
"look single loudspeakers up in the loudspeaker table": ("C03", "binaural loudspeaker lookup indexed the layout table by a loudspeaker number"),
"refuse binaural filters that lack a filter for a rendered channel": ("C03", "binaural rendering of a channel without filter used an undefined index"),
"report a refused local set-up layout": ("C03", "a refused local set-up layout was silently used"),
"read common TNS data with the element's own window layout": ("C12", "TNS data common to a pair was read with the previous frame's window layout"),
"check the gap-filling noise flag of the element being decoded": ("C12", "the noise filling/gap filling switch of another element was used"),
"use the even left symmetry of kernel type 2 in stop windows too": ("C12", "stop windows of transform kernel 2 used the wrong symmetry: aliasing was not cancelled"),
"convert formats at every rate that has equaliser tables": ("C15", "format conversion was bypassed or read past its tables at rates other than 48 kHz"),
"make the scale-factor code book constant": ("C07", "the scale-factor code book was rewritten by every instance: a data race between instances"),
"saturate 32-bit output to a value that fits 32 bits": ("C11", "32-bit overload wrapped to the opposite sign"),
"normalise the loudness of resampled output": ("C18", "loudness normalisation was skipped, and out of bounds samples scaled, when resampling"),
"forget the output rate of a refused resampling request": ("C20", "after a refused resampling request the wrong rate was reported"),
"use the resampler's filter phases in time order": ("C20", "interpolation phases were used in the wrong order: images above -50 dB"),
"decide whether the output is resampled before setting up the limiter": ("C20", "the first frames of a stream were limited and trimmed as if not resampled"),
"refuse flexible loudspeakers whose angle index is out of range": ("C23", "flexible loudspeakers with angle indices beyond the tables were accepted"),
"search presets, not groups, for the selected preset while decoding": ("C22", "preset search during decoding ran past the preset table and used another group's membership"),
"bound the earcon and PCM packet contents": ("C01", "earcon count, PCM signal count and PCM frame size indexed fixed tables without limit"),
}
exec(open(os.path.join(R, "tools", "fixed_more.py")).read()) if os.path.exists(os.path.join(R, "tools", "fixed_more.py")) else None
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], text=True).splitlines()
p = os.path.join(R, "known_findings.json")
k = json.load(open(p)) if os.path.exists(p) else {"findings": []}
k["fixed"] = []
for l in log:
    h, s = l.split("\t", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    if s not in W:
        print("NO ENTRY", s); continue
    k["fixed"].append("fixed: property=%s %s %s" % (W[s][0], h, W[s][1]))
json.dump(k, open(p, "w"), indent=1)
print(len(k["fixed"]), "fixed")
