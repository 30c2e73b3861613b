#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claims below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "fs": "TLA+ specification CbmFs (abstract file system) and CbmImpl (block-level implementation with crash points), model-checked by TLC; "
       "recorded histories of the real library validated event by event against CbmFs at real geometry (CbmFsTrace)",
 "alloc": "TLA+ specification CbmAlloc of the block search, checked by TLC; answers of the real library for generated free-block maps validated "
          "against it at real geometry (CbmAllocTrace, CbmFsTrace)",
 "image": "TLA+ specification CbmImage of what the bytes of a disk image mean; what the real library reports about and does to "
          "generated and damaged images is validated against it by TLC (CbmImageTrace)",
 "text": "TLA+ specification CbmText of the PETSCII table, the sprite glyphs and the hex dump lines; what the real library "
         "returns for all codes, all characters and generated strings, sprites, files and disks is validated against it by TLC "
         "(CbmTextTrace, CbmImageTrace)",
 "cli": "TLA+ specifications CbmImage and CbmShow of what an image means and how it is printed, and CbmCliTrace of what each command "
        "does; sessions with the real tool (exit status, output, host files, image bytes) validated against it by TLC",
 "addr": "TLA+ specification CbmGeometry of image sizes, tracks and sector offsets, checked by TLC; the real library's answers for all "
         "track/sector pairs of all geometries, file and memory backed, validated against it (CbmAddrTrace)",
}
CLAIMS = {}
def claim(p, tech, note, level="model_checking"):
    CLAIMS[p] = (tech, level, note)
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, l, n = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i,
                       "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                       "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": "its specification and driver are not finished yet"})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "cfg(cbm_verif)", "enable": "RUSTFLAGS=--cfg cbm_verif (set by bin/check.py)",
               "source_commits": ["793d9dca451dd3f21c974f7f080241f0a3d5f996"]},
     "notes": "TLA+ checked with TLC; see DESIGN.md"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
