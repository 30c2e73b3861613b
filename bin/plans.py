"""What each property's check consists of."""
import json
import os
import random
import re

FS_ASSUME = [
    "block contents are compared by length and two 16-bit polynomial hashes",
    "at most one writer per file, and no writing through a handle older than the file's last deletion "
    "(stale handles are outside the library's contract); handles kept over renaming and appending are used",
]

#            profile   histories, events each (quick) / (thorough)
FS = {
    "C01": [("content", 18, 1300), ("mixed", 5, 1000)],
    "C02": [("content", 9, 1200), ("dir", 5, 1000), ("mixed", 11, 1200)],
    "C03": [("mixed", 11, 1200), ("geo", 9, 1200), ("error", 5, 1000)],
    "C04": [("persist", 18, 1200), ("mixed", 5, 1000)],
    "C05": [("dir", 20, 1300), ("mixed", 4, 1000)],
    "C06": [("error", 20, 1300), ("mixed", 4, 1000)],
    "C07": [("mixed", 7, 1000), ("geo", 7, 1000)],
    "C08": [("crash", 22, 1000), ("mixed", 4, 1000)],
    "C09": [("mixed", 5, 1000), ("geo", 5, 1000)],
    "C11": [("format", 18, 1100), ("geo", 4, 800)],
    "C12": [("mixed", 7, 1000)],
    "C17": [("readonly", 23, 1200)],
}


def trace_cfg(mod, prop):
    return ("SPECIFICATION Spec\nINVARIANT NoBad\nVIEW View\nALIAS Short\nCHECK_DEADLOCK FALSE\n"
            "CONSTANT Prop = \"%s\"\n" % prop)


def fs_jobs(prop, tier, seed):
    jobs = []
    for prof, n, ev in FS.get(prop, []):
        if tier == "thorough":
            n, ev = n * 4, ev * 3
        for i in range(n):
            jobs.append({"kind": "trace", "name": "fs-%s-%d" % (prof, i), "mod": "CbmFsTrace",
                         "drv": ["fs", prof, str(seed * 1000 + i), str(ev)]})
    return jobs


#  per property: (module, mode, extra args, runs, events) of single-aspect drivers
UNIT = {
    "C01": [("CbmImageTrace", ["img", "all"], 6, 400)],
    "C05": [("CbmImageTrace", ["img", "all"], 8, 400)],
    "C07": [("CbmAllocTrace", ["alloc"], 29, 4000)],
    "C02": [("CbmImageTrace", ["img", "all"], 7, 400)],
    "C03": [("CbmAllocTrace", ["alloc"], 4, 2000), ("CbmImageTrace", ["img", "all"], 11, 400)],
    "C04": [("CbmAllocTrace", ["alloc"], 8, 1500)],
    "C06": [("CbmAllocTrace", ["alloc"], 4, 1500), ("CbmImageTrace", ["img", "damage"], 11, 400)],
    "C09": [("CbmImageTrace", ["img", "validate"], 26, 500), ("CbmImageTrace", ["img", "all"], 8, 400),
            ("CbmImageTrace", ["img", "rel"], 8, 400), ("CbmImageTrace", ["img", "geos"], 5, 400)],
    "C10": [("CbmImageTrace", ["img", "damage"], 36, 500), ("CbmImageTrace", ["img", "all"], 11, 400)],
    "C12": [("CbmImageTrace", ["img", "codec"], 36, 700), ("CbmImageTrace", ["img", "all"], 11, 400)],
    "C13": [("CbmImageTrace", ["img", "rel"], 43, 500)],
    "C14": [("CbmImageTrace", ["img", "geos"], 43, 500)],
    "C15": [("CbmImageTrace", ["img", "geos"], 43, 500)],
    "C16": [("CbmAddrTrace", ["addr"], 14, 12000)],
    "C18": [("CbmTextTrace", ["text", "petscii"], 14, 3000)],
    "C19": [("CbmTextTrace", ["text", "sprite"], 14, 1500), ("CbmImageTrace", ["img", "dump"], 29, 100)],
    "C20": [("CbmCliTrace", ["cli"], 43, 350)],
}


def unit_jobs(prop, tier, seed):
    jobs = []
    for mod, args, n, ev in UNIT.get(prop, []):
        if tier == "thorough":
            n, ev = n * 4, ev * 3
        for i in range(n):
            jobs.append({"kind": "trace", "name": "%s-%d" % ("-".join(args), i), "mod": mod,
                         "drv": args + [str(seed * 1000 + i), str(ev)]})
    return jobs



# ---------------------------------------------------------------- models
def fsmc_cfg(big):
    c = dict(NData=4 if big else 3, NDir=2, Epb=1, CapC=2, Names='{"a", "b", "ccc"}', Writers="{1, 2}", Lens="{1, 3}",
             Bytes="{7, 8}" if big else "{7}", MaxLen=4, AnyBlock="TRUE")
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + "".join(" %s = %s\n" % x for x in c.items())
            + "INVARIANTS InvExcl InvAcct InvNames InvShape InvWriters InvOrder\nPROPERTY Steps\n")


def impl_cfg(variant, big):
    c = dict(NData=4 if big else 3, NDir=2, Epb=1, CapC=1, Names='{"a", "b", "ccc"}', Writers="{1, 2}", Lens="{1, 2}",
             Bytes="{7}", MaxLen=3 if big else 2, AnyBlock="FALSE" if big == 2 else "TRUE", Variant='"%s"' % variant)
    return ("SPECIFICATION ISpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + "".join(" %s = %s\n" % x for x in c.items())
            + "INVARIANTS InvExcl InvAcct InvNames InvShape CrashSafe RenameSafe Refines\n")


WRONG = ["createnoflush", "linkfirst", "skipsection", "flushnomap", "delnomap"]


def gen_cfg(depth):
    c = dict(NData=3, NDir=2, Epb=1, CapC=254, Names='{"a", "b", "ccc"}', Writers="{1, 2}", Lens="{1, 254, 300}",
             Bytes="{7}", MaxLen=1000, AnyBlock="FALSE", Depth=depth)
    return ("SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + "".join(" %s = %s\n" % x for x in c.items())
            + "VIEW LView\nACTION_CONSTRAINT Emit\nINVARIANTS InvExcl InvAcct InvNames InvShape InvWriters InvOrder\n")


def alloc_cfg(big):
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n RunKinds = %s\n OneKinds = %s\n Step1 = %d\n"
            "INVARIANT Single\nPROPERTY Choice\nVIEW View\n"
            % (('{"d64", "d71", "d81"}', '{"d64", "d71"}', 1) if big else ('{"d64", "d71"}', '{"d64"}', 29)))


MODELS = {
    "C07": ["alloc"],
    "C01": ["fs", "impl"], "C02": ["fs", "impl"], "C03": ["fs", "impl"], "C04": ["impl"], "C05": ["fs"], "C06": ["fs"],
    "C08": ["impl", "wrong"],
}
#       behaviours replayed in the quick check
GEN = {"C01": 500, "C02": 500, "C03": 500, "C04": 400, "C05": 500, "C06": 600, "C08": 600}


def model_jobs(prop, tier):
    big = tier == "thorough"
    jobs = []
    for m in MODELS.get(prop, []):
        if m == "fs":
            jobs.append({"kind": "mc", "name": "CbmFsMC", "mod": "CbmFsMC", "cfg": fsmc_cfg(big), "workers": 4 if big else 2,
                         "heap": "6g", "time": 850})
        elif m == "impl":
            jobs.append({"kind": "mc", "name": "CbmImpl", "mod": "CbmImpl", "cfg": impl_cfg("code", big), "workers": 4 if big else 2,
                         "heap": "6g", "time": 850})
        elif m == "alloc":
            jobs.append({"kind": "mc", "name": "CbmAllocMC", "mod": "CbmAllocMC", "cfg": alloc_cfg(big), "workers": 4 if big else 2,
                         "heap": "4g", "time": 3000 if big else 600})
        elif m == "wrong":
            for v in WRONG:
                jobs.append({"kind": "mc", "name": "CbmImpl-" + v, "mod": "CbmImpl", "cfg": impl_cfg(v, False), "expect": "violated"})
    return jobs


# ------------------------------------------- small-scope images
def chain_cfg(big):
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n N = 3\n Starts = {1}\n Emitting = TRUE\n"
            "INVARIANTS Walked Reported CanStep\nPROPERTY Ending\nACTION_CONSTRAINT Emit\n")


def cvt_cfg(big):
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n B = 2\n Lens = {0, 1, 2, 3, 4}\n MaxRecs = %d\n"
            " Sizes = {0, 1, 2, 3, 7}\n Emitting = TRUE\nINVARIANTS Prefix Counted AtEnd\nPROPERTY Goes\n"
            "ACTION_CONSTRAINT Emit\n" % (4 if big else 3))


def rel_cfg(big):
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n RecLens <- AllLens\n Emitting = TRUE\n"
            "INVARIANTS Covers Enough\nACTION_CONSTRAINT Emit\n")


#       which images, how many in the quick check
IMG = {
    "C03": [("chain", 250)], "C06": [("chain", 300)], "C09": [("chain", 900)], "C10": [("chain", 700), ("rel", 200)],
    "C13": [("rel", 800)], "C14": [("cvt", 264)], "C15": [("cvt", 264)],
}
IMGMOD = {"chain": ("CbmChainMC", chain_cfg), "cvt": ("CbmCvtMC", cvt_cfg), "rel": ("CbmRelMC", rel_cfg)}
CVTLEN = {-1: -1, 0: 0, 1: 1, 2: 254, 3: 255, 4: 508}
KINDS = ["d64", "d64", "d71", "d81"]


def img_lines(what, shapes, rng):
    def ints(v):
        return ",".join(str(x) for x in v)
    lines = []
    if what == "chain":
        for b in shapes:
            lines.append("chain %s %s %s %s %s" % (rng.choice(KINDS), rng.choice("LLLSV"), ints(b["l"]), ints(b["f"]), ints(b["u"])))
    else:
        for i in range(0, len(shapes), 4):
            ds = []
            for b in shapes[i:i + 4]:
                if what == "cvt":
                    ds.append("%d:%s" % (b["v"], ints(CVTLEN[x] for x in b["r"])))
                else:
                    ds.append("%d:%d:%d" % (b["rl"], b["n"], 0 if rng.random() < 0.5 else rng.randrange(1, 20)))
            lines.append("%s %s %s" % ("geos" if what == "cvt" else "rel", rng.choice(KINDS), " ".join(ds)))
    return lines


def gen_jobs(prop, tier, seed):
    jobs = []
    if prop in GEN:
        jobs.append({"kind": "gen", "name": "gen", "gen": "CbmFsGen", "gencfg": gen_cfg(7), "mod": "CbmFsTrace", "prop": prop,
                     "want": GEN[prop] * (1 if tier == "quick" else 40), "seed": seed, "tier": tier, "mode": "script"})
    for what, want in IMG.get(prop, []):
        mod, cfg = IMGMOD[what]
        jobs.append({"kind": "gen", "name": "img" + what, "gen": mod, "gencfg": cfg(tier != "quick"), "mod": "CbmImageTrace",
                     "prop": prop, "want": want if tier == "quick" else 1 << 30, "seed": seed, "tier": tier, "images": what,
                     "mode": "imgscript"})
    return jobs


def plan(prop, tier, seed):
    jobs = gen_jobs(prop, tier, seed) + model_jobs(prop, tier) + unit_jobs(prop, tier, seed) + fs_jobs(prop, tier, seed)
    return {"jobs": jobs, "level": "model_checking", "assumptions": FS_ASSUME, "cdisk": prop == "C20"}


# ------------------------------------------- behaviours as driver scripts
NAME = {"a": "41", "b": b"EXACTLYSIXTEENCH".hex(), "ccc": b"SEVENTEENCHARSLNG".hex()}


def base(kind, trk, back, entries, border, left):
    """Commands leading to a disk with few free blocks and directory slots."""
    free = {"d64": 664, "d71": 1328, "d81": 3160}[kind]
    cmds = ["new %s %d 0 %s" % (kind, trk, back), "format 54455354 3031"]
    if border:
        cmds.append("geos %d 3" % (39 if kind == "d81" else 19))
        free -= 1
    for i in range(entries):
        cmds.append("create %s 1" % ("F%d" % i).encode().hex())
    n = free - entries - left
    cmds += ["createw 90 %s 2" % b"ZFILL".hex(), "write 90 %d 5" % (n * 254 - 3), "drop 90", "save 1"]
    return cmds


BASES = [("d64", 35, "m", 1, False, 3), ("d64", 35, "f", 6, False, 3), ("d71", 70, "m", 6, False, 3),
         ("d64", 40, "m", 6, True, 2), ("d64", 35, "m", 134, False, 3), ("d81", 80, "m", 6, False, 3),
         ("d71", 70, "f", 14, True, 3), ("d64", 35, "m", 142, False, 2), ("d81", 80, "m", 294, False, 2)]


def command(c, seed):
    op = c["op"]
    if op == "create":
        return "create %s 2" % NAME[c["n"]]
    if op == "writer":
        return "writer %d %s" % (c["w"], NAME[c["n"]])
    if op == "write":
        return "write %d %d %d" % (c["w"], c["len"], seed)
    if op in ("flush", "drop"):
        return "%s %d" % (op, c["w"])
    if op == "del":
        return "del %s %d" % (NAME[c["n"]], seed % 2)
    return "ren %s %s" % (NAME[c["n"]], NAME[c["m"]])


def scripts_from(j, out, rundir, name):
    behs = []
    for m in re.finditer(r'^"GEN (.*)"$', out, re.M):
        behs.append(json.loads(m.group(1).replace('\\"', '"')))
    rng = random.Random(j["seed"] * 7919 + len(behs))
    if "images" in j:
        behs.sort(key=lambda b: json.dumps(b, sort_keys=True))
        rng.shuffle(behs)
        n = len(behs)
        behs = behs[:j["want"]]
        lines = img_lines(j["images"], behs, rng)
        if j["images"] != "chain" and n <= j["want"]:
            # few enough: again, in other company
            for _ in range(1 if j["tier"] == "quick" else 8):
                rng.shuffle(behs)
                lines += img_lines(j["images"], behs, rng)
        chunks = max(1, min(8 if j["tier"] == "quick" else 64, len(lines) // 20))
        paths = []
        for k in range(chunks):
            p = os.path.join(rundir, "%s-%d.script" % (name, k))
            with open(p, "w") as f:
                f.write("\n".join(lines[k::chunks]) + "\n")
            paths.append(p)
        return paths, len(behs)
    if len(behs) > j["want"]:
        # longer ones first: they contain the shorter ones
        behs.sort(key=lambda b: (-len(b), json.dumps(b, sort_keys=True)))
        longest = [b for b in behs if len(b) >= 6]
        behs = rng.sample(longest, min(j["want"] * 3 // 4, len(longest)))+ rng.sample(behs, j["want"] // 4)
    chunks = 9 if j["tier"] == "quick" else 63
    paths = []
    for k in range(chunks):
        mine = behs[k::chunks]
        if not mine:
            continue
        lines = base(*BASES[k % len(BASES)])
        for b in mine:
            lines.append("restore 1")
            for i, c in enumerate(b):
                s = command(c, rng.randrange(1 << 30))
                if j["prop"] == "C08" and (i == len(b) - 1 or rng.random() < 0.3):
                    # a crash at some write of this command
                    s = "mid %d %d %s" % (rng.randrange(1, 9) if rng.random() < 0.7 else 0, rng.randrange(1 << 30), s)
                lines.append(s)
            lines.append("dropall")
            r = rng.random()
            if r < 0.25 or j["prop"] == "C04":
                lines.append("reopen 0 %d" % rng.randrange(3))
            elif r < 0.4:
                lines.append("validate")
        p = os.path.join(rundir, "%s-%d.script" % (name, k))
        with open(p, "w") as f:
            f.write("\n".join(lines) + "\n")
        paths.append(p)
    return paths, len(behs)
