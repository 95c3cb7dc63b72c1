"""Which analyses and which rules decide which property."""
import os, re, time
import frontend

MEM = {"oob", "uaf", "uninit", "null", "scope", "dangling", "div", "shift", "abort", "constwrite", "format", "seekneg", "vla",
       "doublefree", "badfree", "fftw", "kiss"}
OWN = {"leak", "doublefree", "badfree", "stdclose", "uaf"}
LIB = {"longjmp", "jpeg", "png", "dangling", "scope", "av"}

def tags(*ts):
    ts = set(ts)
    return lambda f: f.rule == "assert" and f.tag in ts or f.rule == "assert" and f.msg in ts

def rules(rs, also=None):
    return lambda f: f.rule in rs or also is not None and also(f)

class Job:
    """driver entries analysed in one configuration"""
    def __init__(self, config, drivers, entries, budget=60, tiers=("quick", "thorough"), **kw):
        self.config = config; self.drivers = drivers; self.entries = entries; self.budget = budget; self.tiers = tiers; self.kw = kw

class Prop:
    def __init__(self, jobs=(), pick=None, static=(), level="other", note=""):
        self.jobs = list(jobs); self.pick = pick; self.static = list(static); self.level = level; self.note = note

# formats with one frame: any sequence of operations; those with several: histories of at most two (thorough: any)
READERS = ["drv_pgm", "drv_jpg", "drv_png", "drv_magick", "drv_pfm2", "drv_y4m2", "drv_ffmpeg2"]
def readers():
    return [Job("fftw", ["readers.c", "jpegoff.c"], READERS, 420),
            Job("fftw", ["readers.c", "jpegoff.c"], ["drv_pfm", "drv_ffmpeg"], 60, tiers=("thorough",))]

def API(entries): return Job("fftw", ["api.c"], entries, 120, overrides="STUBS")
def MISC(entries, **kw): return Job("fftw", ["misc.c"], entries, 120, **kw)
AN = [Job("fftw", ["analysis.c"], ["drv_an_orig", "drv_an_zerox", "drv_an_mag", "drv_an_sign"], 400),
      Job("fftw", ["analysis.c"], ["drv_an_default_results", "drv_an_mag_results", "drv_an_zerox_results"], 800, tiers=("thorough",))]
OPEN = ("open-null-iff-error", "open-error-zero-dims", "open-failure-reported", "open-error-null-buffer", "open-buffer-size")
PROPS = {
    "R01": Prop(readers(), rules(MEM | LIB)),
    "R02": Prop(readers(), rules(OWN, tags("closed-at-end", "closed-after-error"))),
    "R03": Prop(readers(), tags(*OPEN, "read-failure-reported", "seek-failure-reported")),
    "R04": Prop(readers(), tags("read-true-means-ok", "read-true-means-whole-frame", "read-true-means-no-failure", "read-clean-end-at-frame-boundary", "read-single-frame-once")),
    "R05": Prop(readers(), tags("seek-true-means-ok", "seek-true-means-no-failure", "seek-zero-succeeds", "seek-single-frame", "read-single-frame-once")),

    "R07": Prop([API(["drv_whole"])], rules(MEM | OWN, lambda f: f.rule == "assert" and f.msg.startswith("whole-"))),
    "D01": Prop([API(["drv_detect", "drv_file"])], rules(MEM | OWN, lambda f: f.rule == "assert")),
    "A01": Prop(AN, rules(MEM | LIB)),
    "A02": Prop(AN, tags("results-at-least-one", "results-count-within-allocation", "results-sorted", "results-contain-original", "results-confidence-range",
                         "sums-within-images", "bounds-stable")),
    "A05": Prop(AN, rules(OWN)),
    "A06": Prop(AN, tags("create-null-iff-error", "create-failure-reported", "create-empty-rejected", "analyze-failure-reported", "analyze-counts-images",
                         "failed-image-not-counted", "failed-image-not-counted-nomem", "results-failure-reported", "results-without-images", "results-error-nulls")),
    "A04": Prop([MISC(["drv_params", "drv_methods", "drv_method_unknown", "drv_errstr", "drv_defaults"])], rules(MEM | OWN, lambda f: f.rule == "assert")),
    "A08": Prop([MISC(["drv_samples", "drv_finite"], overrides={"resdet_transform": "stub_transform"})], lambda f: f.rule == "assert"),
    "A09": Prop([MISC(["drv_absent_image", "drv_absent_analysis", "drv_absent_params", "drv_absent_detect"] + ["drv_absent_open%d" % i for i in range(1, 8)])],
                rules(MEM | OWN, lambda f: f.rule == "assert")),
}

def decide(pid, tier):
    import run
    p = PROPS[pid]
    findings = []; cov = {"explanation": EXPLAIN if p.jobs else STATIC_EXPLAIN}; assume = []
    jobs = [j for j in p.jobs if tier in j.tiers]
    if jobs:
        fns = {}; gaps = {}; entries = {}; tot = {}; un = {}; asserts = {}
        loops = set(); unex = []
        for j in jobs:
            t0 = time.time()
            kw = dict(j.kw)
            try:
                P = run.program(j.config, j.drivers)
            except frontend.DriverBroken as e:
                gaps["%s: %s" % (j.config, e)] = 1
                continue
            if kw.get("overrides") == "STUBS": kw["overrides"] = run.STUBS
            gone = [f for f in kw.get("overrides") or () if f not in P.funcs]
            if gone:
                gaps["%s: %s is gone, its contract cannot be put in its place" % (j.config, ", ".join(gone))] = 1
                continue
            kw.setdefault("force", ("kiss_fftr_alloc", "kiss_fftr"))
            R = run.analyse(P, j.entries, j.budget * (6 if tier == "thorough" else 1), **kw)
            for f in R.findings.values():
                if p.pick(f): findings.append(describe(f, j.config))
            for e, x in R.entries.items(): entries["%s/%s" % (j.config, e)] = x
            for e in j.entries:
                if e not in R.entries: gaps["%s/%s: no result" % (j.config, e)] = 1
            for g, n in R.gaps.items(): gaps["%s: %s" % (j.config, g[:200])] = n
            for k in ("ins", "access", "branches", "frees", "accel", "merged"): tot[k] = tot.get(k, 0) + R.stats.get(k, 0)
            for k, n in R.stats.get("calls", {}).items(): fns[k] = fns.get(k, 0) + n
            for k in R.stats.get("loops", {}): loops.add(str(k))
            for k, n in R.stats.get("unmodelled", {}).items(): un[k] = un.get(k, 0) + n
            for k, n in R.stats.get("asserts", {}).items(): asserts[str(k)] = asserts.get(str(k), 0) + n
        cov.update(entries=entries, abstract_instructions=tot.get("ins", 0), memory_access_obligations=tot.get("access", 0),
                   branch_decisions=tot.get("branches", 0), release_events=tot.get("frees", 0), loops_generalised=tot.get("accel", 0),
                   loops=len(loops), functions_analysed=sorted(k for k in fns if not k.startswith("drv_")), contract_obligations=asserts,
                   unmodelled_externals=un, unexplored=gaps)
        assume += ASSUME
    for s in p.static:
        fs, c = s(tier)
        findings += fs
        for k, v in c.items(): cov[k] = v
    findings.sort(key=lambda f: f["id"])
    seen = set(); out = []          # one report per construct, known findings kept apart by their identity
    for f in findings:
        if (f["id"]) not in seen: out.append(f)
        seen.add(f["id"])
    findings = out
    return findings, cov, assume

def describe(f, config):
    loc = f.loc or ("?", 0)
    return {"rule": f.rule, "where": "%s:%s (%s)" % (loc[0], loc[1], f.func), "what": f.msg, "entry": "%s [%s]" % (f.entry, config),
            "trace": [str(x) for x in f.trace], "id": "%s|%s|%s|%s|%s" % (f.rule, f.func, os.path.basename(str(loc[0])), f.msg, f.entry)}

EXPLAIN = ("Abstract interpretation of the LLVM IR compiled from /repo's working tree (trace-partitioned; symbolic polynomial bounds, "
           "object lifetimes, initialisation, ownership; loops by inductive generalisation). No code is executed and no solver is used. "
           "Every allocation, read and library call may fail or return any value its contract allows. Obligations that are not proved are "
           "reported as violations; paths given up are listed under 'unexplored'.")
STATIC_EXPLAIN = "Static analysis of the current source."
ASSUME = ["external libraries behave as their documented contracts, modelled in sa/models*.py", "LP64 little-endian target as configured here",
          "file names and strings passed by the caller are terminated"]
