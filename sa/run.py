"""Runs the interpreter over a set of entry points, in parallel processes.

An entry may end in __sa_continue(fn, ...): the states arriving there are merged and each is then
analysed on its own, in its own process (this partitions the analysis, it does not sample it)."""
import os, sys, time, pickle, tempfile, shutil, multiprocessing, gc
os.environ.setdefault("PYTHONHASHSEED", "0")
import frontend, ir, models, eng, merge

class Result:
    def __init__(self):
        self.findings = {}; self.stats = {}; self.gaps = {}; self.entries = {}
    def add(self, r):
        self.findings.update({k: v for k, v in r["findings"].items() if k not in self.findings})
        addstats(self.stats, r["stats"])
        for k, n in r["gaps"].items(): self.gaps[k] = self.gaps.get(k, 0) + n
        e = self.entries.setdefault(r["entry"], {"outcomes": 0, "continuations": 0, "instructions": 0, "cpu_s": 0})
        e["outcomes"] += r["outs"]; e["continuations"] += r["conts"]; e["instructions"] += r["stats"].get("ins", 0)
        e["cpu_s"] = round(e["cpu_s"] + r["cpu"], 2)

def addstats(a, b):
    for k, v in b.items():
        if isinstance(v, dict): addstats(a.setdefault(k, {}), v)
        elif isinstance(v, (int, float)): a[k] = a.get(k, 0) + v
        elif isinstance(v, (set, list)): a.setdefault(k, set()).update(v)

def one(P, entry, fname, args, st, deadline, kw):
    """analyse one function; (result dict, engine)"""
    E = eng.Engine(P, models.Models(force=kw.get("force", ())), entry, overrides=kw.get("overrides"))
    E.deadline = deadline
    t0 = time.process_time(); outs = []
    if st is None: st = E.initial()
    else: E.gobj, E.strobj, E.memo, E.init0 = kw["_shared"]
    try:
        outs = E.run(fname, args, st)
    except (eng.Unsupported, eng.Budget) as e:
        if os.environ.get("SA_STRICT") and isinstance(e, eng.Unsupported): raise
        E.gap(e)
    except RecursionError as e:
        E.gap("recursion limit")
    return {"entry": entry, "findings": E.findings, "stats": E.stats, "gaps": E.gaps, "outs": len(outs), "conts": len(E.conts), "cpu": time.process_time() - t0}, E

def worker(P, entry, deadline, kw, sem, d, fname=None, args=(), st=None):
    """analyse one function, then the states it hands over with __sa_continue, each in its own process"""
    sem.acquire()
    try:
        r, E = one(P, entry, fname or entry, list(args), st, deadline, kw)
        conts = E.conts
        if conts:
            g = {}
            for c in conts: g.setdefault(c[0], []).append(c)
            conts = []
            for fn, cs in g.items():
                keep = merge.merge(E, [(c[2], E.V.AG(c[1])) for c in cs], envids=())
                conts += [cs[i] for i in keep]
            r["conts"] = len(conts)
            kw = dict(kw); kw["_shared"] = (E.gobj, E.strobj, E.memo, E.init0)
        n = "%s/%d" % (d, os.getpid())
        with open(n + ".tmp", "wb") as f: pickle.dump(r, f)
        os.rename(n + ".tmp", n)
    finally:
        sem.release()
    kids = []
    for fn, a, s in conts:
        sem.acquire()          # a slot is free: start the next one
        sem.release()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                code = min(worker(P, entry, deadline, kw, sem, d, fn, a, s), 100)
            except BaseException:
                import traceback; traceback.print_exc()
            finally:
                os._exit(code)
        kids.append(pid)
    bad = 0
    for pid in kids:
        _, c = os.waitpid(pid, 0)
        bad += os.waitstatus_to_exitcode(c) if os.WIFEXITED(c) else 1
    return bad

def analyse(P, entries, budget=300, jobs=None, **kw):
    """entries: names of driver functions"""
    d = tempfile.mkdtemp(prefix="sa.")
    sem = multiprocessing.get_context("fork").Semaphore(jobs or os.cpu_count() or 4)
    deadline = time.time() + budget
    gc.collect(); gc.freeze()
    R = Result()
    kids = {}
    try:
        for e in entries:
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    gc.set_threshold(100000, 20, 20)
                    code = min(worker(P, e, deadline, kw, sem, d), 100)
                except BaseException:
                    import traceback; traceback.print_exc()
                finally:
                    os._exit(code)
            kids[pid] = e
        for pid, e in kids.items():
            _, s = os.waitpid(pid, 0)
            if s: R.gaps["analysis process of %s failed" % e] = R.gaps.get("analysis process of %s failed" % e, 0) + 1
        for n in sorted(os.listdir(d)):
            if n.endswith(".tmp"): continue
            with open("%s/%s" % (d, n), "rb") as f: R.add(pickle.load(f))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return R

DRV = os.path.join(os.path.dirname(os.path.abspath(__file__)), "drivers") + "/"

def program(config, drivers, defines=()):
    with frontend.Tree(config, drivers=[DRV + x for x in drivers], **({"defines": defines} if defines else {})) as t:
        js = t.module(t.lib_sources() + [s for s in t.bc if s.startswith("/")])
    return ir.Program(js)

STUBS = {"resdet_open_image": "stub_open", "resdet_read_image_frame": "stub_read", "resdet_close_image": "stub_close", "resdet_create_analysis": "stub_create",
         "resdet_analyze_image": "stub_analyze", "resdet_analysis_results": "stub_results", "resdet_destroy_analysis": "stub_destroy"}

if __name__ == "__main__":
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument("entries", nargs="+"); a.add_argument("--cfg", default="fftw"); a.add_argument("--drv", default="readers.c,jpegoff.c")
    a.add_argument("--budget", type=float, default=280); a.add_argument("-t", action="store_true"); a.add_argument("-s", action="store_true")
    a.add_argument("-j", type=int); a.add_argument("--stub", action="store_true"); a.add_argument("--ov", default="")
    o = a.parse_args()
    t0 = time.time()
    P = program(o.cfg, o.drv.split(","))
    t1 = time.time()
    R = analyse(P, o.entries, o.budget, jobs=o.j, overrides=STUBS if o.stub else dict(x.split('=') for x in o.ov.split(',') if x) or None, force=("kiss_fftr_alloc", "kiss_fftr"))
    for e, x in R.entries.items(): print(e, x)
    print("front end %.1fs analysis %.1fs" % (t1 - t0, time.time() - t1), {k: v for k, v in R.stats.items() if not isinstance(v, (dict, set))}, R.stats.get("unmodelled"))
    for g, n in R.gaps.items(): print("  GAP", n, g[:600])
    for f in R.findings.values():
        print("  ", f)
        if o.t: print("\n".join("       " + x for x in f.trace))
    if o.s: print(R.stats)
