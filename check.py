#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo's working tree, statically.

Exit 0: no violation on everything analysed.  Exit 1: a line 'VIOLATION property=<id> replay=<path>'
per violation, where <path> holds the offending construct and the analysed path leading to it."""
import sys, os, time, json, re, argparse, fnmatch, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, os.path.join(HERE, "sa"))

def known(pid):
    """known findings of this property: [(regex over the finding's identity, text)]"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf8"):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", l)
            if m and m.group(1) == pid: out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("-v", action="store_true")
    o = ap.parse_args()
    t0 = time.time()
    import props
    P = props.PROPS[o.property]
    ev = os.path.join(HERE, "evidence"); os.makedirs(ev, exist_ok=True)
    for f in os.listdir(ev):
        if f.startswith(o.property + "."): os.unlink(os.path.join(ev, f))
    try:
        findings, coverage, assumptions = props.decide(o.property, o.tier)
    except Exception as e:
        traceback.print_exc()
        print("check %s could not analyse the tree: %s" % (o.property, e))
        return 1
    kn = known(o.property)
    bad = []; seen = set()
    for f in findings:
        k = next((t for rx, t in kn if rx.search(f["id"])), None)
        if k:
            if k not in seen: print("KNOWN-FINDING: property=%s %s" % (o.property, k))
            seen.add(k)
        elif not any(b["rule"] == f["rule"] and b["where"] == f["where"] for b in bad): bad.append(f)
    for n, f in enumerate(bad):
        rp = os.path.join(ev, "%s.violation-%d.txt" % (o.property, n))
        with open(rp, "w") as h:
            h.write("property %s\nrule     %s\nat       %s\nwhat     %s\nentry    %s\n" % (o.property, f["rule"], f["where"], f["what"], f.get("entry", "")))
            for l in f.get("trace", ()): h.write("   %s\n" % l)
        print("VIOLATION property=%s replay=%s" % (o.property, rp))
        print("   %s %s: %s" % (f["rule"], f["where"], f["what"]))
    doc = {"property": o.property, "tier": o.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": P.level,
           "coverage": coverage, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    tmp = os.path.join(ev, o.property + ".json.tmp")
    with open(tmp, "w") as h: json.dump(doc, h, indent=1, sort_keys=True, default=str)
    os.replace(tmp, os.path.join(ev, o.property + ".json"))
    print("%s %s: %d violation(s), %d known, %.1fs" % (o.property, o.tier, len(bad), len(seen), time.time() - t0))
    return 1 if bad else 0

if __name__ == "__main__":
    sys.exit(main())
