#!/usr/bin/env python3
"""run.py <property>: decides one property of /repo's current source.  Exit 0 held, 1 violated, 2 analysis broken."""
import sys, os, json, time, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "engine"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True
import tasks, registry, build
from tasks import OK, BAD, UND

def known(pid):
    """lines 'finding: property=<id> key=<obligation> -- text'"""
    out = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(.+?) -- (.*)', l)
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out

def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    obs = registry.PROPS[pid]
    specs = sorted({o.spec for o, _ in obs if isinstance(o, tasks.Pair)})
    try: world = tasks.World(specs)
    except build.BuildError as ex:
        print("analysis broken: %s" % ex); return 2
    tmo = 240 if tier == "quick" else 780
    res = tasks.run_all(world, [o for o, _ in obs], tmo)
    rows = []
    for o, flt in obs:
        for f in res[o][0]:
            if flt and not re.search(flt, f.key) and not (f.status == UND and (f.key == o.name or f.key.endswith("structure"))): continue
            rows.append(f)
    kn = known(pid); shown = set()
    bad = []
    for f in rows:
        if f.status == BAD:
            if f.key in kn:
                if f.key not in shown: print("KNOWN-FINDING: property=%s %s: %s" % (pid, f.key, kn[f.key])); shown.add(f.key)
            else: bad.append(f)
    n = len(rows); ok = sum(f.status == OK for f in rows); und = [f for f in rows if f.status == UND]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "coverage": {"explanation": "Static analysis of %d translation units (LLVM IR built from /repo's working tree this run). Each obligation is one memory region, return value, call or path instance of the named function compared with its reference definition in normal form, or one instance of a path/effect rule; statuses were computed on this run." % len(world.units),
                       "obligations": n, "discharged": ok, "undecided": len(und), "violated": len(bad), "known_findings": len(shown),
                       "functions": sorted({str(f.where) for f in rows}), "units": world.units,
                       "obligation_seconds": {o.name: round(res[o][1], 2) for o, _ in obs},
                       "samples": [f.row() for f in rows if f.status == OK][:40],
                       "undecided_list": [f.row() for f in und][:60], "violations_list": [f.row() for f in bad][:60]},
          "wall_s": round(time.time() - t0, 2), "violations": len(bad),
          "assumptions": registry.ASSUMPTIONS if hasattr(registry, "ASSUMPTIONS") else []}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    path = os.path.join(V, "evidence", pid + ".json")
    with open(path, "w") as f: json.dump(ev, f, indent=1)
    print("property %s: %d obligations, %d hold, %d undecided, %d violated (%.1f s)" % (pid, n, ok, len(und), len(bad), time.time() - t0))
    for f in und[:20]: print("  undecided %s at %s: %s" % (f.key, f.where, f.detail))
    for f in bad[:20]: print("  violated  %s at %s: %s" % (f.key, f.where, f.detail))
    if bad:
        print("VIOLATION property=%s replay=%s" % (pid, path)); return 1
    if ok == 0 and not shown and not und:
        print("analysis broken: no obligation was found"); return 2
    return 0

if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
