#!/usr/bin/env python3
"""check.py <property>: decide one property of /repo's current tree by static analysis.

exit 0: holds (known findings are printed); exit 1: VIOLATION line; exit 2: no verdict."""
import json, os, subprocess, sys, tempfile, time, traceback
import svlib
from props import PROPS

KNOWN = os.path.join(svlib.VERIF, "known-findings.txt")


def known(prop):
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip("\n")
            if not l.startswith("finding: property=%s " % prop):
                continue
            rest = l.split(" ", 2)[2]
            key, _, what = rest.partition(" | ")
            r[key.removeprefix("key=")] = what
    return r


def run_tool(analysis, config, bcs, tmp, extra):
    roots = os.path.join(tmp, "roots.txt")
    with open(roots, "w") as f:
        f.write("\n".join(svlib.api_names()) + "\n")
    cmd = [svlib.TOOL, analysis, "-roots", roots, "-config", config]
    for x in extra:
        cmd += ["-x", x]
    r = subprocess.run(cmd + bcs, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise svlib.Broken("analyser %s exited %d: %s" % (analysis, r.returncode, r.stderr[-2000:]))
    return json.loads(r.stdout)


def main():
    prop = sys.argv[1]
    spec = PROPS[prop]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    viols, stats, lists = [], {}, {}
    svlib.ensure_tool()
    with tempfile.TemporaryDirectory(prefix="sv-") as tmp:
        bcs = {}
        for step in spec["steps"]:
            an, cfg, extra = step["analysis"], step["config"], step.get("args", [])
            if cfg not in bcs:
                bcs[cfg] = svlib.bitcode(cfg, os.path.join(tmp))
            out = run_tool(an, cfg, bcs[cfg], tmp, extra)
            if out["broken"]:
                raise svlib.Broken("; ".join(out["broken"]))
            for k, n in step.get("min", {}).items():
                # what a violation hides from view is no loss of the subject
                if out["stats"].get(k, 0) < n and all(v["key"] in known(prop) for v in out["violations"]):
                    raise svlib.Broken("%s/%s: only %d %s (at least %d expected): the analysis lost its subject" %
                                       (an, cfg, out["stats"].get(k, 0), k, n))
            for v in out["violations"]:
                v["step"] = an + "/" + cfg
                viols.append(v)
            for k, v in out["stats"].items():
                stats["%s/%s %s" % (an, cfg, k) if len(spec["steps"]) > 1 else k] = v
            for k, v in out["lists"].items():
                lists["%s/%s %s" % (an, cfg, k) if len(spec["steps"]) > 1 else k] = v
    kn = known(prop)
    new, old = [], {}
    for v in viols:
        if v["key"] in kn:
            old.setdefault(v["key"], v)
        else:
            new.append(v)
    for k, v in sorted(old.items()):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, kn[k], v["loc"]))
    ev = os.path.join(svlib.VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    coverage = {"explanation": spec["explanation"], "rule": spec["rule"], "measured": stats,
                "analysed": {k: v[:200] for k, v in lists.items()},
                "known_findings": sorted(old), "reported": [dict(v) for v in new][:50]}
    json.dump({"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
               "level": spec["level"], "coverage": coverage, "assumptions": spec["assumptions"],
               "wall_s": round(time.time() - t0, 2), "violations": len(new)},
              open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    if new:
        rp = os.path.join(ev, prop + ".violations.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write("%s: %s\n  rule instance: %s (%s)\n" % (v["loc"], v["msg"], v["key"], v["step"]))
                for p in v["path"]:
                    f.write("    %s\n" % p)
        for v in new[:40]:
            print("%s: %s" % (v["loc"], v["msg"]))
            for p in v["path"][:40]:
                print("    " + p)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s %s (%.1fs)" % (prop, json.dumps(stats), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except svlib.Broken as e:
        print("BROKEN: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
