"""Check framework: obligations, findings, known findings, evidence."""
import json
import os
import sys
import time
import traceback

from .model import Model, AnalysisBroken, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, rule, construct, where, msg):
        self.rule, self.construct, self.where, self.msg = rule, construct, where, msg

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self._model = None
        self.done = {}          # rule -> list of discharged instances
        self.findings = []
        self.funcs = set()
        self.mods = {}
        self.notes = []
        self.ruledoc = {}
        self.floors = {}
        self.merges = 0

    _shared = None

    @property
    def model(self):
        if Ctx._shared is None:
            Ctx._shared = Model()
        return Ctx._shared

    def rule(self, rid, doc, floor=1):
        self.ruledoc[rid] = doc
        self.floors[rid] = floor
        self.done.setdefault(rid, [])

    def ok(self, rid, inst):
        self.done.setdefault(rid, []).append(inst)

    def bad(self, rid, construct, where, msg):
        for f in self.findings:
            if f.rule == rid and f.construct == construct:
                return
        self.findings.append(Finding(rid, construct, where, msg))

    def need(self, cond, rid, inst, where, msg, construct=None):
        if cond:
            self.ok(rid, inst)
        else:
            self.bad(rid, construct or inst, where, msg)
        return cond

    def saw(self, *funcs):
        for f in funcs:
            self.funcs.add(f)
            self.mods[f.mod.rel] = f.mod.digest

    def sawmod(self, mod):
        self.mods[mod.rel] = mod.digest

    def walk(self, walker, func, **kw):
        walker.run(func, **kw)
        self.saw(*walker.analysed)
        self.merges += walker.merges
        return walker


def load_known():
    p = os.path.join(VERIF, "known_findings.txt")
    known = {}
    if os.path.exists(p):
        for ln in open(p, encoding="utf-8"):
            ln = ln.strip()
            if not ln or ln.startswith("#") or ln.startswith("fixed:"):
                continue
            # finding: property=<id> key=<rule|construct> :: <what fails>
            if ln.startswith("finding:"):
                head, _, what = ln[len("finding:"):].partition("::")
                head = head.strip()
                pid, _, key = head.partition(" key=")
                known[(pid.replace("property=", "").strip(), key.strip())] = what.strip()
    return known


def run_property(pid, fn, tier, title=""):
    t0 = time.time()
    ctx = Ctx(pid, tier)
    status = 0
    try:
        fn(ctx)
    except AnalysisBroken as ex:
        print(f"ANALYSIS-BROKEN property={pid}: {ex}")
        status = 2
    except RecursionError as ex:
        print(f"ANALYSIS-BROKEN property={pid}: recursion limit: {ex}")
        status = 2
    except Exception as ex:
        print(f"ANALYSIS-BROKEN property={pid}: internal error {type(ex).__name__}: {ex}")
        traceback.print_exc()
        status = 2
    known = load_known()
    viol, kn = [], []
    for f in ctx.findings:
        if (pid, f.key) in known:
            kn.append(f)
        else:
            viol.append(f)
    obligations = sum(len(v) for v in ctx.done.values()) + len(ctx.findings)
    for rid in ctx.ruledoc:
        n = len(ctx.done.get(rid, [])) + sum(1 for f in ctx.findings if f.rule == rid)
        if n < ctx.floors.get(rid, 1) and not viol and status == 0:
            print(f"ANALYSIS-BROKEN property={pid}: rule {rid} matched {n} instances, confirmed floor {ctx.floors[rid]}")
            status = 2
    per_rule = {r: {"doc": ctx.ruledoc.get(r, ""), "instances": len(v),
                    "violations": sum(1 for f in ctx.findings if f.rule == r)} for r, v in sorted(ctx.done.items())}
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    samples = []
    for r, v in sorted(ctx.done.items()):
        for i in v[:3]:
            samples.append(f"{r}: {i}")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source tree of /repo (nothing is executed). Each obligation is one "
                           "rule instance (call site, path exit, table row or scan loop) decided by the rule named; "
                           "'discharged' counts those proved, the rest are reported as findings.",
            "obligations": obligations,
            "discharged": obligations - len(ctx.findings),
            "rules": per_rule,
            "functions_analysed": len(ctx.funcs),
            "functions": sorted({f"{f.mod.rel}:{f.qual}" for f in ctx.funcs})[:400],
            "modules": ctx.mods,
            "path_joins_forced": ctx.merges,
            "samples": samples[:40],
            "known_findings": [f.key for f in kn],
        },
        "assumptions": ["CPython semantics of the parsed source; no monkey-patching of analysed modules at run time",
                        "calls to third-party libraries (lmdb, pysodium, hio, ...) behave as documented"] + ctx.notes,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1)
    print(f"property={pid} {title} tier={tier}: {obligations} obligations over {len(ctx.funcs)} functions in "
          f"{len(ctx.mods)} modules, {len(ctx.findings)} findings ({len(kn)} known), {ev['wall_s']}s")
    for r, d in per_rule.items():
        print(f"  rule {r}: {d['instances']} discharged, {d['violations']} violated -- {d['doc']}")
    for f in kn:
        print(f"KNOWN-FINDING: property={pid} {f.key} at {f.where}: {known[(pid, f.key)]}")
    if viol:
        rp = os.path.join(VERIF, "evidence", f"{pid}.violations.txt")
        with open(rp, "w", encoding="utf-8") as fh:
            for f in viol:
                fh.write(f"{f.rule} {f.where} [{f.construct}] {f.msg}\n")
        for f in viol:
            print(f"  {f.where}: [{f.rule}] {f.construct}: {f.msg}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return status
