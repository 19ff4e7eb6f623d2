"""How one property is decided: check the design model, run the real code, judge the recorded traces by the specification."""
import concurrent.futures as cf
import json, os, re, sys, time
from . import common as C
from .common import MachineryError, log


def known_findings(pid):
    f = os.path.join(C.VERIF, "known-findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == pid]


def known_for(pid, trace, viol):
    """The listed finding that this violation is, if any: same scenario tag and every broken rule listed for it."""
    rules = set(re.findall(r'"([^"]+)"', viol))
    for k in known_findings(pid):
        if trace.get("cfg", {}).get("tag") == k["scenario"] and rules and rules <= set(k["rules"]):
            return k
    return None


class Prop:
    """spec: dict with
         models   [(module, cfg, [actions that must occur])]
         gens     [(name, module, cfg, num_quick, num_thorough, depth)]
         runs     [callable(ctx) -> traces]  (the real code)
         trace    (module, cfg)
         rule, assumptions, nontrivial(trace) -> hashable or None
    """

    def __init__(self, pid, spec):
        self.pid, self.spec = pid, spec


class Ctx:
    def __init__(self, pid, scratch):
        self.pid, self.scratch, self.scheds = pid, scratch, {}
        self.thorough = C.THOROUGH
        self.stats = {}
        self.bins = {}


def decide(pid, spec, only=None):
    """Returns the exit code."""
    scratch = C.Scratch(pid)
    try:
        parts = spec.get("parts") or [spec]
        names = [p.get("name", "") for p in parts]
        covs, rc = [], 0
        bins = {}
        for p in parts:
            if only and only.get("part", "") != p.get("name", ""):
                continue
            if len(parts) > 1:
                log(f"part: {p.get('name')}")
            rc, cov = _decide(pid, p, scratch, only, bins)
            covs.append(cov)
            if rc:
                break
        if not only:
            C.write_evidence(pid, spec.get("level", "model_checking"), merge(covs), spec.get("assumptions", [a for p in parts for a in p.get("assumptions", ())]), rc)
        return rc
    finally:
        scratch.close()


def merge(covs):
    if len(covs) == 1:
        return covs[0]
    out = dict(parts=[])
    for c in covs:
        for k, v in c.items():
            if isinstance(v, bool) or not isinstance(v, (int, float)):
                continue
            out[k] = out.get(k, 0) + v
        out["parts"].append({k: v for k, v in c.items() if k != "samples"})
    out["samples"] = [s for c in covs for s in c["samples"]]
    out["rule"] = "; ".join(c["rule"] for c in covs)
    out["known_findings"] = sorted({k for c in covs for k in c["known_findings"]})
    return out


def rules_of(viol):
    return set(re.findall(r'"([^"]+)"', viol))


REPEATS = 5


def reproduced(ctx, spec, scratch, t, viol, own):
    """Rules ending in '!' depend on the clock of a loaded machine: they count if the scenario alone shows them again."""
    rules = {r for r in rules_of(viol) if r in own}
    if not rules or any(not r.endswith("!") for r in rules):
        return True
    run = next((r for r in spec["runs"] if getattr(r, "run", None) == t.get("run")), None)
    if run is None:
        return True
    again = run(ctx, dict(run=t.get("run"), scenario=t["n"]), repeat=REPEATS)
    hits = 0
    for i, x in enumerate(again):
        x["n"], x["id"] = x["id"], 1
        _, v = C.check_traces(scratch, *spec["trace"], [project(spec, x)], tag=f"again{i}")
        if v and rules_of(v["viol"]) & (rules | {"crash"}):
            hits += 1
    log(f"{sorted(rules)} in scenario {t['n']}: again in {hits} of {len(again)} runs alone")
    ctx.stats["reruns"] = ctx.stats.get("reruns", 0) + len(again)
    return hits >= 2


def own_rules(module, cfg):
    """The rules that the invariant of a trace check looks at."""
    inv = re.search(r"INVARIANT\w*\s+(\w+)", open(os.path.join(C.SPEC, cfg)).read()).group(1)
    m = re.search(r"^%s ==(.*?)(?=^\w+ ==|^====)" % inv, open(os.path.join(C.SPEC, module + ".tla")).read(), re.M | re.S)
    return rules_of(m.group(1)) if m else set()


def _decide(pid, spec, scratch, only, bins):
    ctx = Ctx(pid, scratch)
    ctx.bins = bins
    th = C.THOROUGH
    states = transitions = 0
    with cf.ThreadPoolExecutor(8) as ex:
        models = spec.get("models", []) + (spec.get("models_thorough", []) if th else [])
        per = max(1, 8 // max(1, len(models) + len(spec.get("gens", []))))
        fm = [] if only else [ex.submit(C.model_check, scratch, m, c, 600 if th else 250, (), max(2, per), need) for m, c, need in models]
        fw = [] if only else [ex.submit(C.weak_check, scratch, m, c) for m, c in spec.get("weak", [])]
        fb = [ex.submit(b, ctx) for b in spec.get("build", [])]
        fg = {}
        for name, m, c, nq, nt, depth in spec.get("gens", []):
            fg[name] = ex.submit(C.generate, scratch, m, c, nt if th else nq, depth)
        for f in fb:
            f.result()
        for name, f in fg.items():
            ctx.scheds[name] = f.result()
        log(f"built; {sum(len(v) for v in ctx.scheds.values())} behaviours of the specification as schedules")
        traces = []
        for r in spec["runs"]:
            traces += r(ctx, only)
        for i, t in enumerate(traces):
            t["n"] = t["id"]
            t["id"] = i + 1
        events = sum(len(t["ev"]) for t in traces)
        log(f"{len(traces)} traces, {events} events recorded from the real code")
        for f in fm:
            r = f.result()
            states += r.distinct
            transitions += r.generated
        for f in fw:
            r = f.result()
            ctx.stats["weakened_designs_noticed"] = ctx.stats.get("weakened_designs_noticed", 0) + 1
        log(f"design: {states} distinct states, {transitions} transitions")
    if not traces:
        raise MachineryError("no traces recorded")
    nt = set()
    for t in traces:
        k = spec["nontrivial"](t)
        if k is not None:
            nt.add(k)
    module, cfg = spec["trace"]
    # judge; a listed finding is set aside, so that a different violation is still seen
    rest, kf, viol, res = list(traces), [], None, None
    evals = 0
    own = own_rules(module, cfg)
    odd = []
    for _ in range(12):
        proj = [project(spec, t) for t in rest]
        res, v = C.check_traces(scratch, module, cfg, proj, timeout=900 if th else 400)
        evals = max(evals, res.generated)
        if v is None:
            break
        t = rest[v["tid"] - 1]
        k = known_for(pid, t, v["viol"])
        if k is None:
            if not only and not reproduced(ctx, spec, scratch, t, v["viol"], own):
                odd.append(t)
                rest = [x for x in rest if x is not t]
                continue
            viol = (t, v)
            break
        kf.append((k, t, v))
        rest = [x for x in rest if x is not t]
    for k in {json.dumps(k, sort_keys=True): k for k, _, _ in kf}.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}", flush=True)
    lame = [t for t in traces for e in t["ev"] if e["op"] == "harness"]
    if lame:
        ctx.stats["driver_failures"] = len(lame)
        log(f"{len(lame)} scenarios were not driven to their end: {lame[0]['ev'][-1]}")
        if not viol and len(lame) > max(2, len(traces) // 20):
            raise MachineryError("the driver failed too often")
    if not viol:
        for chk in spec.get("vacuity", []):
            chk(ctx, traces, only)
    if viol and "HARNESS" in viol[1]["viol"]:
        raise MachineryError(f"the driver left the property's input space: {viol[1]['viol']}")
    sample = min(traces, key=lambda t: abs(len(t["ev"]) - 12))
    cov = dict(states=states, transitions=transitions, traces_validated_against_impl=len(traces),
               samples=[dict(src=sample.get("src"), cfg=sample.get("cfg"), ev=sample["ev"][:40])],
               events_judged=events, distinct_nontrivial=len(nt), rule=spec["rule"],
               spec_schedules=sum(len(v) for v in ctx.scheds.values()),
               known_findings=[k["what"] for k, _, _ in kf], **ctx.stats)
    if spec.get("level", "model_checking") != "model_checking":
        cov["evaluations"] = events
    if odd:
        cov["not_reproduced"] = len(odd)
    if viol:
        t, v = viol
        f = C.write_replay(pid, dict(property=pid, seed=C.SEED, tier=C.TIER, run=t.get("run"), part=spec.get("name", ""), scenario=t["n"], rules=v["viol"],
                                     at_event=v["l"], event=(t["ev"][v["l"] - 1] if 0 < v["l"] <= len(t["ev"]) else None),
                                     state=v["state"][:6000], trace=t))
        log(f"broken: {v['viol']} at event {v['l']}: {json.dumps(t['ev'][v['l'] - 1] if 0 < v['l'] <= len(t['ev']) else None)[:400]}")
        print(f"VIOLATION property={pid} replay={f}", flush=True)
        return 1, cov
    log("holds")
    return 0, cov


def project(spec, t):
    p = spec.get("project")
    ev = [p(e) for e in t["ev"]] if p else t["ev"]
    return dict(id=t["id"], cfg=t["cfg"], ev=[e for e in ev if e is not None])


# ---- pieces ----------------------------------------------------------------------------------

def build_unit(ctx):
    if "unit" in ctx.bins:
        return
    ctx.bins["unit"] = C.build_unit(ctx.scratch)


def build_e2e(ctx):
    if "rec" in ctx.bins:
        return
    ctx.bins["rec"], ctx.bins["e2e"] = C.build_e2e(ctx.scratch)


def e2e(domain, n_quick, n_thorough, gens=(), args=None, timeout=400, name=None, par=64):
    """Runs scenarios of a domain of the end-to-end harness."""
    def go(ctx, only, repeat=None):
        if only and only.get("run") not in (None, name or domain):
            return []
        sch = [s for g in gens for s in ctx.scheds[g]]
        tr = C.run_e2e(ctx.scratch, ctx.bins, domain, n_thorough if ctx.thorough else n_quick, sch, args, timeout,
                       name=name, only=only["scenario"] if only else 0, par=par, repeat=repeat or (REPEATS if only else 1))
        for t in tr:
            t["run"] = name or domain
        return tr
    go.run = name or domain
    return go


def unit(domain, n_quick, n_thorough, gens=(), args=None, timeout=300, name=None):
    """Runs scenarios of a domain of the in-process driver: the named spec schedules first, then random ones."""
    def go(ctx, only):
        if only and only.get("run") not in (None, name or domain):
            return []
        sch = [s for g in gens for s in ctx.scheds[g]]
        n = n_thorough if ctx.thorough else n_quick
        tr = C.run_unit(ctx.scratch, ctx.bins["unit"], domain, n, sch, args, timeout,
                        name=name, only=only["scenario"] if only else 0)
        for t in tr:
            t["run"] = name or domain
        return tr
    return go
