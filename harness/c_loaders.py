"""P01-P05: coalescer, batching loader, caches."""
from checks import check
from vlib import Graph

TECH = "TLA+ state machine checked with TLC; every transition replayed on the real code; recorded concurrent traces validated by TLC"


def graph(ctx, module, cfg, **kw):
    return Graph(ctx.tlc(module, cfg, **kw).emitted)


@check("P01", TECH, note="Exhaustive over the interleavings of 3 requests on 1 key and on 2 keys (4 requests thorough) at poll grain, "
       "both retention modes, with failure, panic and abandonment; liveness of waiters checked on the model. "
       "Trusts that a poll is the unit of interleaving, which the multi-threaded recorded traces probe.")
def p01(ctx):
    for mode in ("plain", "persist"):
        ctx.tlc("Dedupe", f"Dedupe.{mode}.live.cfg")
        for cfg in ([f"Dedupe.{mode}.cfg", f"Dedupe.{mode}.keys.cfg"] + ([f"Dedupe.{mode}.thorough.cfg"] if ctx.thorough else [])):
            g = graph(ctx, "Dedupe", cfg)
            paths = g.cover(ctx.rng) + g.walks(ctx.rng, 2000, 40)

            def to_case(init, acts):
                return dict(persist=mode == "persist", keys={r: "j" if r == "x" else "k" for r in "abcdx"}, steps=acts)

            def get_obs(o):
                out = []
                for x in o:
                    if not x:
                        out.append(dict(obs=dict(started=[], res=dict(p="-"))))
                        continue
                    r = x["res"]
                    if isinstance(r, str):
                        r = dict(p=r)
                    else:
                        (k, v), = r.items()
                        r = dict(by=v, v=k)
                    out.append(dict(obs=dict(started=x["started"], res=r)))
                return out
            g.replay(ctx, "dedupe", paths, to_case, get_obs)
        # recorded concurrent runs: TLC decides whether Dedupe admits them
        cases = []
        for i in range(400 if ctx.thorough else 150):
            rng = ctx.rng
            n = rng.choice([3, 4, 5, 6])
            tasks = []
            for j in range(n):
                k = rng.choice(["k", "k", "j"])
                t = dict(r=f"{k}{j}", key=k, delay=rng.choice([0, 0, 5, 20, 60]), dur=rng.choice([0, 1, 3, 20]), out=rng.choice(["ok", "err"]))
                if rng.random() < 0.35:
                    t["abort"] = rng.choice([0, 10, 30, 60, 100])
                tasks.append(t)
            cases.append(dict(persist=mode == "persist", tasks=tasks))
        logs = ctx.drive("dedupe_mt", cases, threads=3)
        validate(ctx, "DedupeTrace", f"DedupeTrace.{mode}.cfg", cases, logs)


def validate(ctx, module, cfg, cases, logs, **kw):
    """Code-to-model: all logs in one TLC run; every log must be consumed to its end."""
    good = []
    for c, l in zip(cases, logs):
        if isinstance(l, dict):
            ctx.violation(f"{module}: the code {'hung' if 'hang' in l else 'failed'}", dict(case=c, observed=l))
        elif l:
            good.append((c, l))
    import json
    r = ctx.tlc(module, cfg, workers=1, extra_files={"traces.json": json.dumps([l for _, l in good])}, check=False, **kw)
    if not r.emitted or (not r.ok and not r.violated):
        from vlib import ToolError
        raise ToolError(f"trace validation {module} failed:\n{r.out[-3000:]}")
    if r.violated:
        ctx.violation(f"{module}: recorded behaviour breaks {r.violated}", dict(tlc=r.out[-3000:]))
    for i, at in r.emitted[-1]["stuck"]:
        c, l = good[i - 1]
        ctx.violation(f"{module}: event {at} {l[at-1] if 0 < at <= len(l) else None} of a recorded run is not admitted by the specification",
                      dict(case=c, trace=l, at=at))
    ctx.traces += len(good)
    ctx.sample(dict(recorded=good[0][1]))


TECH_SM = "TLA+ state machine checked with TLC; transition-covering and random behaviours of it replayed on the real code"


def loader(ctx, cfgs):
    for name, cache, cap, mx in cfgs:
        g = graph(ctx, "Loader", f"Loader.{name}.cfg")
        paths = g.cover(ctx.rng) + g.walks(ctx.rng, 2000, 40)
        if not ctx.thorough and len(paths) > 15000:
            paths = ctx.rng.sample(paths, 15000)
        g.replay(ctx, "loader", paths, lambda init, acts: dict(cache=cache, cap=cap, max=mx, steps=acts),
                 lambda o: [dict(obs=x) for x in o])


@check("P02", TECH_SM, note="All interleavings of 3-4 load requests (single and multi key, overlapping) with window expiry, early send at the "
       "maximum, completion orders, partial and failed answers and abandonment; on virtual time.")
def p02(ctx):
    loader(ctx, [("batch", "none", 0, 3), ("batch2", "none", 0, 2), ("wide", "none", 0, 2), ("wide1", "none", 0, 1)] +
           ([("batch.thorough", "none", 0, 3), ("batch2.thorough", "none", 0, 2)] if ctx.thorough else []))


@check("P03", TECH_SM, note="Unbounded and LRU cache storage, cached/uncached mixes, feeds, clears, both switches; on virtual time. "
       "The order in which one batch fills a bounded cache and switching while a batch is under way are left open.")
def p03(ctx):
    loader(ctx, [("map", "map", 0, 3), ("mapfail", "map", 0, 3), ("switch", "map", 0, 3), ("lru", "lru", 2, 1)] +
           ([("map.thorough", "map", 0, 3), ("lru.thorough", "lru", 2, 1)] if ctx.thorough else []))


@check("P04", TECH_SM, note="Capacity 2, three keys, two lifetimes, on virtual time (tokio's paused clock behind the cache's clock). "
       "Lookups exactly at the expiry instant are left open.")
def p04(ctx):
    for cfg in ["TtlCache.cfg"] + (["TtlCache.thorough.cfg"] if ctx.thorough else []):
        em = ctx.tlc("TtlCache", cfg).emitted
        for r in em:
            if "obs" in r["a"]:
                x = r["a"]["obs"]["rate"]
                r["a"]["obs"]["rate"] = x["hits"] / x["lookups"] if x["lookups"] else None
        g = Graph(em)
        g.replay(ctx, "ttl", g.cover(ctx.rng) + g.walks(ctx.rng, 2000, 9),
                 lambda init, acts: dict(cap=2, steps=acts), lambda o: [dict(obs=x) for x in o])


@check("P05", TECH_SM, note="The complete state space of the store for 4 keys, 2 values and capacities 1-3 (histories of any length), every transition "
       "replayed, plus long random histories.")
def p05(ctx):
    for cap in (1, 2, 3):
        g = graph(ctx, "HttpStore", f"HttpStore.cap{cap}.cfg")
        n = 3000 if ctx.thorough else 300
        g.init = ["[]"]
        g.replay(ctx, "http_store", g.cover(ctx.rng) + g.walks(ctx.rng, n, 120),
                 lambda init, acts: dict(cap=cap, steps=acts), lambda o: [dict(obs=x) for x in o])
