"""P06-P09: request identity, merged calls, distribution of their answers, JSON operations."""
import json

from checks import check
from vlib import key

FUNC = "TLA+ definition of the function, laws checked by TLC over the whole bounded domain; every point of the domain evaluated on the real code"


def tier(ctx):
    return "thorough" if ctx.thorough else "quick"


@check("P09", FUNC, note="All JSON values up to three levels over nine leaves (null, numbers beyond 2^53, strings that look like numbers), 19 paths, keys set, values read by kind, on the "
       "four JSON representations (serde_json, GraphQL constant, GraphQL value, borrowed) and copies between them.")
def p09(ctx):
    recs = ctx.tlc("JsonOps", f"JsonOps.{tier(ctx)}.cfg").emitted
    paths = [[], ["id"], ["a"], ["a", "id"], ["0"], ["1", "id"], ["a", "0"], ["0", "0"], ["a", "1", "id"], ["id", "id"], ["a", "a"], ["3"], ["x"],
             ["10"], ["-1"], ["a", "10"], ["", "id"], ["id", ""], ["ID"]]
    opaths = [["id"], ["a"], ["a", "id"], ["id", "id"], []]

    def judge(r, o):
        if not isinstance(o, list):
            return f"the code {o}"
        want = r["out"]
        if o[4] != [r["in"]]:
            return f"copies between the representations are {o[4]}"
        for rep, got in zip(("serde_json", "ConstValue", "borrowed", "Value"), o):
            for what in ("paths", "gather", "leaves", "puts", "as"):
                if got[what] != want[what]:
                    return f"{rep}: {what} gives {got[what]}, specification {want[what]}"
            for i, g in enumerate(want["groups"]):
                if got["groups"][i] != sorted(g):
                    return f"{rep}: group_by {opaths[i]} gives {got['groups'][i]}, specification {g}"
            f = want["failat"]
            m = {"err": f} if f else {"ok": want["wrapped"]}
            seen = want["leaves"][:f] if f else want["leaves"]
            for a, b in (("map_ref", "seen_ref"), ("map", "seen")):
                if got[a] != m or got[b] != seen:
                    return f"{rep}: {a} gives {got[a]} visiting {got[b]}, specification {m} visiting {seen}"
        return None
    ctx.functional("json", recs, lambda r: dict(v=r["in"], paths=paths, opaths=opaths, fail=["s", "1"]), judge)


def distribute_case(r):
    c = r["in"]["c"]
    own = lambda i: [] if c["post"] else [[r["in"]["param"], i]]
    reqs = [dict(query=r["in"]["decoys"][:1] + own(i) + r["in"]["decoys"][1:] if not c["post"] else [], id=i,
                 **({"body": ["o", [["id", ["s", i]]]]} if c["post"] else {})) for i in c["reqs"]]
    g = r["in"]["group"]
    return dict(post=c["post"], reqs=reqs, group=dict(path=g["path"], key=(g["key"] or [""])[0]), list=c["list"], answer=r["in"]["answer"], fail=c["fail"])


@check("P07", FUNC, note="Up to three requested ids (numbers beyond 2^53 that differ by one, text) against every answer of up to two records (three thorough) with "
       "missing, duplicate, foreign, mistyped ids, in five answer shapes, grouped by a path, by default, or by a path and a query parameter of another name, for GET and POST "
       "batching, single and list results, and failures.")
def p07(ctx):
    recs = ctx.tlc("Distribute", f"Distribute.{tier(ctx)}.cfg").emitted

    def judge(r, o):
        c = r["in"]["c"]
        if o.get("calls") != 1:
            return f"{o.get('calls')} upstream calls for one batch: {o}"
        if c["fail"]:
            return None if "err" in o else f"the failed call was answered {o}"
        if "err" in o:
            return f"failed: {o}"
        if o["extra"] != 0:
            return f"{o['extra']} answers too many or too few"
        for i, (got, want) in enumerate(zip(o["out"], r["out"])):
            if got != [want]:
                return f"request {c['reqs'][i]} received {got}, specification [{want}]"
        return None
    ctx.functional("distribute", recs, distribute_case, judge)


@check("P08", FUNC, note="All sequences of up to three requests over nine query pairs (reserved characters, percent signs, plus, empty, a parameter whose "
       "name extends the key's) and four bodies, on two base URLs. The batching loader as a whole, with the grouping parameter named by the path, by default or of its own. Body batching accepts request order or the debug build's URL order.")
def p08(ctx):
    recs = ctx.tlc("Merged", f"Merged.{tier(ctx)}.cfg").emitted

    def to_case(r):
        c = r["in"]
        return dict(post=c["post"], base=c["base"], reqs=[dict(query=q["query"], body=None if q["body"] == "-" else q["body"]) for q in c["reqs"]], key="id")

    def judge(r, o):
        c, want = r["in"], r["out"]
        if o.get("m") != ("POST" if c["post"] else "GET"):
            return f"method {o}"
        if o["query"] != want["query"]:
            return f"merged query {o['query']}, specification {want['query']}"
        if not c["post"]:
            return None if o["body"] is None else f"a GET carries the body {o['body']}"
        bodies = want["bodies"]
        if len(c["reqs"]) == 1:
            ok = [bodies[0] if bodies else None, "[%s]" % ",".join(bodies)] if bodies else [None, "", "[]"]
        else:
            ok = ["[%s]" % ",".join(bodies), "[%s]" % ",".join(sorted(bodies))]
            if not bodies:
                ok += [None, ""]
        return None if o["body"] in ok else f"merged body {o['body']}, specification {ok}"
    ctx.functional("merged", recs, to_case, judge)

    def whole(r, o):
        want = sorted(r["in"]["query"])
        return None if [sorted(q) for q in o.get("query", [])] == [want] else f"the loader called with {o.get('query', o)}, specification {want}"
    batches = [r for r in ctx.tlc("Distribute", f"Distribute.{tier(ctx)}.cfg").emitted if not r["in"]["c"]["post"] and not r["in"]["c"]["fail"]]
    seen = {}
    for r in batches:   # the call depends on the requests and the grouping only
        seen.setdefault(key([r["in"]["c"]["reqs"], r["in"]["group"], r["in"]["decoys"]]), r)
    ctx.functional("distribute", list(seen.values()), distribute_case, whole)


@check("P06", FUNC, note="All requests over a domain of URLs, bodies and (repeated) headers that differ in one or two parts, however slightly, against every designated header set: the implementation's equality, hash and "
       "map lookups induce exactly the specified partition and copies are faithful. All pairs of configured HTTP, GraphQL and gRPC calls that differ in one component "
       "(two thorough), cached one after the other or deduplicated in one operation or two requests: each receives its own answer, equal ones share one call.")
def p06(ctx):
    import c_calls
    recs = ctx.tlc("ReqIdentity", "ReqIdentity.cfg").emitted

    def judge(r, o):
        if o.get("law"):
            return o["law"]
        first, want = {}, []
        for i, e in enumerate(r["out"]):
            want.append(first.setdefault(key(e["id"]), i))
        for i, (g, w) in enumerate(zip(o["classes"], want)):
            if g != w:
                return f"designated {r['in']['sig']}: {r['out'][i]['r']} is identified with {r['out'][g]['r']}, specification with {r['out'][w]['r']}"
        return None
    ctx.functional("identity", recs, lambda r: dict(sig=r["in"]["sig"], reqs=[e["r"] for e in r["out"]]), judge)
    c_calls.run(ctx)
