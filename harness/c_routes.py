"""P27: routing, request bodies and batches, as spec/Routing.tla prescribes them."""
import json

from checks import check
from c_json import FUNC, tier

TYPES = """{
  a: Int @http(url: "http://up/a")
  f: Int @http(url: "http://up/f")
  u: U @expr(body: {})
  w: U @http(url: "http://up/w")
  echo(x: JSON): JSON @expr(body: "{{.args.x}}")
  %s
}
type U { a: Int u: U }
type M { m: Int @http(url: "http://up/m", method: POST) }
"""
RULES = [dict(url="http://up/a", json=7, delay=5), dict(url="http://up/m", json=8), dict(url="http://up/f", error="down"), dict(url="http://up/w", json={})]
DATA = dict(a={"a": 7}, alias={"b": 7}, m={"m": 8}, echo={"echo": 5}, u={"w": {"u": None}}, intro={"__schema": {"queryType": {"name": "Query"}}}, name={"__typename": "Query"}, f={"f": None})
ELEMENTS = dict(
    a={"query": "{a}"}, alias={"query": "{b:a}"}, mut={"query": "mutation {m}"},
    var={"query": "query($x:Int!){echo(x:$x)}", "variables": {"x": 5}}, op={"query": "query A {a} query B {b:a}", "operationName": "B"},
    frag={"query": "{...F} fragment F on Query {...G} fragment G on Query {a}"}, extra={"query": "{a}", "more": [1]}, varsnull={"query": "{a}", "variables": None},
    opnull={"query": "{a}", "operationName": None}, intro={"query": "{__schema{queryType{name}}}"}, name={"query": "{__typename}"}, fail={"query": "{f}"}, unused={"query": "query($x:Int){a}", "variables": {"y": [1]}},
    novar={"query": "query($x:Int!){echo(x:$x)}"}, bad={"query": "{"}, noop={"query": "query A {a} query B {b:a}"}, unkop={"query": "query A {a}", "operationName": "B"},
    cycle={"query": "{...F} fragment F on Query {a ...F}"}, cycle2={"query": "{...F} fragment F on Query {a ...G} fragment G on Query {b:a ...F}"},
    cycle3={"query": "{u{...F}} fragment F on U {a u{...F}}"}, cycle4={"query": "{u{...F}} fragment F on U {a u{... on U{...G}}} fragment G on U {u {...F}}"},
    deep={"query": "{" * 300 + "a" + "}" * 300}, dup={"query": "query A{a} query A{a}", "operationName": "A"}, noexec={"query": "fragment F on Query {a}"}, sub={"query": "subscription {a}"}, emptyobj={},
    nullq={"query": None}, numq={"query": 1}, varslist={"query": "{a}", "variables": [1]}, varsnum={"query": "{a}", "variables": 1}, num=1, str="{a}", null=None, true=True, opnum={"query": "{a}", "operationName": 1})
OK = json.dumps(ELEMENTS["a"])
BROKEN = dict(open='{"query": "{a}"', trail=OK + "x", twice=OK + OK, text="{a}", utf8=b'{"query": "{a}\xff"}', nul=b"\0", long=b" " * 70000, nested="[" * 300 + "]" * 300,
              nested2='{"variables": ' + "[" * 300 + "]" * 300 + "}", comma='{"query": "{a}",}')
BROKEN[""] = ""
PIECES = dict(q="q", esc="\\n", quote='\\"', slash="\\\\", uni="ü", wide="\u200b", astral="\U0001f600", hex="\\u0041", brace="}", hash="#", newline="\n", close='"', badesc="\\q")
PIECES["del"] = "\x7f"
MEANS = dict(q="q", nl="\n", quo='"', bs="\\", uml="ü", zws="\u200b", smile="\U0001f600", A="A", brace="}")
MEANS.update({"#": "#", "del": "\x7f"})


def schema(server="", rest=False, more=""):
    return f"schema @server({server or 'port: 8000'}) {more} {{ query: Query mutation: M }}\ntype Query " + TYPES % ""


def body(b):
    if isinstance(b, bytes):
        return dict(bytes=list(b))
    return dict(b=b)


def to_case(rec):
    c, out = rec["in"], rec["out"]
    files, steps = {}, []
    if c["kind"] == "path":
        k = c["cfg"]
        named = [f'{n}: "{k[i]}"' for n, i, usual in (("graphQL", "gql", "/graphql"), ("status", "status", "/status")) if k[i] != usual]
        server = (f'routes: {{{", ".join(named)}}}, ' if named else "") + f'batchRequests: {json.dumps(k["batch"])}, showcase: {json.dumps(k["showcase"])}'
        more = f'@telemetry(export: {{prometheus: {{path: "{k["metrics"]}"}}}})' if k["metrics"] else ""
        if k["rest"]:
            more += ' @link(type: Operation, src: "ops.graphql")'
            files["ops.graphql"] = 'query @rest(method: GET, path: "/x") { a }\n'
        files["main.graphql"] = schema(server, more=more)
        for r in out["reqs"]:
            steps.append(dict(req=dict(m=r["m"], p=r["p"] + r["t"], **({} if r["m"] in ("GET", "HEAD") else dict(b=OK)))))
    elif c["kind"] == "text":
        files["main.graphql"] = schema("batchRequests: " + json.dumps(c["on"]))
        text = '{echo(x:"=' + "".join(PIECES[p] for p in c["t"]) + '")}'
        steps = [dict(req=dict(b=json.dumps({"query": text}))), dict(req=dict(b=text, h=[["content-type", "application/graphql"]]))]
    elif c["kind"] == "chain":
        files["main.graphql"] = schema()
        on, inner = ("Query", "...F%d") if c["via"] == "spread" else ("U", "u {...F%d}")
        text = ["{...F0}" if on == "Query" else "{w {...F0}}"] + [f"fragment F{i} on {on} {{ {inner % (i + 1)} }}" for i in range(c["n"])] + [f"fragment F{c['n']} on {on} {{ a }}"]
        steps = [dict(req=dict(b=json.dumps({"query": " ".join(text)})))]
    else:
        files["main.graphql"] = schema("batchRequests: " + json.dumps(c.get("on", True)))
        h = [["content-type", c["ct"]]] if c.get("ct") else []
        bodies = out["reqs"] or [["list", c["es"]]]
        for kind, what in bodies:
            if kind == "broken":
                b = BROKEN[what[0]]
            else:
                es = [ELEMENTS[e] for e in what]
                b = json.dumps(es[0] if kind == "one" else es)
            steps.append(dict(req=dict(h=h, **body(b))))
        if c["kind"] == "batch":
            steps += [dict(req=dict(b=json.dumps(ELEMENTS[e]))) for e in c["es"]]
    return dict(files=files, steps=steps, rules=RULES)


def one(want, j):
    """Is j the answer of a single operation?"""
    kind, data = want
    if not isinstance(j, dict):
        return False
    if kind == "data":
        return j == {"data": DATA[data]}
    if kind == "partial":
        return j.get("data") in (None, DATA[data]) and bool(j.get("errors"))
    return not j.get("data") and bool(j.get("errors"))


def judge(rec, o):
    c, out = rec["in"], rec["out"]
    if not isinstance(o, list):
        if c["kind"] == "chain" and c["n"] > 2000 and "crash" in o:
            return f"a chain of {c['n']} fragments ends the process", "fragment-chain"
        return f"{c} gives {o}"
    got = [s["res"][0] for s in o]
    calls = [[x["url"].rsplit("/", 1)[1] for x in s["calls"]] for s in o]
    for g in got:
        if "s" not in g:
            return f"{c}: not answered but {str(g)[:300]}"
    if c["kind"] == "path":
        for r, w, g, k in zip(out["reqs"], out["out"], got, calls):
            is_ = ("query" if g.get("j") == {"data": {"a": 7}} and k == ["a"] and g["s"] == 200 else
                   "rest" if g.get("j") == 7 and k == ["a"] and g["s"] == 200 else
                   "status" if g.get("j") == {"message": "ready"} and g["s"] == 200 and not k else
                   "showcase" if g["s"] == 200 and isinstance(g.get("j"), dict) and g["j"].get("errors") and not k else
                   "metrics" if g["s"] == 200 and ["content-type", "text/plain; version=0.0.4"] in g["h"] and not k else
                   "none" if g["s"] == 404 and not k else "other")
            if is_ != w:
                return f"{c['cfg']}: {r} answered as {is_} ({str(g)[:200]}), specification {w}"
        return None
    if c["kind"] == "chain":
        w, g = out["out"][0], got[0]
        return None if one(w, g.get("j")) else f"{c}: answered {str(g)[:300]}, specification {w}"
    if c["kind"] == "text":
        w = out["out"][0]
        for g, how in zip(got, ("JSON", "application/graphql")):
            ok = g.get("j") == {"data": {"echo": "=" + "".join(MEANS[m] for m in w["v"])}} if w["ok"] else one(["error", ""], g.get("j"))
            if not ok or g["s"] != 200:
                return f"text {c['t']} as {how}: answered {str(g)[:300]}, specification {w}"
        return None
    bodies = out["reqs"] or [["list", c["es"]]]
    for j, (b, w) in enumerate(zip(bodies, out["out"])):
        g, k = got[j], calls[j]
        if g["s"] != 200 or "j" not in g:
            return f"{b}: answered {str(g)[:300]}, specification {w}"
        g = g["j"]
        ok = (one(["error", ""], g) if w["kind"] == "error" else one(w["answers"][0], g) if w["kind"] == "single" else
              isinstance(g, list) and len(g) == len(w["answers"]) and all(one(x, y) for x, y in zip(w["answers"], g)))
        if not ok:
            return f"{b} (batches {'on' if c.get('on', True) else 'off'}): answered {str(g)[:300]}, specification {w}"
        if sorted(k) != sorted(w["calls"]):
            return f"{b}: upstream calls {k}, specification {w['calls']}"
        if c["kind"] == "batch" and w["kind"] == "batch":
            alone = [x.get("j") for x in got[1:]]
            if g != alone:
                return f"{b}: answered {str(g)[:300]}, alone {str(alone)[:300]}"
    return None


@check("P27", FUNC, note="Every method and path over every combination of routes, metrics, REST, showcase and batching; every body of the pool (well formed, malformed, nested, cyclic) under each content type and with batches on and off; "
       "every batch of up to three of eleven operations against the same operations alone; every application/graphql text with a literal of up to two pieces against its JSON form.")
def p27(ctx):
    for f in ("path", "body", "batch", "text", "chain"):
        ctx.functional("gateway", ctx.tlc("Routing", f"Routing.{f}.{tier(ctx)}.cfg").emitted, to_case, judge)
