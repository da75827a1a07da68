"""P18 and the other properties of the HTTP surface."""
import json
from urllib.parse import quote

from checks import check
from c_json import FUNC, tier
from vlib import key
import tagged

REST_SDL = '''schema @server @upstream @link(src: "op.graphql", type: Operation) { query: Query }
type Query { e(tag: String, i: Int, s: String, f: Float, b: Boolean, body: JSON): JSON @expr(body: "{{.args}}") }
'''
TYPES = dict(i="Int", s="String", f="Float", b="Boolean", body="JSON")
VAR = dict(body="theBody")


def rest_operation(name, e):
    """One operation document for an endpoint of the specification's library."""
    used = [p[1] for p in e["p"] if p[0] == "p"] + [q[1] for q in e["q"]] + ([e["b"]] if e["b"] else [])
    used = [v for v in ("i", "s", "f", "b", "body") if v in used]
    path = "/" + "/".join(("$" if k == "p" else "") + t for k, t in e["p"])
    args = [f"method: {e['m']}", f'path: "{path}"']
    if e["q"]:
        args.append("query: {" + ", ".join(f"{k}: ${v}" for k, v in e["q"]) + "}")
    if e["b"]:
        args.append(f"body: ${VAR[e['b']]}")
    decl = ", ".join(f"${VAR.get(v, v)}: {TYPES[v]}" for v in used)
    sel = f'e(tag: "{name}"' + "".join(f", {v}: ${VAR.get(v, v)}" for v in used) + ")"
    two = name in ("E4", "E7")
    return f"query {name}{'(' + decl + ')' if decl else ''} @rest({', '.join(args)}) {{ {'a: ' if two else ''}{sel}{' z: e(tag: ' + chr(34) + 'z' + chr(34) + ')' if two else ''} }}", two


@check("P18", FUNC, note="All sets (with order) of up to two (three thorough) of fifteen endpoints against some 1,000 requests each, through the whole gateway: shorter, equal "
       "and longer paths, texts converting to none, one or several types, repeated, missing and foreign query parameters, well and malformed bodies. Percent-encoded "
       "path segments are not judged.")
def p18(ctx):
    recs = ctx.tlc("Rest", f"Rest.{tier(ctx)}.cfg").emitted

    def url(n, r):
        p = "/api" + "".join("/" + quote(s, safe="") for s in r["p"])
        if n % 3 == 1:
            p += "/"
        elif n % 7 == 3 and r["p"]:
            p = p.replace("/api/", "/api//", 1)
        return p + ("?" + "&".join(f"{quote(k)}={quote(v)}" for k, v in r["q"]) if r["q"] else "")

    def to_case(rec):
        i = rec["in"]
        doc = "\n".join(rest_operation(n, i["lib"][n])[0] for n in i["eps"])
        steps = []
        for n, r in enumerate(i["reqs"]):
            q = dict(m=r["m"], p=url(n, r))
            if r["m"] != "GET":
                b = r["b"]
                q["b"] = '{"a' if not b else __import__("json").dumps(tagged.plain(b[0]))
            steps.append(dict(req=q))
        return dict(files={"main.graphql": REST_SDL, "op.graphql": doc}, steps=steps)

    def judge(rec, o):
        if not isinstance(o, list):
            return f"the code {o}"
        ctx.traces += len(o)
        for r, w, got in zip(rec["in"]["reqs"], rec["out"], o):
            res = got["res"][0]
            if res.get("s") != w["status"]:
                return f"{rec['in']['eps']}: {r} answered {res}, specification {w}"
            if w["status"] == 200:
                want = dict(tag=w["tag"], **{k: tagged.plain(v) for k, v in w["vars"]})
                if rest_operation(w["tag"], rec["in"]["lib"][w["tag"]])[1]:
                    want = dict(a=want, z=dict(tag="z"))
                if key(res["j"]) != key(want):
                    return f"{rec['in']['eps']}: {r} answered {res['j']}, specification {want}"
        return None
    ctx.functional("gateway", recs, to_case, judge)

    paths = dict(none="", x="/x", i="/$i", xi="/x/$i", n="/$n", bare="/$", rel="x", slashes="//x//")
    queries = dict(none="", i="i: $i", other="k: $i", n="s: $n", const="s: 1")

    def op_case(rec):
        o = rec["in"]["op"]
        args = ([f"method: {o['method']}"] if o["method"] else []) + ([f'path: "{paths[o["path"]]}"'] if o["path"] != "none" else []) + \
            ([f"query: {{{queries[o['query']]}}}"] if o["query"] != "none" else [])
        arg = {"Int": "i", "Int!": "i", "String": "s"}.get(o["decl"], "i")
        doc = f"query q{f'($i: {o['decl']})' if o['decl'] else ''} @rest({', '.join(args)}) {{ e(tag: \"t\"{f', {arg}: $i' if o['decl'] else ''}) }}"
        return dict(files={"main.graphql": REST_SDL, "op.graphql": doc},
                    steps=[dict(req=dict(m=r["m"], p=url(0, r), **(dict(b="1") if r["m"] == "POST" else {}))) for r in rec["in"]["reqs"]])

    def op_judge(rec, o):
        want, op = rec["out"], rec["in"]["op"]
        if not want["ok"] or not isinstance(o, list):
            return None if not want["ok"] and "config_error" in o else f"{op}: {json.dumps(o)[:300]}, specification {want}"
        for r, w, got in zip(rec["in"]["reqs"], want["answers"], o):
            res = got["res"][0]
            expect = dict(tag="t")
            if op["decl"]:
                expect["s" if op["decl"] == "String" else "i"] = tagged.plain(w["v"])
            if res.get("s") != w["status"] or (w["status"] == 200 and key(res["j"]) != key(expect)):
                return f"{op}: {r} answered {res}, specification {w}"
        return None
    ctx.functional("gateway", ctx.tlc("Rest", "Rest.ops.cfg").emitted, op_case, op_judge)


def sdl(v):
    """A value as a GraphQL literal."""
    if isinstance(v, dict):
        return "{" + ", ".join(f"{k}: {sdl(x)}" for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(sdl(x) for x in v) + "]"
    if isinstance(v, Enum):
        return str(v)
    return __import__("json").dumps(v, ensure_ascii=False)


class Enum(str):
    pass


@check("P19", FUNC, note="Credentials, headers, methods, origins and exposed headers in all combinations, private network, max-age and vary crossed with them in part "
       "(fully in the thorough tier), against 36 requests each, through the whole gateway; an exposed-headers header without a value counts as absent.")
def p19(ctx):
    recs = ctx.tlc("Cors", f"Cors.{tier(ctx)}.cfg").emitted

    def to_case(rec):
        k = rec["in"]["config"]
        b = {"true": True, "false": False}
        cors = {}
        for name, f in (("allowCredentials", "cred"), ("allowPrivateNetwork", "priv")):
            if k[f]:
                cors[name] = b[k[f][0]]
        for name, f in (("allowHeaders", "headers"), ("allowOrigins", "origins"), ("exposeHeaders", "expose")):
            if k[f]:
                cors[name] = k[f]
        if k["methods"]:
            cors["allowMethods"] = [Enum(m) for m in k["methods"]]
        if k["age"]:
            cors["maxAge"] = int(k["age"][0])
        if k["vary"]:
            cors["vary"] = k["vary"][0]
        h = dict(custom=[dict(key="vary", value="x-base"), dict(key="x-base", value="1")])
        if k["cors"]:
            h["cors"] = cors
        text = 'schema @server(headers: %s) @upstream { query: Query }\ntype Query { a: Int @http(url: "http://up/a") }\n' % sdl(h)
        steps = []
        for r in rec["in"]["reqs"]:
            hs = [["origin", r["origin"][0]]] if r["origin"] else []
            if r["priv"]:
                hs.append(["access-control-request-private-network", "true"])
            q = dict(m=r["m"], h=hs)
            if r["m"] == "POST":
                q["q"] = "{ a }"
            if r["m"] == "GET":
                q["p"] = "/status"
            steps.append(dict(req=q))
        return dict(files={"main.graphql": text}, steps=steps, rules=[dict(url="http://up/a", json=7)])

    def judge(rec, o):
        refused = isinstance(o, dict) and "config_error" in o
        if not rec["out"]:
            return None if refused else f"accepted {rec['in']['config']}"
        if not isinstance(o, list):
            return f"{rec['in']['config']} gives {o}"
        ctx.traces += len(o)
        for r, w, got in zip(rec["in"]["reqs"], rec["out"][0], o):
            res = got["res"][0]
            if "s" not in res:
                return f"{r}: {res}"
            kind = ("query" if res.get("j") == {"data": {"a": 7}} and len(got["calls"]) == 1 else
                    "status" if res.get("j") == {"message": "ready"} and not got["calls"] else
                    "none" if res["s"] == 404 else "preflight" if res["s"] == 200 and res.get("b") == "" and not got["calls"] else "other")
            if kind != w["kind"]:
                return f"{r}: answered {res} ({kind}), specification {w['kind']}"
            hs = [h for h in res["h"] if h[0].startswith("access-control-") or h[0] == "vary"]
            hs = [h for h in hs if h != ["access-control-expose-headers", ""]]
            want = [h for h in w["headers"]]
            if kind == "query":
                want.append(["vary", "x-base"])
                if ["x-base", "1"] not in res["h"]:
                    return f"{r}: static header missing in {res}"
            if sorted(hs) != sorted(want):
                return f"{rec['in']['config']}: {r}: headers {hs}, specification {want}"
        return None
    ctx.functional("gateway", recs, to_case, judge)
