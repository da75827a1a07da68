"""P06: which configured calls may share an answer, as spec/CallIdentity.tla prescribes it."""
import json
import re

from c_json import tier

PROTO = '''syntax = "proto3";
package g;
message Req { string name = 1; }
message Reply { string message = 1; }
service S { rpc Say (Req) returns (Reply) {} }
'''


def field(name, r, via):
    k = r["kind"]
    more = "" if r["hdr"] == "-" else f', headers: [{{key: "x-a", value: "{r["hdr"]}"}}]'
    more += ", dedupe: true" if via not in ("cache",) else ""
    if r["res"] != "-":
        more += f', onResponseBody: "res_{r["res"]}"'
    if r["req"] != "-":
        more += f', onRequest: "req_{r["req"]}"'
    typ = "JSON"
    if k == "http":
        if r["query"] != "-":
            more += f', query: [{{key: "id", value: "{r["query"]}"}}]'
        if r["post"]:
            more += ', method: "POST"'
        if r["body"] != "-":
            more += f', body: {{b: {r["body"]}}}'
        if r["group"] != "-":
            more += ', batchKey: ["id"]'
            typ = "[R]" if r["group"] == "list" else "R"
        d = f'@http(url: "http://{r["host"]}/{r["path"]}"{more})'
    elif k == "gql":
        if r["query"] != "-":
            more += f', args: [{{key: "x", value: "{r["query"]}"}}]'
        typ = "A"
        d = f'@graphQL(url: "http://{r["host"]}/p", name: "{r["path"]}"{more})'
    else:
        body = "" if r["body"] == "-" else f', body: {{name: "{r["body"]}"}}'
        d = f'@grpc(url: "http://{r["host"]}", method: "g.S.Say"{body}{more})'
        typ = "JSON"
    if via == "cache":
        d += f' @cache(maxAge: {r["age"] * 1000})'
    return f"{name}: {typ} {d}"


def select(name, r):
    if r["kind"] == "gql":
        return f"{name} {{ {'m' if r['body'] == 'm' else 'n'} }}"
    return f"{name} {{ id call }}" if r["group"] != "-" else name


def headers(r):
    return ([["x-c", r["client"]]] if r["client"] != "-" else []) + ([["x-o", r["other"]]] if r["other"] != "-" else [])


def rules(gen):
    e = dict(delay=5, gen=gen)
    out = []
    for host in ("one", "two"):
        out += [dict(url=f"http://{host}/g.S/Say", echo="grpc", **e)]
    return out


def to_case(rec):
    c = rec["in"]
    a, b, via = c["a"], c["b"], c["via"]
    kind = a["kind"]
    group = any(r["group"] != "-" for r in (a, b))

    def up(gen):
        l = [dict(url="*", echo=dict(http="plain", gql="gql", grpc="grpc")[kind], gen=gen, delay=5)]
        if group:   # grouped calls are answered by lists; both fields of such a case have a query or none
            l = [dict(url=f"http://{h}/{p}?id={q}", echo="list" , gen=gen, delay=5) for h in ("one", "two") for p in "pq" for q in "12"] + l
        return l
    root = "Mutation" if via == "mutation" else "Query"
    text = ('schema @server @upstream(allowedHeaders: ["x-c"]' + (", batch: {delay: 1}" if group else "") + ")"
            + (' @link(type: Protobuf, src: "g.proto")' if kind == "grpc" else "")
            + " { query: Query" + (" mutation: Mutation" if root == "Mutation" else "") + " }\n"
            + ("type Query { z: Int @expr(body: 1) }\n" if root == "Mutation" else "")
            + f"type {root} {{ {field('a', a, via)}\n {field('b', b, via)} }}\n"
            + ("type A { n: JSON m: JSON }\n" if kind == "gql" else "") + ("type R { id: String call: JSON }\n" if group else ""))
    sa, sb = select("a", a), select("b", b)
    if via in ("operation", "mutation"):
        op = "mutation " if via == "mutation" else ""
        steps = [dict(req=dict(q=f"{op}{{ {sa} {sb} }}", h=headers(a)))]
    else:
        rs = [dict(q=f"{{ {s} }}", h=headers(r)) for s, r in ((sa, a), (sb, b))]
        steps = [dict(par=rs)] if via == "requests" else [dict(req=rs[0]), dict(advance=5000), dict(rules=up(2)), dict(req=rs[1])]
    case = dict(files={"main.graphql": text, "g.proto": PROTO}, rules=up(1), steps=steps)
    if any(r["res"] != "-" or r["req"] != "-" for r in (a, b)):
        case["js"] = {"res_f": {}, "res_g": {}}
        case["cmd"] = {"req_f": dict(edit=dict(path="/f")), "req_g": dict(edit=dict(path="/g"))}
    return case


def read(r, v):
    """the components of the call whose answer v is"""
    got = {}
    res = "-"
    if isinstance(v, dict) and "js" in v:
        res, v = v["js"][4:], v["in"]
    if r["kind"] == "gql":
        v = list(v.values())[0]
    elif r["kind"] == "grpc":
        v = json.loads(v["message"])
    group = "-"
    if r["kind"] == "http" and isinstance(v, list):
        # what a call without grouping receives is the upstream's list itself
        group, v = "list" if r["group"] != "-" else "-", v[0]
    elif "call" in v:
        group = "one"
    v = v.get("call", v)
    m = re.match(r"http://(\w+)/([^?]*)(?:\?(.*))?$", v["url"])
    h = dict(v["h"])
    got = dict(host=m[1], path=m[2], query=m[3][3:] if m[3] else "-", post=v["m"] == "POST", body="-", hdr=h.get("x-a", "-"), client=h.get("x-c", "-"),
               gen=v["gen"], res=res, group=group, req="-")
    if r["kind"] == "gql":
        q = re.match(r"query \{ (\w+)(?:\(x: (\d)\))? \{ (\w) \} \}$", json.loads(v["body"])["query"].replace("mutation", "query"))
        got.update(path=q[1], query=q[2] or "-", body="m" if q[3] == "m" else "-", post=False)
    elif r["kind"] == "grpc":
        got.update(path="p", query="1", post=False, body=v["body"][-1] if v["body"].strip("\0") else "-")
    else:
        got["body"] = str(json.loads(v["body"])["b"]) if v["hasbody"] and v["body"] else "-"
        if m[2] in "fg":
            got["req"] = m[2]
    return got


def judge(rec, o):
    c, want = rec["in"], rec["out"]
    if not isinstance(o, list):
        return f"{o}"
    res = [x for s in o for x in s["res"]]
    data = {}
    for x in res:
        if "j" not in x or "errors" in x["j"]:
            return f"answered {x}"
        data.update(x["j"]["data"])
    for n, w in (("a", want["ans"][0]), ("b", want["ans"][1])):
        r = c[n]
        got = read(r, data[n])
        w = dict(w)
        if w["req"] != "-":
            w["path"] = w["req"]
        if got != w:
            return f"{n} received the answer of {got}, specification {w}"
    n = sum(len(s["calls"]) for s in o)
    return None if n == want["calls"] else f"{n} upstream calls, specification {want['calls']}"


def run(ctx):
    ctx.functional("gateway", ctx.tlc("CallIdentity", f"CallIdentity.{tier(ctx)}.cfg").emitted, to_case, judge)
