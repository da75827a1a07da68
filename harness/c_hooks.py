"""P33: hooks of requests and answers in the real script engine, as spec/Hooks.tla prescribes them."""
import json
from urllib.parse import parse_qsl, quote, urlsplit

from checks import check
from c_json import FUNC, tier
from tagged import plain

SCRIPT = """
function same({request}) { return {request} }
function seen({request}) { return {response: {status: 200, headers: {}, body: JSON.stringify(request)}} }
function both({request}) { return {request, response: {status: 200, headers: {}, body: '{"script": 1}'}} }
function moved({request}) { if (request.uri.path === "/moved") return {request};
  return {response: {status: 301, headers: {location: "/moved"}, body: "1"}} }
function movedodd({request}) { if (request.uri.path === "/moved") return {request};
  return {response: {status: 302, headers: {location: "/moved", "x-e": "\u00e9"}, body: "1"}} }
function movedtwice({request}) { if (request.uri.path === "/moved/again") return {request};
  return {response: {status: 302, headers: {location: request.uri.path === "/moved" ? "/moved/again" : "/moved"}, body: "1"}} }
function edit(f) { return ({request}) => { f(request); return {request} } }
var path = edit(r => { r.uri.path = "/new/x" })
var addquery = edit(r => { r.uri.query.n = "a&b=c d%" })
var setquery = edit(r => { r.uri.query.q = "changed" })
var dropquery = edit(r => { r.uri.query = {} })
var host = edit(r => { r.uri.host = "other" })
var port = edit(r => { r.uri.port = 99 })
var noport = edit(r => { r.uri.port = undefined })
var scheme = edit(r => { r.uri.scheme = r.uri.scheme === "http" ? "https" : "http" })
var method = edit(r => { r.method = "PUT" })
var addheader = edit(r => { r.headers["x-n"] = "new" })
var setheader = edit(r => { r.headers["x-a"] = "changed" })
var dropheaders = edit(r => { r.headers = {} })
var body = edit(r => { r.body = "changed" })
var nobody = edit(r => { r.body = undefined })
function fresh() { return {request: {method: "PUT", uri: {scheme: "https", host: "up", port: 44, path: "/fresh", query: {z: "1"}}, headers: {"x-z": "z"}, body: "fresh"}} }
function answer() { return {response: {status: 201, headers: {"x-r": "1"}, body: '{"script": 1}'}} }
function answertext() { return {response: {status: 200, headers: {}, body: "no json"}} }
function answernothing() { return {response: {status: 200, headers: {}}} }
function throw_() { throw new Error("no") }
function undefined_() { }
function null_() { return null }
function number() { return 1 }
function text() { return "text" }
function empty() { return {} }
function array() { return [] }
function nourl({request}) { return {request: {method: request.method, headers: request.headers}} }
function badstatus() { return {response: {status: 99999, headers: {}, body: "1"}} }
function badanswer() { return {response: {status: "x", headers: 1, body: "1"}} }
var badmethod = edit(r => { r.method = "B AD" })
var badheader = edit(r => { r.headers["x y"] = "1" })
var badport = edit(r => { r.uri.port = 70000 })
var badscheme = edit(r => { r.uri.scheme = "ftp" })
var badqueryvalue = edit(r => { r.uri.query.q = {} })
function wrap(v) { return JSON.stringify({w: JSON.parse(v)}) }
function id(v) { return v }
function nullid(v) { return "null" }
function throwing(v) { throw new Error("no") }
function nothing(v) { }

function nojson(v) { return "{" }
"""
NAME = {"throw": "throw_", "undefined": "undefined_", "null": "null_"}
HEADER = "content-type"


def to_case(rec):
    c = rec["in"]
    r = c["req"]
    names, kv = {}, lambda l: "[" + ", ".join('{key: "%s", value: %s}' % (k, json.dumps(v)) for k, v in l) + "]"
    query, args = [], {}
    for i, (k, v) in enumerate(r["query"]):
        query.append((k, "{{.args.a%d}}" % i))
        args[f"a{i}"] = v
    hooks = ('' if c["f"] == "none" else f', onRequest: "{NAME.get(c["f"], c["f"])}"') + \
        ('' if c["g"] == "none" else f', onResponseBody: "{"nullid" if c["g"] == "null" else c["g"]}"')
    sig = "(" + ", ".join(f"{a}: String!" for a in args) + ")" if args else ""
    url = f"{r['scheme']}://{r['host']}{':' + r['port'] if r['port'] else ''}{r['path']}"
    http = f'@http(url: "{url}", method: {r["m"]}, query: {kv(query)}, headers: {kv(r["h"])}{", body: " + json.dumps(r["body"]) if r["body"] else ""}{hooks})'
    sdl = 'schema @server(port: 8000) %s { query: Query }\nscalar J\ntype Query { f%s: JSON %s }' % (
        "@upstream(batch: {delay: 1})" if c["batch"] else "", sig, http)
    q = "{ f" + ("(" + ", ".join(f"{a}: {json.dumps(v, ensure_ascii=False)}" for a, v in args.items()) + ")" if args else "") + " }"
    return dict(files={"main.graphql": sdl}, entry=["main.graphql"], script=SCRIPT, rules=[dict(url="*", json={"n": 1})], steps=[dict(req=dict(q=q))])


def wire(r):
    """what a request of the specification is on the wire"""
    headers = sorted(map(list, r["h"]))
    return dict(m=r["m"], scheme=r["scheme"], host=r["host"], port=r["port"], path=r["path"], query=sorted(map(list, r["query"])), h=headers, body=json.dumps(r["body"]) if r["body"] == "text" else r["body"])


def sent(call):
    u = urlsplit(call["url"])
    return dict(m=call["m"], scheme=u.scheme, host=u.hostname, port=str(u.port or ""), path=u.path,
                query=sorted(map(list, parse_qsl(u.query, keep_blank_values=True))),
                h=sorted([k, v] for k, v in call["h"] if k != HEADER), body=call.get("body") or "")


def text(b):
    return "" if b is None else b if isinstance(b, str) else json.dumps(b)


def judge(rec, o):
    c, want = rec["in"], rec["out"]
    if "res" not in (o[0] if isinstance(o, list) else {}):
        return f"no answer: {json.dumps(o)[:300]}"
    step = o[0]
    res = step["res"][0]
    twice = len({k for k, _ in c["req"]["query"]}) < len(c["req"]["query"]) and c["f"] != "none"
    calls = [sent(x) for x in step["calls"]]
    expect = [wire(r) for r in want["calls"]]
    known = (lambda what: (what, "repeated-query")) if twice else (lambda what: what)
    if "j" not in res:
        return f"no JSON answer: {json.dumps(res)[:300]}"
    got = plain(res["j"]) if isinstance(res["j"], dict) and "t" in res["j"] else res["j"]
    failed = bool(got.get("errors"))
    if want["maybe"]:
        if not failed and calls != expect:
            return f"sent {calls} rather than {expect}, the hook having returned nothing"
        return None
    if calls != expect:
        return known(f"sent {calls} rather than {expect}")
    a = want["answer"]
    if a["from"] == "error":
        return None if failed else f"answer {got} although the hook fails"
    if failed:
        return f"fails: {got}"
    data = got["data"]["f"]
    if a["wrapped"]:
        if not isinstance(data, dict) or set(data) != {"w"}:
            return f"the answer {data} was not wrapped once"
        data = data["w"]
    if a["from"] == "seen":
        r = want["saw"]
        uri = data["uri"]
        see = dict(m=data["method"], scheme=uri["scheme"], host=uri["host"], port=str(uri.get("port") or ""), path=uri["path"],
                   query=sorted(map(list, uri["query"].items())), h=sorted([k, v] for k, v in data["headers"].items() if k != HEADER), body=text(data.get("body")))
        return None if see == wire(r) else known(f"the script sees {see} rather than {wire(r)}")
    full = {"upstream": {"n": 1}, "script": {"script": 1}, "null": None}[a["from"]]
    return None if data == full else f"answer {data} rather than {full}"


def value_case(rec):
    c = rec["in"]
    sdl = 'schema @server(port: 8000) @link(src: "s.js", type: Script) { query: Query }\ntype Query { a: A @http(url: "http://up/a") }\ntype A { x: JSON y: JSON @js(name: "%s") }' % \
        dict(null="nullid").get(c["f"], c["f"])
    return dict(files={"main.graphql": sdl, "s.js": SCRIPT}, entry=["main.graphql"], script=SCRIPT, rules=[dict(url="http://up/a", text='{"x": %s}' % c["text"])],
                steps=[dict(req=dict(q="{ a { y } }"))])


def judge_value(rec, o):
    c, want = rec["in"], rec["out"]
    step = o[0] if isinstance(o, list) else {}
    res = step.get("res", [{}])[0]
    if "j" not in res:
        return f"no answer: {json.dumps(o)[:300]}"
    got = plain(res["j"]) if isinstance(res["j"], dict) and "t" in res["j"] else res["j"]
    if want == "error" or got.get("errors"):
        return None if want in ("error", "open") and got.get("errors") else f"{c['f']} of {c['text']}: {got}"
    v = {"x": json.loads(c["text"])}
    y = got["data"]["a"]["y"]
    full = {"same": v, "wrapped": {"w": v}, "null": None, "open": y}[want]
    return None if y == full and type(y) is type(full) else f"{c['f']} of {c['text']} gives {y}"


@check("P33", FUNC)
def p33(ctx):
    for family in ("requests", "functions"):
        ctx.functional("gateway", ctx.tlc("Hooks", f"Hooks.{family}.{tier(ctx) if family == 'requests' else 'quick'}.cfg").emitted, to_case, judge)
    ctx.functional("gateway", ctx.tlc("Hooks", "Hooks.values.quick.cfg").emitted, value_case, judge_value)
