"""P36: fields backed by gRPC methods, with messages in the wire format of spec/Grpc.tla."""
import base64
import json

from checks import check
from c_json import FUNC, tier
from tagged import plain, unordered

MESSAGES = """
message M { int32 i = 1; string s = 2; bool b = 3; int64 l = 4; uint32 u = 5; Color c = 6; repeated int32 ri = 7; repeated string rs = 8; Sub sub = 9;
 repeated Sub ms = 10; bytes y = 11; sint32 z = 12; optional int32 o = 13; string some_name = 16; uint64 ul = 17; fixed32 f = 18; double d = 19;
 oneof one { string oa = 20; int32 ob = 21; } repeated int64 rl = 22; map<string, int32> mp = 23; M self = 24; }
message Sub { int32 n = 1; string t = 2; }
message Item { int32 id = 1; string v = 2; string sid = 3; int64 lid = 4; }
message Batch { string tag = 1; repeated Item items = 2; }
enum Color { RED = 0; BLUE = 1; }
"""
PROTO = 'syntax = "proto3"; package pkg; service Svc { rpc Call (M) returns (M) {} rpc Many (Batch) returns (Batch) {} }' + MESSAGES
DEEP = 'syntax = "proto3"; package deep.er; service Svc { rpc Call (M) returns (M) {} rpc Other (M) returns (M) {} }' + MESSAGES
FILES = {"a.proto": PROTO, "b.proto": DEEP}
LINKS = '@link(src: "a.proto", type: Protobuf) @link(src: "b.proto", type: Protobuf)'


def case(fields, rules, q, v=None, h=None, batch=False, allowed=(), rest=""):
    up = f'@upstream(allowedHeaders: {json.dumps(list(allowed))}{", batch: {delay: 1}" if batch else ""})' if batch or allowed else ""
    sdl = f"schema {LINKS} {up} {{ query: Query }}\ntype Query {{ {fields} }}\n{rest}"
    return dict(files={**FILES, "main.graphql": sdl}, entry=["main.graphql"], rules=rules,
                steps=[dict(req=dict(q=q, v=v, h=list(map(list, h or []))))])


def grpc(url="http://up", method="pkg.Svc.Call", body='"{{.args.x}}"', more=""):
    return f'@grpc(url: "{url}", method: "{method}"{", body: " + body if body else ""}{more})'


def say(c, out):
    return case("call(x: JSON): JSON " + grpc(), [dict(url="*", bytes=[0] * 5)], "query($x: JSON) { call(x: $x) }", v=dict(x=plain(c["v"])))


def hear(c, out):
    return case("call: JSON " + grpc(body=""), [dict(url="*", bytes=out["bytes"])], "{ call }")


def status(c, out):
    h = [] if c["status"] == "none" else [["grpc-status", c["status"]]]
    h += {"none": [], "plain": [["grpc-message", "why"]], "enc": [["grpc-message", "a%20b%25"]]}[c["note"]]
    if c["details"] != "none":
        h.append(["grpc-status-details-bin", base64.b64encode(bytes(out["details"])).decode().rstrip("=")])
    return case("call: JSON " + grpc(body=""), [dict(url="*", status=c["http"], headers=h, bytes=out["bytes"])], "{ call }", batch=c["batch"])


BODY = {"none": "", "fixed": '{i: 3, sub: {t: "y"}}',
        "parts": '{i: "{{.args.n}}", s: "s-{{.args.s}}", ri: ["{{.args.n}}", 1], sub: {t: "{{.args.s}}"}}',
        "quoted": '{s: "{{.args.q}}", sub: {t: "a {{.args.q}} b"}}'}


def calls(c, out):
    kv = "[" + ", ".join('{key: "%s", value: "%s"}' % tuple(x) for x in c["h"]) + "]"
    f = "call(n: Int, s: String, q: String): JSON " + grpc(c["url"], ".".join(x for x in c["method"] if x), BODY[c["body"]], f", headers: {kv}" if c["h"] else "")
    return case(f, [dict(url="*", bytes=[0] * 5)], 'query($q: String) { call(n: 7, s: "v", q: $q) }', v=dict(q='q"\\'), h=c["client"], batch=c["batch"], allowed=["x-c"])


def batch(c, out):
    ids = [x if c["key"] == "sid" else int(x) for x in c["ids"]]
    rules = [dict(url="http://up/parents", json=[dict(p=x) for x in ids]),
             dict(url="*", bytes=out["answer"], **(dict(headers=[["grpc-status", "5"]]) if out["failed"] else {}))]
    k = c["key"]
    f = 'parents: [P] @http(url: "http://up/parents")'
    ty = "String" if k != "id" else "Int"
    rest = f'type P {{ p: JSON item: I {grpc(method="pkg.Svc.Many", body=chr(123) + k + ": " + chr(34) + "{{.value.p}}" + chr(34) + chr(125), more=f", batchKey: [{chr(34)}items{chr(34)}, {chr(34)}{k}{chr(34)}]")} }}\ntype I {{ v: String }}'
    return case(f, rules, "{ parents { item { v } } }", batch=True, rest=rest)


MAKE = dict(say=say, hear=hear, status=status, calls=calls, batch=batch)


def to_case(rec):
    return MAKE[rec["fam"]](rec["in"], rec["out"])


def failed(j):
    return bool(j.get("errors")) and (j.get("data") is None or j["data"].get("call") is None)


def judge(rec, o):
    fam, c, out = rec["fam"], rec["in"], rec["out"]
    refused = out.get("k") == "refused" and fam == "calls"
    if isinstance(o, dict) and "config_error" in o:
        return None if refused else f"configuration refused: {json.dumps(o)[:300]}"
    if not isinstance(o, list) or "j" not in (o[0].get("res") or [{}])[0]:
        return f"no answer: {json.dumps(o)[:300]}"
    if refused:
        return f"a method that does not exist was accepted: {json.dumps(o)[:200]}"
    j, sent = o[0]["res"][0]["j"], o[0]["calls"]
    if fam == "say" and out["k"] == "refused":
        return None if failed(j) and not sent else f"a value that is no such message gave {json.dumps(j)[:200]}, sent {json.dumps(sent)[:200]}"
    if fam in ("say", "calls"):
        want = out["body"]
        if len(sent) != 1 or sent[0]["m"] != "POST" or sent[0].get("bin") != want:
            return f"sent {json.dumps(sent)[:300]} {[x.get('bin') for x in sent]} rather than {want}: {json.dumps(j)[:200]}"
        if fam == "calls" and (sent[0]["url"] != out["url"] or sorted(sent[0]["h"]) != sorted(map(list, out["h"]))):
            return f"sent to {sent[0]['url']} with {sent[0]['h']}, specification {out['url']} with {out['h']}"
        return None if not j.get("errors") else f"failed: {json.dumps(j)[:300]}"
    if fam == "hear":
        want = plain(out["v"])
        got = (j.get("data") or {}).get("call")
        return None if not j.get("errors") and got == want else f"answers {json.dumps(j)[:400]} rather than {json.dumps(want)[:400]}"
    if fam == "status":
        want = out["want"]
        if want["k"] == "data":
            return None if j == {"data": {"call": plain(want["v"])}} else f"answers {json.dumps(j)[:300]}"
        if not failed(j):
            return f"no error: {json.dumps(j)[:300]}"
        if want["k"] == "status":
            ext = (j["errors"][0].get("extensions") or {})
            got = [ext.get("grpcCode"), ext.get("grpcDescription"), ext.get("grpcStatusMessage")]
            if got[:2] != [want["code"], want["text"]] or (want["note"] != "?" and got[2] != want["note"]):
                return f"the error says {json.dumps(j['errors'])[:400]}, specification {want}"
            if want["note"] != "?" and ext.get("grpcStatusDetails") != plain(want["details"]):
                return f"the error's details are {json.dumps(ext)[:400]}, specification {plain(want['details'])}"
        return None
    own = [x for x in sent if x["url"] != "http://up/parents"]
    if [x.get("bin") for x in own] != [b for b in out["calls"] if own and b == own[0].get("bin")] or len(own) != 1:
        return f"sent {[x.get('bin') for x in own]} rather than one of {out['calls']}"
    if out["failed"]:
        return None if j.get("errors") else f"the failure of the batch is not reported: {json.dumps(j)[:300]}"
    got = [(p.get("item") or {}).get("v") for p in (j.get("data") or {}).get("parents") or []]
    want = [plain(v) for v in out["vals"]]
    return None if got == want and not j.get("errors") else f"parents receive {got} ({json.dumps(j)[:200]}), specification {want}"


@check("P36", FUNC, note="messages over every kind, label and form of writing; answers by status, header and payload; batches of up to three parents (four in the thorough run). Compression, streaming and the length inside of the frame are not judged.")
def p36(ctx):
    for fam in MAKE:
        recs = ctx.tlc("Grpc", f"Grpc.{fam}.{tier(ctx)}.cfg").emitted
        ctx.functional("gateway", recs, to_case, judge)
