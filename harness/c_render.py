"""P28: upstream requests rendered from templates, as spec/Render.tla prescribes them."""
import json
from urllib.parse import quote, unquote, unquote_plus, urlsplit

from checks import check
from c_http import Enum, sdl
from c_json import FUNC, tier
from tagged import plain

CHARS = {"~u": "ü", "~n": "\n", "~z": "\0", "~e": "\U0001f600"}
Y = "Y&=/"
UP = "http://up.test"


def real(v):
    """A text or value of the specification with its placeholders replaced."""
    if isinstance(v, str):
        for k, c in CHARS.items():
            v = v.replace(k, c)
        return v
    if isinstance(v, list):
        return [real(x) for x in v]
    if isinstance(v, dict):
        return {real(k): real(x) for k, x in v.items()}
    return v


def template(ps, src, literal=lambda t: t):
    name = dict(args="args.x", value="value.x", headers="headers.hx", vars="vars.v", env="env.E")[src]
    # the second text is an argument of the same field, the missing one a field nobody has
    return "".join(literal("t-") if p == "T" else "{{.%s}}" % dict(X=name, Y="args.y", M="args.m")[p] for p in ps)


def jtemplate(b, src):
    k = b[0]
    if k == "p":
        return template(b[1], src)
    if k == "a":
        return [jtemplate(x, src) for x in b[1]]
    if k == "o":
        return {a: jtemplate(x, src) for a, x in b[1]}
    return real(plain(b))


def literal(t, v):
    """The value as a GraphQL literal of the type."""
    if t.strip("[]!") == "E":
        v = [Enum(x) for x in v] if isinstance(v, list) else Enum(v)
    return sdl(v)


def to_case(rec):
    c, src = rec["in"], rec["in"]["src"]
    typ, v = c["v"][0], real(plain(c["v"][1]))
    typ += "!" if c["kind"] == "path" else ""
    text = v if isinstance(v, str) else ""
    base = "&".join(f"{k}={template(ps, src)}" for k, ps in c.get("base", []))
    path = "/u" + "".join("/" + template(s, src) for s in c.get("ss", []))
    http = dict(url=UP + path + ("?" + base if base else ""))
    if c["kind"] == "query":
        http["query"] = [dict(key=e["k"], value=template(e["ps"], src), **(dict(skipEmpty=True) if e["skip"] else {})) for e in c["es"]]
    if c["kind"] in ("body", "head"):
        http["method"] = Enum(c["m"])
        http["encoding"] = Enum("ApplicationJson" if c["enc"] == "json" else "ApplicationXWwwFormUrlencoded")
    if c["kind"] == "body":
        http["body"] = jtemplate(c["body"], src)
    if c["kind"] == "head":
        http["headers"] = [dict(key="h1", value=template(c["ps"], src))]
    mine = "h1" if c.get("same") else "h2"
    upstream = dict(allowedHeaders=["hx", "h1", "H2"])
    if c.get("via") == "loader":
        upstream["batch"] = dict(delay=1)
    if c.get("via") == "dedupe":
        http["dedupe"] = True
    args = dict(args=f"x: {typ}, y: String!").get(src, "y: String!") + ", m: Int"
    if c["kind"] == "path":
        args = args.replace("m: Int", "m: Int!=1")
    call = f"q({args}): JSON @http({', '.join(f'{k}: {sdl(x)}' for k, x in http.items())})"
    server = f"@server(vars: [{{key: \"v\", value: {sdl(text)}}}])" if src == "vars" else ""
    root = "o: O @http(url: \"http://parent.test/o\")" if src == "value" else call
    typ0 = "JSON!" if c["kind"] == "path" else "JSON"
    obj = f"type O {{ x: {typ0} {call} }}" if src == "value" else ""
    main = f"schema {server} @upstream({', '.join(f'{k}: {sdl(x)}' for k, x in upstream.items())}) {{ query: Query }}\ntype Query {{ {root} }}\n{obj}\nenum E {{ ONE TWO }}\ninput In {{ k: Int }}\n"
    h = [["hx", text]] if src == "headers" else []
    h += [[mine, "".join(c["client"])]] if c.get("client") else []
    one = lambda a, d, vs: dict(req=dict(q=f"query{d} {{ o {{ q({a}) }} }}" if src == "value" else f"query{d} {{ q({a}) }}", v=vs, h=h))
    y = f"y: {sdl(Y)}"
    steps = ([one(f"x: $x, {y}", f"($x: {typ})", dict(x=v)), one(f"x: {literal(c['v'][0], v)}, y: $y", "($y: String!)", dict(y=Y))] if src == "args" else [one(y, "", {})])
    rules = [dict(url="http://parent.test/o", json=dict(x=v))] if src == "value" else []
    env = dict(E=text) if src == "env" else {}
    return dict(files={"main.graphql": main}, steps=steps, rules=rules + [dict(url="*", json=1)], env=env)


def pairs(q):
    return [[unquote_plus(k), [] if not eq else [unquote_plus(v)]] for k, eq, v in (p.partition("=") for p in (q.split("&") if q else []))]


def judge(rec, o):
    c, out = rec["in"], rec["out"]
    where = {k: v for k, v in c.items() if k != "kind"}
    if not isinstance(o, list):
        return f"{where}: {str(o)[:300]}"
    for s in o:
        calls = [x for x in s["calls"] if not x["url"].startswith("http://parent.test")]
        res = s["res"][0]
        data = res.get("j", {}).get("data") if isinstance(res.get("j"), dict) else None
        if len(calls) != 1 or data not in ({"q": 1}, {"o": {"q": 1}}):
            return f"{where}: {len(calls)} calls, answered {str(res)[:300]}"
        x = calls[0]
        u = urlsplit(x["url"])
        if c["kind"] in ("query", "path"):
            if u.scheme + "://" + u.netloc != UP or u.fragment or x["m"] != "GET" or x["hasbody"]:
                return f"{where}: sent {x}"
            path, query = [unquote(p) for p in u.path.split("/")[1:]], pairs(u.query)
            if path != real(out["path"]):
                return f"{where}: path {path} ({x['url']}), specification {real(out['path'])}"
            want = real(out["query"])
            if out["open"]:
                query, want = ([p for p in q if p[1] not in ([""], [])] for q in (query, want))
            if query != want:
                return f"{where}: query {query} ({x['url']}), specification {want}"
            continue
        if x["url"] != UP + "/u" or x["m"] != c["m"]:
            return f"{where}: sent {x}"
        ct = [b for a, b in x["h"] if a == "content-type"]
        want = [] if c["m"] == "GET" else ["application/json" if c["enc"] == "json" else "application/x-www-form-urlencoded"]
        if ct != want:
            return f"{where}: content types {ct}, specification {want}"
        if c["kind"] == "body":
            w = out["body"]
            if w["kind"] == "open":
                continue
            if w["kind"] == "form":
                got, w = pairs(x["body"]), real(w["v"])
            else:
                w = real(plain(w["v"]))
                try:
                    got = json.loads(x["body"])
                except ValueError:
                    return f"{where}: body {x['body']!r} is no JSON"
            # texts of objects and lists are compared as values
            if got != w or json.dumps(got) != json.dumps(w) and not isinstance(got, dict):
                return f"{where}: body {x['body']!r}, specification {w}"
        else:
            got, want = [b for a, b in x["h"] if a == "h1"], real(out["head"])
            if [g.strip(" ") for g in got] != [w.strip(" ") for w in want]:
                return f"{where}: header {got}, specification {want}"
            if c["client"] and not c["same"] and [b for a, b in x["h"] if a == "h2"] != c["client"]:
                return f"{where}: headers {x['h']}"
    return None


@check("P28", FUNC, note="Every template of up to four pieces in path segments, query parameters (with skipEmpty, over base URLs with parameters of their own), JSON and form bodies, and headers, over a pool of values "
       "(reserved characters, empty, missing, numbers, enums, lists, nested lists, objects) from arguments (as variables and as literals), parent values, headers, vars and the environment; direct, batched and deduplicated calls.")
def p28(ctx):
    for f in ("query", "entries", "path", "body", "head"):
        ctx.functional("gateway", ctx.tlc("Render", f"Render.{f}.{tier(ctx)}.cfg").emitted, to_case, judge)
