"""P30: entity lookups of a federated subgraph, as spec/Entities.tla prescribes them."""
import itertools
import json
import re

from checks import check
from c_json import FUNC, tier
from tagged import plain

TYPES = """
type Query { a: Int @expr(body: 1) c(id: ID!): C @http(url: "http://up/C/{{.args.id}}") }
type U @http(url: "http://up/U/{{.value.id}}") { id: ID! name: String f: String @http(url: "http://up/f/{{.value.id}}") }
type B %s { id: ID! name: String f: String @http(url: "http://up/f/{{.value.id}}") }
type X @expr(body: {id: "{{.value.id}}", name: "X{{.value.id}}"}) { id: ID! name: String }
type C @call(steps: [{query: "c", args: {id: "{{.value.id}}"}}]) { id: ID! name: String }
type N @http(url: "http://up/N/{{.value.k.id}}") { id: ID! k: K! name: String }
type K { id: ID! }
type T { id: ID! }
"""
ALONE, TOGETHER = '@http(url: "http://up/B/{{.value.id}}")', '@http(url: "http://up/B", query: [{key: "id", value: "{{.value.id}}"}], batchKey: ["id"])'
SEL = "__typename ... on U {id name f} ... on B {id name f} ... on X {id name} ... on C {id name} ... on N {id name}"


def record(t, i):
    r = None if i == "3" else dict(id=int(i), name=t + i)
    if i == "2":  # what the upstream calls the type is not what it is called here
        r["__typename"] = "Other" if t in "UC" else "T"
    return r


RULES = []
for i in "123":
    RULES += [dict(url=f"http://up/{t}/{i}", json=record(t, i)) for t in "UBCN"] + [dict(url=f"http://up/f/{i}", json="f" + i)]
RULES += [dict(url=f"http://up/{t}/4", error="down") for t in "UBCN"]
B4 = [dict(url="http://up/B?" + "&".join("id=" + x for x in p), error="down")
      for n in range(1, 5) for p in itertools.permutations("1234", n) if "4" in p]
RULES_B = [dict(url="http://up/B", filter=dict(param="id", path="id", data=[record("B", "2"), record("B", "1")]))]


def literal(v):
    if isinstance(v, dict):
        return "{" + ", ".join(f"{k}: {literal(x)}" for k, x in v.items()) + "}"
    return "[" + ", ".join(map(literal, v)) + "]" if isinstance(v, list) else json.dumps(v)


def rep(r, num):
    if r["t"] == "null":
        return None
    if r["t"] == "num":
        return 3
    i = int(r["id"]) if num else r["id"]
    v = dict(id=i, name="given", k=dict(id=i))
    if r["t"]:
        v["__typename"] = r["t"]
    return v


def to_case(rec):
    c = rec["in"]
    if "at" in c:
        return keys_case(c)
    sdl = "schema @server(port: 8000, enableFederation: true) %s { query: Query }" % ("@upstream(batch: {delay: 5})" if c["batch"] else "@upstream(batch: {delay: 0})" if c["num"] else "")
    reqs = []
    for l in c["reqs"]:
        v = [rep(r, c["num"]) for r in l]
        reqs.append(dict(q="{ _entities(representations: %s) { %s } }" % (literal(v), SEL)) if c["lit"] else
                    dict(q="query($r: [_Any!]!) { _entities(representations: $r) { %s } }" % SEL, v=dict(r=v)))
    rules = RULES + (B4 if any(r == dict(t="B", id="4") for l in c["reqs"] for r in l) else []) + RULES_B
    return dict(files={"main.graphql": sdl + TYPES % (TOGETHER if c["batch"] else ALONE)}, rules=rules, steps=[dict(par=reqs)])


def seen(e):
    return e if e is None else {k: str(v) if k == "id" else v for k, v in e.items()}


def judge(rec, o):
    c, out = rec["in"], rec["out"]
    if out.get("refused"):
        return None if isinstance(o, dict) and "config_error" in o else f"{c}: {str(o)[:200]}, specification: refused"
    if not isinstance(o, list):
        return f"{c}: {str(o)[:300]}"
    if "at" in c:
        return keys_judge(c, out, o[0]["res"][0])
    for l, w, g in zip(c["reqs"], out["answers"], o[0]["res"]):
        j = g.get("j")
        if not isinstance(j, dict):
            return f"{c}: answered {g}"
        if not w:
            if j.get("data") or not j.get("errors"):
                return f"{c}: representations {l} answered {j}, specification: an error"
            continue
        want = [seen(plain(e)) for e in w[0]]
        got = (j.get("data") or {}).get("_entities")
        if j.get("errors") or not isinstance(got, list) or [seen(e) for e in got] != want:
            return f"batch {c['batch']}: representations {l} answered {str(j)[:400]}, specification {want}"
    urls = [k["url"] for k in o[0]["calls"]]
    once = [f"http://up/{t}/{i}" for t in ("UCN" if c["batch"] else "UBCN") for i in out["asked"][t]] + [f"http://up/f/{i}" for i in out["f"]]
    b = [u for u in urls if u.startswith("http://up/B?")]
    rest = set(u for u in urls if u not in b)
    ids = sorted(set(i for u in b for i in re.findall(r"id=(\w*)", u)))
    batched = set(out["asked"]["B"]) if c["batch"] else set()
    if rest - set(once) or set(ids) - batched:
        return f"{c}: called {urls}, specification {once} and B {out['asked']['B']}"
    if all(out["answers"]) and (rest != set(once) or set(ids) != batched):
        return f"{c}: called {urls}, specification {once} and B {out['asked']['B']}"
    if c["batch"] and all(out["answers"]) and len(b) > 1:
        return f"{c}: B called {b}, specification one batch"
    return None


# ---- keys
def keys_case(c):
    refs = ["{{.value.%s}}" % ".".join(r) for r in c["refs"]]
    text = ("/" if c["at"] == "url" else "-").join(refs + (refs[::-1] if c["twice"] else []))
    v = json.dumps(text)
    how = dict(url='@http(url: "http://up/e/%s")' % text, query='@http(url: "http://up/e", query: [{key: "q", value: %s}])' % v, header='@http(url: "http://up/e", headers: [{key: "q", value: %s}])' % v,
               body='@http(url: "http://up/e", method: POST, body: {a: {b: %s}})' % v, expr="@expr(body: {id: 1, sku: 2, k: {id: 1, n: 2, l: {id: 1, m: 2}}, a: [%s]})" % v,
               gqlarg='@graphQL(url: "http://up/g", name: "e", args: [{key: "q", value: %s}])' % v, call='@call(steps: [{query: "c", args: {id: %s}}])' % v)[c["at"]]
    own = "".join(f' @key(fields: "{" ".join(k)}")' for k in c["own"])
    sdl = """schema @server(port: 8000, enableFederation: true) { query: Query }
type Query { a: Int @expr(body: 1) c(id: ID!): E @http(url: "http://up/C/{{.args.id}}") }
type E%s %s { id: ID! sku: ID! k: K! a: JSON }
type K { id: ID! n: ID! l: L! }
type L { id: ID! m: ID! }""" % (own, how)
    return dict(files={"main.graphql": sdl}, rules=[], steps=[dict(req=dict(q="{ _service { sdl } }"))])


def tree(text):
    """the paths of a selection of fields, and whether fields follow below; None if it is not one"""
    out, path, last = [], [], None
    for w in re.findall(r"[{}]|\w+", text):
        if w == "{":
            if last is None:
                return None
            path.append(last)
        elif w == "}":
            if not path:
                return None
            path.pop()
        else:
            last = w
            out.append(tuple(path + [w]))
    if path or len(out) != len(set(out)):
        return None
    return {(p, any(len(q) > len(p) and q[:len(p)] == p for q in out)) for p in out}


def keys_judge(c, out, g):
    sdl = ((g.get("j") or {}).get("data") or {}).get("_service", {}).get("sdl")
    if not sdl:
        return f"{c}: _service answers {str(g)[:300]}"
    m = re.search(r"type E((?: @\w+(?:\([^)]*\))?)*) \{", sdl)
    if not m:
        return f"{c}: no type E in {sdl}"
    keys = re.findall(r'@key\(fields: "([^"]*)"\)', m[1])
    want = {frozenset((tuple(p), b) for p, b in t) for t in out["trees"]}
    got = [tree(k) for k in keys]
    if len(got) != len(want) or any(t is None or frozenset(t) not in want for t in got) or len({frozenset(t) for t in got}) != len(want):
        return f"{c}: keys {keys}, specification {[sorted(w) for w in want]}"
    if "union _Entity = E" not in sdl:
        return f"{c}: E is not an entity in {sdl}"
    return None


@check("P30", FUNC, note="Lists of up to two (deeply, three) representations over five sorts of entity resolvers, unknown types, malformed representations, unknown keys and failing upstreams, as variables and as literals, with and without batching; "
       "two lists looked up at the same time; the keys announced for a type by every set of references in every place of its resolver.",
       assumptions=["entities fetched by GraphQL upstreams are not looked up here (the code does not send a selection for them yet)"])
def p30(ctx):
    for fam in ("lists", "pairs", "keys"):
        ctx.functional("gateway", ctx.tlc("Entities", f"Entities.{fam}.{'quick' if fam == 'keys' else tier(ctx)}.cfg").emitted, to_case, judge)
