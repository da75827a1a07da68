"""P21, P22: sessions with a gateway, as spec/Session.tla prescribes them."""
import json

from checks import check
from c_json import FUNC, tier
from c_auth import credential, sha
import tagged

BUMP, TICK = [0], [1000]
MEMORY = """schema @server @upstream(allowedHeaders: ["xa"]) { query: Query }
type Query {
  c: String @expr(body: "c")
  k(x: Int = 7): JSON @expr(body: "{{.args}}")
  ko(o: In): JSON @expr(body: "{{.args}}")
  v: Int @http(url: "http://up/v"%(more)s)
  cv(x: Int!): Int @http(url: "http://up/cv", query: [{key: "x", value: "{{.args.x}}"}]%(more)s) @cache(maxAge: 1000)
  hq: Int @http(url: "http://up/hq", query: [{key: "h", value: "{{.headers.xa}}"}]%(more)s) @cache(maxAge: 1000)
  hdr: String @expr(body: "{{.headers.xa}}")
}
input In { a: Int b: String }
"""
AUTH = """schema @server @upstream(allowedHeaders: ["authorization"])
  @link(id: "p1", type: Htpasswd, src: "p1.txt") @link(id: "p2", type: Htpasswd, src: "p2.txt") { query: Query mutation: Mutation }
type Query {
  c: String @expr(body: "c")
  s: String @expr(body: "s") @protected
  t: String @expr(body: "t") @protected(id: ["p1"])
  y: Y @expr(body: {})
  v: Int @http(url: "http://up/v"%(more)s)
  w: Int @http(url: "http://up/w"%(more)s) @protected
  kept: Int @http(url: "http://up/kept"%(more)s) @cache(maxAge: 1000) @protected(id: ["p1"])
  u: U @http(url: "http://up/u"%(more)s)
  us: [U] @http(url: "http://up/us"%(more)s)
  o: O @http(url: "http://up/o"%(more)s)
  ab: I @http(url: "http://up/ab"%(more)s) @discriminate(field: "type")
}
type Mutation {
  m: Int @http(url: "http://up/m", method: POST, body: {}) @protected(id: ["p1"])
  n: Int @http(url: "http://up/n", method: POST, body: {})
}
type Y { t2: String @expr(body: "t2") @protected(id: ["p2"]) w2: Int @http(url: "http://up/w2"%(more)s) @protected(id: ["p2"]) }
type U { a: String b: String @expr(body: "b") @protected d: Int @http(url: "http://up/d"%(more)s) @protected(id: ["p1"]) }
interface I { n: Int }
type O implements I @protected(id: ["p2"]) { n: Int a: String }
type Q implements I { n: Int q: String }
"""
PEOPLE = {"p1.txt": f"alice:{sha('pw')}\ncarol:{sha('pw3')}\n", "p2.txt": f"bob:{sha('pw2')}\ncarol:{sha('pw3')}\n"}
WHO = dict(none=["none"], wrong=["basic", "alice", "no"], alice=["basic", "alice", "pw"], bob=["basic", "bob", "pw2"], carol=["basic", "carol", "pw3"])


def rules(family, ver):
    paths = ["v", "cv", "hq"] if family == "memory" else ["v", "w", "w2", "d", "m", "n", "kept"]
    out = [dict(url=f"http://up/{p}", json=ver, delay=5) for p in paths]
    if family == "auth":
        out += [dict(url=f"http://up/{p}", json=j, delay=5) for p, j in
                dict(u=dict(a="a"), us=[dict(a="a"), dict(a="a")], o=dict(n=5, a="a"), ab=dict(type="O", n=5, a="a")).items()]
    return out


def request(r):
    h = ([["xa", r["hdr"]]] if r["hdr"] else []) + [list(x) for x in credential(WHO[r["cred"]])]
    return dict(q=r["q"], h=h, **(dict(op=r["op"][0]) if r["op"] else {}), **(dict(v={a: tagged.plain(b) for a, b in r["vars"]}) if r["vars"] else {}))


def session(ctx, cfg, family):
    recs = ctx.tlc("Session", cfg).emitted
    reqs = next(r["reqs"] for r in recs if "reqs" in r)
    recs = [r for r in recs if "log" in r]

    def to_case(rec):
        steps, ver = [], 1
        for x in rec["log"]:
            s = x["step"]
            if s == BUMP:
                ver += 1
                steps.append(dict(rules=rules(family, ver)))
            elif s == TICK:
                steps.append(dict(advance=600))
            else:
                rs = [request(reqs[n - 1]) for n in s]
                steps.append(dict(req=rs[0]) if len(rs) == 1 else dict(par=rs))
        more = dict(more=", dedupe: true" if rec["dedupe"] else "")
        files = {"main.graphql": MEMORY % more} if family == "memory" else dict(PEOPLE, **{"main.graphql": AUTH % more})
        return dict(files=files, rules=rules(family, 1), steps=steps)

    def story(rec):
        names = {0: "data changes", 1000: "time passes"}
        return " / ".join(" & ".join(names[n] if n in names else json.dumps({k: v for k, v in reqs[n - 1].items() if v}) for n in x["step"]) for x in rec["log"])

    def judge(rec, o):
        if not isinstance(o, list):
            return f"the code {o}"
        for x, got in zip(rec["log"], o):
            if x["step"] in (BUMP, TICK):
                continue
            refused = [w[0] == "refused" for w in x["out"]]
            for w, r in zip(x["out"], got["res"]):
                j = r.get("j")
                if w[0] == "data":
                    ok = j == dict(data=tagged.plain(w[1])) and list(j["data"]) == list(tagged.plain(w[1]))
                elif j is None:
                    ok = False
                else:
                    ok = j.get("data") is None and len(j.get("errors") or []) > 0
                if not ok:
                    return f"{story(rec)}: answered {json.dumps(j or r)}, expected {w[0]} {json.dumps(tagged.plain(w[1])) if w[1:] else ''}"
            if all(refused) and got["calls"]:
                return f"{story(rec)}: calls made for a refused request: {[c['url'] for c in got['calls']]}"
        return None

    ctx.functional("gateway", recs, to_case, judge)


@check("P22", FUNC, note="All sessions of three steps (thorough also four over the requests that share something) out of 25 requests (several operations in one text, "
       "variables in arguments, conditions and input objects, constants, header-dependent and cached fields, errors), changes of the data, the passing of time, and "
       "pairs of requests with the same text at the same time; resolvers deduplicated or not.")
def p22(ctx):
    session(ctx, "Session.memory.cfg", "memory")
    if tier(ctx) == "thorough":
        session(ctx, "Session.memory.thorough.cfg", "memory")


@check("P21", FUNC, note="All sessions of two steps (thorough: three over the requests that may leak) out of 20 operations (constant, fetched, cached, nested, listed, fragment, "
       "protected type, several operations, conditions, mutations) with five credentials (none, wrong, accepted by one provider, the other, both), and pairs with the "
       "same text at the same time; resolvers deduplicated or not.")
def p21(ctx):
    session(ctx, "Session.auth.cfg", "auth")
    if tier(ctx) == "thorough":
        session(ctx, "Session.auth.thorough.cfg", "auth")
