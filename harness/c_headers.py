"""P26: headers of upstream requests and of responses, as spec/Headers.tla prescribes them."""
import json

from checks import check
from c_json import FUNC, tier

CC = dict(none=[], a60=["max-age=60"], a10p=["max-age=10, private"], nc=["no-cache"], ns=["no-store"], a0=["max-age=0"], pnc=["private, no-cache"], ncp=["no-cache, private, max-age=9"],
          upper=["Private, Max-Age=30"], pub5=["public, max-age=5"], huge=["max-age=99999999999"], two=["max-age=20", "private"], other=["must-revalidate"], bad=["max-age=x"])
TRACKED = {"x-a", "x-b", "x-ab", "authorization", "cookie"}


def to_case(rec):
    c = rec["in"]
    dedupe = ", dedupe: true" if c["via"] == "dedupe" else ""
    up = []
    if c["kind"] == "allow":
        up.append(f"allowedHeaders: {json.dumps(c['allow'])}")
        conf = ', headers: [{key: "x-a", value: "conf"}]' if c["conf"] else ""
        fields = f'a: Int @http(url: "http://up/a"{conf}{dedupe})'
        server = "port: 8000"
        # requests whose listed headers differ are not shared
        batch = 'delay: 1, headers: ["x-a", "x-b", "x-ab", "cookie"]'
        rules = [dict(url="*", json=1, delay=5)]
        reqs = [dict(q="{a}", h=h) for h in c["reqs"]]
    else:
        s = c["set"]
        fields = "".join(f'{f}: Int @http(url: "http://up/{f}"{dedupe}) ' for f in "ab")
        h = [f"{n}: {str(s[k]).lower()}" for n, k in (("cacheControl", "cc"), ("setCookies", "ck")) if s[k] or not s["bare"]]
        if s["x"]:
            h.append('experimental: ["X-E"]')
        if s["custom"]:
            h.append('custom: [{key: "x-c", value: "1"}, {key: "x-d", value: "2"}]')
        server = f"headers: {{{', '.join(h)}}}" if h else "port: 8000"
        batch = "delay: 1"
        rules = []
        for f in "ab":
            a = c[f]
            headers = [["cache-control", v] for v in CC[a["cc"]]] + [["set-cookie", k] for k in a["ck"]] + ([["x-e", a["x"]]] if a["x"] else []) + [["x-f", "no"]]
            rules.append(dict(url="http://up/" + f, delay=5 if f == "a" else 7, **(dict(error="down") if a["fail"] else dict(json=1, headers=headers))))
        reqs = [dict(q="{" + " ".join(r) + "}") for r in c["reqs"]]
    if c["via"] == "batch":
        up.append(f"batch: {{{batch}}}")
    upstream = f"@upstream({', '.join(up)})" if up else ""
    main = f"schema @server({server}) {upstream} {{ query: Query }}\ntype Query {{ {fields} }}\n"
    return dict(files={"main.graphql": main}, steps=[dict(par=reqs)] if c["par"] else [dict(req=r) for r in reqs], rules=rules)


def sent(call):
    return sorted([k, v] for k, v in call["h"] if k in TRACKED)


def parse(values):
    r = dict(kind="none", age=[], private=False)
    for d in ",".join(values).split(","):
        d = d.strip().lower()
        if not d:
            continue
        r["kind"] = "some" if r["kind"] == "none" else r["kind"]
        if d == "private":
            r["private"] = True
        elif d == "no-cache":
            r["kind"] = "no-cache"
        elif d == "no-store":
            r["kind"] = "no-store"
        elif d.startswith("max-age="):
            r["age"].append(int(d[8:]))
    return r


def judge(rec, o):
    c, out = rec["in"], rec["out"]
    where = {k: v for k, v in c.items() if k != "kind"}
    if not isinstance(o, list):
        return f"{where}: {str(o)[:300]}"
    res = [r for s in o for r in s["res"]]
    if c["kind"] == "allow":
        got = sorted((sent(x) for s in o for x in s["calls"]), key=str)
        want = sorted((sorted(w["sent"]) for w in out), key=str)
        for r in res:
            if r.get("j") != {"data": {"a": 1}}:
                return f"{where}: answered {str(r)[:300]}"
        if c["par"] and c["via"] != "plain":
            # requests that send the same may share a call
            got, want = ([x for i, x in enumerate(y) if x not in y[:i]] for y in (got, want))
            # the order in which a header is repeated is no difference
        elif not c["par"]:
            got, want = [[sent(x) for x in s["calls"]] for s in o], [[sorted(w["sent"])] for w in out]
        return None if got == want else f"{where}: sent {got}, specification {want}"
    for i, (r, w) in enumerate(zip(res, out)):
        w = w["reply"][0]
        if "h" not in r or not isinstance(r.get("j"), dict):
            return f"{where}: request {i} answered {str(r)[:300]}"
        h = lambda n: [v for k, v in r["h"] if k == n]
        cc, x = parse(h("cache-control")), w["cc"]
        same = (True if x["kind"] == "open" else cc["kind"] == x["kind"] if x["kind"] == "no-store" else
                cc["kind"] == x["kind"] and cc["private"] == x["private"] if x["kind"] == "no-cache" else cc == x)
        if not same:
            return f"{where}: request {i}: cache-control {h('cache-control')}, specification {x}"
        if h("x-f") or (sorted(h("x-e")) != sorted(w["x"]) and not (len(w["x"]) > 1 and len(h("x-e")) == 1 and h("x-e")[0] in w["x"])):
            return f"{where}: request {i}: experimental header {h('x-e')}, specification {w['x']}"
        if (h("x-c"), h("x-d")) != ((["1"], ["2"]) if w["custom"] else ([], [])):
            return f"{where}: request {i}: configured headers {h('x-c')} {h('x-d')}, specification {w['custom']}"
        if h("content-type") != ["application/json"]:
            return f"{where}: request {i}: content types {h('content-type')}"
        if sorted(h("set-cookie")) != sorted(w["cookies"]):
            # known: the first cookie of each answer, joined into one
            firsts = [c[f]["ck"][0] for f in c["reqs"][i] if c[f]["ck"]] if c["set"]["ck"] else []
            what = f"{where}: request {i}: cookies {h('set-cookie')}, specification {w['cookies']}"
            return (what, "cookies-joined") if firsts and h("set-cookie") in (["; ".join(firsts)], ["; ".join(reversed(firsts))]) else what
    return None


@check("P26", FUNC, note="Every list of up to two (thorough: three) client headers over every allow list, alone and in pairs one after the other or at the same time, direct, batched and deduplicated; every pair of upstream answers over fourteen cache-control forms, "
       "cookies and experimental headers under all settings, alone and in histories of requests one after the other or at the same time.")
def p26(ctx):
    for f in ("allow", "pair", "reply", "hist"):
        ctx.functional("gateway", ctx.tlc("Headers", f"Headers.{f}.{tier(ctx)}.cfg").emitted, to_case, judge)
