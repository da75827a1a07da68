"""P12 and the other properties of configurations as documents."""
import json
import re

from checks import check
from c_json import FUNC, tier
from c_http import sdl, Enum
from vlib import key

B, E_ = (True, False), Enum


def kvs(x):
    return [dict(key=k, value=v) for k, v in x]


# setting -> its two values, or a function from the specification's value
VALUES = {
    **{f"server.{n}": B for n in ("apolloTracing", "batchRequests", "introspection", "enableFederation", "pipelineFlush", "queryValidation", "responseValidation", "showcase",
                                  "headers.cacheControl", "headers.setCookies", "headers.cors.allowCredentials", "headers.cors.allowPrivateNetwork")},
    "server.globalResponseTimeout": (10, 0), "server.hostname": ("h1", "h2"), "server.port": (81, 82), "server.script.timeout": (5, 0), "server.version": (E_("HTTP2"), E_("HTTP1")),
    "server.workers": (3, 4), "server.vars": kvs, "server.headers.custom": lambda v: [dict(key="x-" + a, value=a) for a in v], "server.headers.experimental": lambda v: ["x-" + a for a in v],
    "server.routes.status": dict(zip("12d", ("/s1", "/s2", "/status"))), "server.routes.graphQL": dict(zip("12d", ("/g1", "/g2", "/graphql"))),
    "server.headers.cors.maxAge": (7, 0), "server.headers.cors.allowMethods": lambda v: [E_(("GET", "POST", "PUT")[int(a) - 1]) for a in v],
    "server.headers.cors.vary": lambda v: [x for a in v for x in (["origin", "access-control-request-method", "access-control-request-headers"] if a == "d" else [a])],
    "upstream.onRequest": ("f", "g"), "upstream.httpCache": (9, 0), "upstream.http2Only": B, "upstream.keepAliveWhileIdle": B, "upstream.proxy.url": ("http://p1", "http://p2"),
    "upstream.userAgent": ("u1", "u2"), "upstream.verifySSL": {"1": False, "2": True, "d": True}, "upstream.batch.delay": {"1": 4, "2": 0, "d": 0}, "upstream.batch.maxSize": (2, 3),
    "telemetry.export": (dict(prometheus=dict(path="/p")), dict(stdout=dict(pretty=True))),
    "links": lambda v: [dict(id="i" + a, src=a + ".graphql", type=E_("Config")) if a == "1" else dict(src=a + ".proto", type=E_("Protobuf")) for a in v],
    "schema.query": ("Q1", "Q2"), "schema.mutation": ("M1", "M2"),
    "T.f": (dict(type="Int", doc="one"), dict(type="[String!]!", args=[dict(name="x", type="Int", default=1)])), "T.g": (dict(type="A!"), dict(type="[B]")),
    "I.f": (dict(type="Int", doc="one"), dict(type="[String!]!")),
    "T.doc": ("d1", "d2"), "E.doc": ("d1", "d2"), "U.doc": ("d1", "d2"), "T.cache": (dict(maxAge=1), dict(maxAge=2)), "T.protected": lambda v: dict(id=v),
    "T.implements": lambda v: ["I" + a for a in v], "T.added": lambda v: [dict(name="n" + a, path=["id", a]) for a in v],
    "E.variants": lambda v: ["V" + a for a in v], "U.types": lambda v: ["T" + a for a in v],
}
DEFAULTS = {"server.apolloTracing": False, "server.batchRequests": False, "server.globalResponseTimeout": 0, "server.hostname": "127.0.0.1", "server.introspection": True,
            "server.enableFederation": False, "server.pipelineFlush": True, "server.port": 8000, "server.queryValidation": False, "server.responseValidation": False,
            "server.showcase": False, "server.version": "HTTP1", "server.workers": None, "server.status": "/status", "server.graphQL": "/graphql", "server.cacheControl": False,
            "server.setCookies": False, "upstream.delay": 0, "upstream.maxSize": 100, "upstream.onRequest": None, "upstream.connectTimeout": 60, "upstream.httpCache": 0,
            "upstream.http2Only": False, "upstream.keepAliveInterval": 60, "upstream.keepAliveTimeout": 60, "upstream.keepAliveWhileIdle": False, "upstream.poolMaxIdlePerHost": 60,
            "upstream.poolIdleTimeout": 60, "upstream.tcpKeepAlive": 5, "upstream.timeout": 60, "upstream.userAgent": "Tailcall/1.0", "upstream.verifySSL": True}


def value(name, v):
    f = VALUES.get(name)
    if callable(f):
        return f(v)
    if isinstance(f, dict):
        return f[v]
    if isinstance(f, tuple):
        return f[int(v) - 1]
    if isinstance(v, list):
        return ["a" + x for x in v]
    return int(v)


def put(d, path, v):
    *a, b = path.split(".")
    for x in a:
        d = d.setdefault(x, {})
    d[b] = v


def field(name, f):
    args = "".join(f"({a['name']}: {a['type']} = {a['default']})" for a in f.get("args", []))
    return (f'"{f["doc"]}" ' if "doc" in f else "") + f"{name}{args}: {f['type']}"


def document(d):
    """A source given as nested settings, as SDL."""
    out = []
    fields = lambda x: ", ".join(f"{k}: {sdl(v)}" for k, v in x.items())
    ds = [f"@{n}({fields(d[n])})" for n in ("server", "upstream", "telemetry") if n in d] + [f"@link({fields(x)})" for x in d.get("links", [])]
    roots = " ".join(f"{k}: {v}" for k, v in d.get("schema", {}).items())
    if ds or roots:
        out.append(f"schema {' '.join(ds)} {{ {roots} }}" if roots else f"extend schema {' '.join(ds)}")
    doc = lambda x: f'"""{x["doc"]}"""\n' if "doc" in x else ""
    for n, kind in (("T", "type"), ("I", "interface")):
        if n in d:
            t = d[n]
            impl = " implements " + " & ".join(t["implements"]) if t.get("implements") else ""
            ds = [f"@{k}({fields(t[k])})" for k in ("cache", "protected") if k in t] + [f"@addField({fields(x)})" for x in t.get("added", [])]
            out.append(f"{doc(t)}{kind} {n}{impl} {' '.join(ds)} {{ id: ID " + "\n".join(field(k, t[k]) for k in ("f", "g") if k in t) + " }")
    if "E" in d:
        out.append(f"{doc(d['E'])}enum E {{ {' '.join(['Z'] + d['E'].get('variants', []))} }}")
    if "U" in d:
        out.append(f"{doc(d['U'])}union U = {' | '.join(['Z'] + d['U'].get('types', []))}")
    return "\n".join(out)


def expected(d):
    """The dump a configuration with these settings has."""
    e = {k: d[k] for k in ("server", "upstream", "telemetry", "links") if k in d}
    e["links"] = [{k: v for k, v in x.items() if (k, v) != ("type", "Config")} for x in d.get("links", [])]
    if e.get("upstream", {}).get("verifySSL"):
        e["upstream"] = {k: v for k, v in e["upstream"].items() if k != "verifySSL"}
    s = d.get("schema", {})
    e["schema"] = [s.get("query"), s.get("mutation"), None]
    e["types"], e["enums"], e["unions"] = {}, {}, {}
    for n in ("T", "I"):
        if n in d:
            e["types"][n] = {**d[n], "fields": {"id": dict(type="ID"), **{k: d[n][k] for k in ("f", "g") if k in d[n]}}}
            for k in "fg":
                e["types"][n].pop(k, None)
    if "E" in d:
        e["enums"]["E"] = {**d["E"], "variants": [[x] for x in ["Z"] + d["E"].get("variants", [])]}
    if "U" in d:
        e["unions"]["U"] = {**d["U"], "types": ["Z"] + d["U"].get("types", [])}
    return e


SETS = {"allowedHeaders", "experimental", "implements", "variants", "types", "vars"}


def canon(x, name=""):
    """Without what is empty, the lists standing for sets and the variables in one order."""
    if isinstance(x, dict):
        x = {k: canon(v, k) for k, v in x.items()}
        if "maxSize" not in x and "delay" in x:
            x.setdefault("headers", [])
        return {k: v for k, v in x.items() if v not in ({}, [], None)}
    if isinstance(x, list):
        x = [canon(v) for v in x]
        return sorted(x, key=key) if name in SETS or (name == "headers" and all(isinstance(v, str) for v in x)) else x
    return x


def difference(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if key(a.get(k)) != key(b.get(k)):
                return difference(a.get(k), b.get(k), f"{path}.{k}")
    return f"{path[1:]} is {a}, specification {b}"


@check("P12", FUNC, note="Every setting in all triples of absent, two values (and the empty list), with all other settings absent, given by one source, or given differently by all "
       "(all 27 backgrounds thorough); sources as SDL, JSON and YAML, combined from the left and from the right; the whole result compared, and the values in effect. A default "
       "inside a given group (routes, batch, cors vary, verifySSL) counts as set by the source that gives the group. A field defined by several sources is the last one's.")
def p12(ctx):
    recs = ctx.tlc("ConfigMerge", f"ConfigMerge.{tier(ctx)}.cfg").emitted
    table = next(r["t"] for r in recs if r["t"])
    names = [s["n"] for s in table]

    def nested(src):
        d = {}
        for n, v in zip(names, src):
            if v:
                put(d, n, value(n, v[0]))
        return d

    def to_case(n, rec, group):
        sources = []
        for i, src in enumerate(rec["in"]):
            d = nested(src)
            kind = "graphql" if rec["sdl"][i] else ("json", "yml")[(n // 3 + i) % 2]
            text = document(d) if kind == "graphql" else json.dumps(d)
            if kind == "yml":
                text = re.sub(r'"export": \{"(\w+)": (\{[^}]*\})\}', r'"export": !\1 \2', text)
            sources.append(dict(kind=kind, text=text))
        return dict(op="merge", sources=sources, group=group)

    def judge(rec, o):
        if "config" not in o:
            return f"sources {[nested(s) for s in rec['in']]}: {o}"
        want = nested(rec["out"])
        a, b = canon(o["config"]), canon(expected(want))
        if key(a) != key(b):
            return f"{difference(a, b)}; sources {[nested(s) for s in rec['in']]}"
        for n, dflt in DEFAULTS.items():
            area, leaf = n.split(".")
            path = {"status": "server.routes.status", "graphQL": "server.routes.graphQL", "cacheControl": "server.headers.cacheControl", "setCookies": "server.headers.setCookies",
                    "delay": "upstream.batch.delay", "maxSize": "upstream.batch.maxSize"}.get(leaf, n)
            v = rec["out"][names.index(path)]
            w = value(path, v[0]) if v else dflt
            got = o["effective"][area][leaf]
            if key(got) != key(w) and leaf != "workers":
                return f"sources {[nested(s) for s in rec['in']]}: {n} in effect is {got}, specification {w}"
        ve = o["effective"]["server"]["vars"]
        v = rec["out"][names.index("server.vars")]
        if ve != dict(v[0] if v else []):
            return f"variables in effect {ve}, specification {v}"
        return None
    ids = {id(r): i for i, r in enumerate(recs)}
    for g in ("left", "right"):
        ctx.functional("config", recs, lambda r, g=g: to_case(ids[id(r)], r, g), judge)


def ref(t):
    return (t[1] if t[0] == "n" else f"[{ref(t[1])}]") + ("!" if t[2] else "")


def subgraph(g):
    """A subgraph of the specification as SDL."""
    def args(a):
        return "(" + ", ".join(f"{x['n']}: {ref(x['t'])}" + (f" = {x['d'][0]}" if x["d"] else "") for x in a) + ")" if a else ""
    q, out, u, eu = ["q: S", "k: K"], ["scalar S interface K { id: ID } type KI implements K { id: ID }"], g["u"], g["eu"]
    if u in ("in", "both"):
        q.append("i(x: T): Int")
    if u in ("out", "both"):
        q.append("o: T")
    if u == "iface":
        out.append("type Impl implements T { id: ID }")
    if u == "impl":
        out.append("interface J { id: ID }")
        q.append("j: J")
    if u == "member":
        out.append("union U = T")
        q.append("u: U")
    if eu in ("in", "both"):
        q.append("ei(x: E): Int")
    if eu in ("out", "both"):
        q.append("eo: E")
    if g["fs"]:
        kw = dict(iface="interface").get(u, "input" if u == "in" else "type")
        body = "\n".join(f"{f['n']}{args(f['a'])}: {ref(f['t'])}" + (f" = {f['d'][0]}" if f["d"] else "") for f in g["fs"][0])
        out.append(f"{kw} T {'implements J ' if u == 'impl' else ''}{{ {body} }}")
    if g["vs"]:
        out.append(f"enum E {{ {' '.join(g['vs'][0])} }}")
    return "schema { query: Query }\ntype Query { " + "\n".join(q) + " }\n" + "\n".join(out)


@check("P16", FUNC, note="All pairs of subgraphs using a type in no, input, output, interface, implementing, union and both positions, with fields present, absent and of both "
       "nullabilities; all pairs of references with one (two thorough) levels of lists in both positions, arguments with defaults, enumerations; triples of reduced sets "
       "(larger ones thorough). The specification's laws: what either side produces fits an output type, what fits an input type is accepted by both, order does not matter.")
def p16(ctx):
    recs = ctx.tlc("Subgraph", f"Subgraph.{tier(ctx)}.cfg").emitted

    def fdump(f, defaults=True):
        m = dict(type=ref(f["t"]))
        if f["a"]:
            m["args"] = sorted((fdump(a) | dict(name=a["n"]) for a in f["a"]), key=key)
        if f["d"]:
            m["default"] = int(f["d"][0])
        return m

    def norm(t):
        fs = {}
        for n, f in t["fields"].items():
            fs[n] = {**f, **({"args": sorted(f["args"], key=key)} if "args" in f else {})}
        return fs

    def to_case(rec):
        return dict(op="unify", sources=[dict(text=subgraph(g)) for g in rec["in"]])

    def judge(rec, o):
        w = rec["out"]
        texts = [subgraph(g) for g in rec["in"]]
        if not w["ok"]:
            if "err" not in o:
                return f"combined {texts} to {o}, specification refuses at {w['e']}"
            got = sorted(key(t) for _, t in o["err"])
            if got != sorted(key(t) for t in w["e"]):
                return f"refused {texts} at {o['err']}, specification at {w['e']}"
            return None
        if "config" not in o:
            return f"{texts} give {o}, specification combines them to {w['v']}"
        c = o["config"]
        want = {f["n"]: fdump(f) for f in w["v"]["fs"][0]} if w["v"]["fs"] else None
        got = norm(c["types"]["T"]) if "T" in c["types"] else None
        if key(want) != key(got):
            return f"{texts} combine T to {got}, specification {want}"
        want = sorted(w["v"]["vs"][0]) if w["v"]["vs"] else None
        got = sorted(v[0] for v in c["enums"]["E"]["variants"]) if "E" in c["enums"] else None
        if want != got:
            return f"{texts} combine E to {got}, specification {want}"
        qs = set(c["types"]["Query"]["fields"])
        wq = {"q", "k"} | {x for g in rec["in"] for x in dict(out=["o"], both=["i", "o"], impl=["j"], member=["u"]).get(g["u"], ["i"] if g["u"] == "in" else [])}
        wq |= {x for g in rec["in"] for x in dict(out=["eo"], both=["ei", "eo"]).get(g["eu"], ["ei"] if g["eu"] == "in" else [])}
        if qs != wq:
            return f"{texts} combine Query to {qs}, specification {wq}"
        return None
    ctx.functional("config", recs, to_case, judge)


NASTY = dict(nasty='a"b\\c/é😀', tpl="{{.args.x}}", lines="line one\nline two\n  line three", long="word " * 40 + "end", indent="  two\n   spaces", hash="# no comment")
NASTY["quo\"te"] = 'quo"te'


def json_of(v):
    """A tagged value as JSON, names without quotes as the text they are."""
    return {"n": lambda: None, "b": lambda: v[1] == "true", "i": lambda: int(v[1]), "f": lambda: float(v[1]), "e": lambda: v[1], "s": lambda: NASTY.get(v[1], v[1]),
            "a": lambda: [json_of(x) for x in v[1]], "o": lambda: {k: json_of(x) for k, x in v[1]}}[v[0]]()


def text_of(v):
    """A tagged value in the schema language."""
    if v[0] == "a":
        return "[" + ", ".join(text_of(x) for x in v[1]) + "]"
    if v[0] == "o":
        return "{" + ", ".join(f"{k}: {text_of(x)}" for k, x in v[1]) + "}"
    return json.dumps(json_of(v), ensure_ascii=False) if v[0] == "s" else v[1] if v[0] != "n" else "null"


def directive(name, args):
    return f"@{name}" + ("(" + ", ".join(f"{k}: {text_of(v)}" for k, v in args) + ")" if args else "")


# the directives of Roundtrip.tla by their text: what the dump of a field or type has
DIRS = {
    "@cache(maxAge: 5)": dict(cache=dict(maxAge=5)), "@expr(body: 1)": dict(resolvers=[dict(expr=dict(body=1))]), "@expr(body: 2)": dict(resolvers=[dict(expr=dict(body=2))]),
    '@http(url: "http://a")': dict(resolvers=[dict(http=dict(url="http://a"))]), '@js(name: "f")': dict(resolvers=[dict(js=dict(name="f"))]), "@omit": dict(omit=True),
    '@modify(name: "y", omit: true)': dict(modify=dict(name="y", omit=True)), '@modify(name: "y")': dict(modify=dict(name="y")), "@modify(omit: false)": dict(modify=dict(omit=False)),
    "@protected": dict(protected={}), '@protected(id: ["a"])': dict(protected=dict(id=["a"])), '@protected(id: ["b", "a"])': dict(protected=dict(id=["b", "a"])),
    '@protected(id: ["c"])': dict(protected=dict(id=["c"])), '@grpc(url: "u", method: "a.b")': dict(resolvers=[dict(grpc=dict(url="u", method="a.b"))]),
    '@call(steps: [{query: "q"}])': dict(resolvers=[dict(call=dict(steps=[dict(query="q")]))]), '@addField(name: "p", path: ["a"])': dict(added=[dict(name="p", path=["a"])]),
    '@addField(name: "o", path: [])': dict(added=[dict(name="o", path=[])]), '@key(fields: "f")': dict(directives=[dict(name="key", arguments=dict(fields="f"))]),
    '@key(fields: "g")': dict(directives=[dict(name="key", arguments=dict(fields="g"))]), '@expr(body: {f: "x"})': dict(resolvers=[dict(expr=dict(body=dict(f="x")))]),
}


def spec_doc(d):
    return {} if not d else dict(doc=NASTY.get(d[0], d[0]))


def spec_dirs(ds):
    m = {}
    for d in ds:
        for k, v in DIRS[d].items():
            m[k] = m[k] + v if k in m else v
    return m


def spec_dump(cfg):
    """The dump of a configuration of Roundtrip.tla."""
    arg = lambda a: dict(name=a["n"], type=ref(a["t"]), **spec_doc(a["doc"]), **spec_dirs(a["dirs"]), **({"default": json_of(a["d"][0])} if a["d"] else {}))

    def fld(f):
        m = dict(type=ref(f["t"]), **spec_doc(f["doc"]), **spec_dirs(f["dirs"]))
        if f["args"]:
            m["args"] = [arg(a) for a in f["args"]]
        if f["d"]:
            m["default"] = json_of(f["d"][0])
        return m
    ty = lambda t: dict(fields={f["n"]: fld(f) for f in t["fs"]}, **spec_doc(t["doc"]), **spec_dirs(t["dirs"]), **({"implements": t["impl"]} if t["impl"] else {}))
    return dict(schema=[r or None for r in cfg["roots"]], types={t["n"]: ty(t) for t in cfg["ts"]},
                enums={e["n"]: dict(variants=sorted([[n] + ([sorted(NASTY.get(x, x) for x in a)] if a else []) for n, a in e["vs"]]), **spec_doc(e["doc"])) for e in cfg["es"]},
                unions={u["n"]: dict(types=u["m"], **spec_doc(u["doc"])) for u in cfg["us"]})


def spec_sdl(cfg, kinds):
    doc = lambda d, sep: "" if not d else ('"""\n' + NASTY.get(d[0], d[0]) + '\n"""' if "\n" in NASTY.get(d[0], d[0]) else json.dumps(NASTY.get(d[0], d[0]), ensure_ascii=False)) + sep
    dflt = lambda f: f" = {text_of(f['d'][0])}" if f["d"] else ""
    dirs = lambda x: "".join(" " + d for d in x["dirs"])
    arg = lambda a: f"{doc(a['doc'], ' ')}{a['n']}: {ref(a['t'])}{dflt(a)}{dirs(a)}"
    fld = lambda f: f"{doc(f['doc'], chr(10))}{f['n']}{'(' + ', '.join(map(arg, f['args'])) + ')' if f['args'] else ''}: {ref(f['t'])}{dflt(f)}{dirs(f)}"
    out, roots = [], " ".join(f"{n}: {r}" for n, r in zip(("query", "mutation", "subscription"), cfg["roots"]) if r)
    if roots:
        out.append(f"schema @server(port: 8100) {{ {roots} }}")
    for (n, k), t in zip(kinds, cfg["ts"]):
        if k == "scalar":
            out.append(f"scalar {n}")
            continue
        impl = " implements " + " & ".join(t["impl"]) if t["impl"] else ""
        out.append(f"{doc(t['doc'], chr(10))}{k} {n}{impl}{dirs(t)} {{\n" + "\n".join(map(fld, t["fs"])) + "\n}")
    for e in cfg["es"]:
        alias = lambda a: f" @alias(options: {json.dumps([NASTY.get(x, x) for x in a], ensure_ascii=False)})" if a else ""
        out.append(f"{doc(e['doc'], chr(10))}enum {e['n']} {{ " + " ".join(n + alias(a) for n, a in e["vs"]) + " }")
    for u in cfg["us"]:
        out.append(f"{doc(u['doc'], chr(10))}union {u['n']} = " + " | ".join(u["m"]))
    return "\n".join(out)


def loose(x, name=""):
    """White space in descriptions and the order of sets do not matter; what is empty is as good as absent, but for the keys in `keep`."""
    if isinstance(x, dict):
        x = {k: loose(v, k) for k, v in x.items()}
        if "doc" in x:
            x["doc"] = " ".join(x["doc"].split())
        if name in ("http", "grpc", "graphql", "call"):
            x = {k: v for k, v in x.items() if (k, v) != ("select", None)}
        if "doc" in x and not x["doc"]:
            x.pop("doc")
        return x
    if isinstance(x, list):
        x = [loose(v) for v in x]
        return sorted(x, key=key) if name in ("implements", "variants", "types") and all(isinstance(v, (str, list)) for v in x) else x
    return x


@check("P17", FUNC, note="Every directive with every value of each argument, two optional arguments together (three thorough), wrong values, missing and unknown arguments, in every place; "
       "definitions with all pairs (triples thorough) of 21 features (references, descriptions, defaults of every JSON form, directive sets, arguments, aliases, members, roots) "
       "of a type in five roles; all pairs of settings (some triples thorough). Each is read, compared with the specification, written, read again and written again; "
       "the settings also as JSON, indented JSON and YAML. White space in descriptions does not count, \"\"\" inside them is left out.")
def p17(ctx):
    def again(o, clean=lambda x: x):
        """The round trip of what was read."""
        if "unreadable" in o["again"]:
            return f"written as {o['sdl']!r}, which cannot be read: {o['again']}"
        a, b = loose(clean(o["config"])), loose(clean(o["again"]))
        if key(a) != key(b):
            return f"read back: {difference(b, a)}; written as {o['sdl']!r}"
        return None

    # directives
    wrap = dict(
        field=lambda d: f"schema {{ query: Query }}\ntype Query {{ f: Int {d} }}", type=lambda d: f"schema {{ query: Query }}\ntype Query {{ f: T }}\ntype T {d} {{ a: Int }}",
        arg=lambda d: f"schema {{ query: Query }}\ntype Query {{ f(x: Int {d}): Int }}", infield=lambda d: f"schema {{ query: Query }}\ntype Query {{ f(x: T): Int }}\ninput T {{ a: Int = 1 {d} }}",
        schema=lambda d: f"schema {d} {{ query: Query }}\ntype Query {{ f: Int }}", value=lambda d: f"schema {{ query: Query }}\ntype Query {{ f: E }}\nenum E {{ A {d} }}")
    at = dict(field=lambda c: c["types"]["Query"]["fields"]["f"], type=lambda c: c["types"]["T"], arg=lambda c: c["types"]["Query"]["fields"]["f"]["args"][0],
              infield=lambda c: c["types"]["T"]["fields"]["a"], schema=lambda c: c, value=lambda c: c["enums"]["E"]["variants"][0])
    resolver = {"http": "http", "graphQL": "graphql", "grpc": "grpc", "expr": "expr", "call": "call", "js": "js"}

    def meaning(n, place, x):
        if n in resolver:
            r = [v[resolver[n]] for v in x.get("resolvers", [])]
            return {k: v for k, v in r[0].items() if (n, k, v) != ("grpc", "select", None) and (n, k, v) != ("http", "select", None)} if r else None
        if n == "alias":
            return dict(options=x[1]) if len(x) > 1 else None
        if n == "link":
            return x["links"][0] if x.get("links") else None
        if n == "addField":
            return x["added"][0] if x.get("added") else None
        if n == "key":
            return x["directives"][0].get("arguments", {}) if x.get("directives") else None
        if n == "omit":
            return {} if x.get("omit") else None
        return x.get(n)

    def j_dir(rec, o):
        n, place, text = rec["dir"], rec["at"], directive(rec["dir"], rec["text"])
        if not rec["means"]:
            if place == "arg":
                return None
            return None if "unreadable" in o else f"{text} at {place} is read as {o}, specification refuses it"
        want = {k: json_of(v) for k, v in rec["means"][0]}
        if n == "alias":
            want["options"] = sorted(want["options"])
        if "config" not in o:
            return f"{text} at {place} gives {o}, specification {want}"
        got = meaning(n, place, at[place](o["config"]))
        if n == "alias" and got == None:
            got = dict(options=[])
        if n in ("protected", "modify", "discriminate", "link") and got is None:
            got = {}
        if key(got) != key(want):
            return f"{text} at {place} is {got}, specification {want}"
        if n == "expr" and want["body"] is None:
            return (f"@expr(body: null) is {again(o)}", "expr-null") if again(o) else None
        if n == "discriminate":
            return ("@discriminate is not written", "discriminate") if again(o) else None
        return again(o)
    ctx.functional("config", ctx.tlc("Directives", f"Directives.{tier(ctx)}.cfg").emitted,
                   lambda r: dict(op="print", sources=[dict(text=wrap[r["at"]](directive(r["dir"], r["text"])))]), j_dir)

    # definitions
    def j_def(rec, o):
        text = spec_sdl(rec["cfg"], rec["kinds"])
        if "config" not in o:
            return f"{text}: {o}"
        want, got = loose(spec_dump(rec["cfg"])), loose({k: o["config"][k] for k in ("schema", "types", "enums", "unions")})
        if key(want) != key(got):
            return f"{text!r} is read: {difference(got, want)}"
        for n, k in rec["kinds"]:
            if not re.search(rf"(?m)^{k} {n}\b", o["sdl"]):
                return f"{n} is not written as {k}: {o['sdl']!r}"
        return again(o)
    ctx.functional("config", ctx.tlc("Roundtrip", f"Roundtrip.{tier(ctx)}.cfg").emitted,
                   lambda r: dict(op="print", sources=[dict(text=spec_sdl(r["cfg"], r["kinds"]))]), j_def)

    # settings
    recs = ctx.tlc("SettingsForms", f"SettingsForms.{tier(ctx)}.cfg").emitted
    table = next(r["t"] for r in recs if r["t"])

    def nested(src, keep=lambda s: True):
        d = {}
        for s, v in zip(table, src):
            if v and keep(s):
                put(d, s["n"], value(s["n"], v[0]))
        return d

    def source(rec):
        return document(nested(rec["src"])) + "\ntype Z { a: Int }"

    def j_set(rec, o):
        text = source(rec)
        if "config" not in o:
            return f"{text}: {o}"
        want = canon(expected(nested(rec["cfg"])))
        want.setdefault("types", {})["Z"] = dict(fields=dict(a=dict(type="Int")))
        got = canon(o["config"])
        if key(want) != key(got):
            return f"{text} is read: {difference(got, want)}"
        for f in ("again", "json", "pretty", "yml"):
            if "unreadable" in o[f]:
                return f"{text} written ({f}) cannot be read: {o[f]}; {o['sdl']!r}"
            keep = ("server", "upstream", "telemetry", "links") + (("schema", "types", "enums", "unions") if f == "again" else ())
            a, b = ({k: canon(x[k]) for k in keep if canon(x.get(k)) not in ({}, [], None)} for x in (o[f], o["config"]))
            if key(a) != key(b):
                return f"{text} written and read back ({f}): {difference(a, b)}; {o['sdl']!r}"
        return None
    ctx.functional("config", recs, lambda r: dict(op="print", sources=[dict(text=source(r))]), j_set)
