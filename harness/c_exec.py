"""P21-P25, P29, P30: execution of operations, as spec/Exec.tla prescribes it."""
import json
from urllib.parse import quote

from checks import check
from c_http import sdl, Enum
from c_json import FUNC, tier
import tagged

HEAD = "schema @server @upstream { query: Query }\n"


def tref(t):
    return (t[1] if t[0] == "n" else "[" + tref(t[1]) + "]") + ("!" if t[2] else "")


def base(t):
    return t[1] if t[0] == "n" else base(t[1])


class Schema:
    def __init__(self, t):
        self.types = {x["n"]: x for x in t["types"]}
        self.unions = dict((a, b) for a, b in t["unions"])
        self.enums = dict((a, b) for a, b in t["enums"])
        self.ups = t["ups"]
        self.batch = t.get("batch", {})

    def abstract(self, n):
        return n in self.unions or (n in self.types and self.types[n]["kind"] == "interface")

    def literal(self, v, t):
        """A tagged value as a literal of a type."""
        if v[0] == "a":
            return "[" + ", ".join(self.literal(x, t[1]) for x in v[1]) + "]"
        n = base(t)
        if n in self.enums and v[0] == "s":
            return v[1]
        if v[0] == "o" and n in self.types:
            fs = {f["n"]: f["t"] for f in self.types[n]["fs"]}
            return "{" + ", ".join(f"{k}: {self.literal(x, fs[k])}" for k, x in v[1]) + "}"
        return sdl(tagged.plain(v))

    def resolver(self, r, t):
        if r[0] == "none":
            return ""
        if r[0] == "const":
            return f" @expr(body: {sdl(tagged.plain(r[1]))})"
        if r[0] == "echo":
            return ' @expr(body: "{{.args}}")'
        q = ", ".join('{key: "k%d", value: "{{.%s.%s}}"}' % (j, a, b) for j, (a, b) in enumerate(r[2]))
        return f' @http(url: "http://up/{r[1]}"' + (f", query: [{q}]" if q else "") + ")" + (' @discriminate(field: "type")' if self.abstract(base(t)) else "")

    def sdl(self):
        out = [HEAD]
        for n, x in self.types.items():
            fs = []
            for f in x["fs"]:
                args = ", ".join(f"{a['n']}: {tref(a['t'])}" + (f" = {self.literal(a['d'][0], a['t'])}" if a["d"] else "") for a in f["args"])
                fs.append(f"  {f['n']}{'(' + args + ')' if args else ''}: {tref(f['t'])}{self.resolver(f['r'], f['t'])}")
            out.append(f"{x['kind']} {n}{' implements ' + ' & '.join(x['impl']) if x['impl'] else ''} {{\n" + "\n".join(fs) + "\n}")
        out += [f"union {n} = {' | '.join(m)}" for n, m in self.unions.items()] + [f"enum {n} {{ {' '.join(m)} }}" for n, m in self.enums.items()]
        return "\n".join(out)

    def rules(self):
        return [dict(url=url(u, k), **(dict(json=tagged.plain(v[0])) if v else dict(error="refused"))) for u, k, v in self.ups]


def url(u, k):
    return f"http://up/{u}" + ("?" + "&".join(f"k{j}={quote(x)}" for j, x in enumerate(k)) if k else "")


class Text:
    """The text of an operation of the specification; fragments alternate between inline ones and spreads."""

    def __init__(self, schema, req, kind="query", name="", phase=0):
        self.s, self.frags, self.n, self.vars = schema, [], phase, {}
        body = self.sel(req["sel"], dict(query="Query", mutation="Mutation")[kind])
        defs = dict((a, b) for a, b in req["defs"])
        decl = ", ".join(f"${v}: {tref(t)}" + (f" = {self.s.literal(defs[v], t)}" if v in defs else "") for v, t in self.vars.items())
        head = kind + (f" {name}" if name else "") + (f"({decl})" if decl else "") + " " if decl or name or kind != "query" else ""
        self.text = "\n".join([head + body] + self.frags)

    def cond(self, c):
        out = ""
        for k, n in (("skip", "skip"), ("inc", "include")):
            if c[k]:
                b = c[k][0]
                if b[0] == "var":
                    self.vars.setdefault(b[1], ["n", "Boolean", True])
                out += f" @{n}(if: {'$' + b[1] if b[0] == 'var' else json.dumps(b[1])})"
        return out

    def sel(self, sel, on):
        return "{ " + " ".join(self.item(x, on) for x in sel) + " }"

    def item(self, x, on):
        if x["k"] == "frag":
            self.n += 1
            t = x["on"] or on
            if not x["on"] or self.n % 2:
                return "..." + (f" on {x['on']}" if x["on"] else "") + self.cond(x["cond"]) + " " + self.sel(x["sel"], t)
            n = f"F{self.n}"
            self.frags.append(f"fragment {n} on {t} {self.sel(x['sel'], t)}")
            return f"...{n}{self.cond(x['cond'])}"
        out = x["n"] if x["out"] == x["n"] else f"{x['out']}: {x['n']}"
        fs = self.s.types[on]["fs"] if on in self.s.types else []
        f = next((f for f in fs if f["n"] == x["n"]), None)
        if x["args"]:
            types = {a["n"]: a["t"] for a in f["args"]}
            parts = []
            for a, v in x["args"]:
                if v[0] == "var":
                    t = types[a]
                    self.vars[v[1]] = t
                    parts.append(f"{a}: ${v[1]}")
                else:
                    parts.append(f"{a}: {self.s.literal(v[1], types[a])}")
            out += "(" + ", ".join(parts) + ")"
        return out + self.cond(x["cond"]) + (" " + self.sel(x["sel"], base(f["t"])) if x["sel"] else "")


def pairs(text):
    return json.loads(text, object_pairs_hook=lambda ps: ("o", ps))


def same(want, got):
    """A tagged value of the specification against parsed JSON with ordered keys."""
    if want[0] == "j":
        return loose(want[1]) == unpair(got)
    if want[0] == "o":
        return isinstance(got, tuple) and [k for k, _ in got[1]] == [k for k, _ in want[1]] and all(same(a, b) for (_, a), (_, b) in zip(want[1], got[1]))
    if want[0] == "a":
        return isinstance(got, list) and len(got) == len(want[1]) and all(map(same, want[1], got))
    w = tagged.plain(want)
    return w == got and type(w) == type(got)


def loose(t):
    return tagged.plain(t)


def unpair(v):
    if isinstance(v, tuple):
        return {k: unpair(x) for k, x in v[1]}
    return [unpair(x) for x in v] if isinstance(v, list) else v


def calls(o):
    return sorted(c["url"] for c in o["calls"])


def compare(out, o, failing=False):
    """What differs between the answer the specification gives and an observed step, or None."""
    r = o["res"][0]
    if "b" not in r:
        return f"the gateway answered {json.dumps(r)}"
    try:
        j = pairs(r["b"])
    except ValueError:
        return f"the answer is not JSON: {r['b']}"
    top = dict(j[1])
    errs = top.get("errors")
    made = calls(o)
    if not out:
        if not errs or top.get("data") is not None:
            return f"a wrong argument was accepted: {r['b']}"
        return f"calls were made for an operation with wrong arguments: {made}" if made else None
    w = out[0]
    if w["errs"]:
        if not errs:
            return f"no error was reported: {r['b']}, expected failures at {w['errs']}"
        return failed(w, top, r["b"], failing)
    if errs:
        return f"errors where the operation is in order: {r['b']}"
    if not same(w["v"], top["data"]):
        return f"answered {r['b']}, expected {json.dumps(show(w['v']))}"
    want = sorted(url(u, k) for u, k in w["calls"])
    if made != want:
        return f"calls made {made}, expected {want}"
    return None


def failed(w, top, text, failing):
    """Failures: no data, and the error names a place where something failed (an upstream's failure names none)."""
    if top.get("data") is not None:
        return f"data besides errors: {text}"
    for e in top["errors"]:
        p = dict(e[1]).get("path")
        if p is None and not failing or p is not None and p not in w["errs"]:
            return f"the error's path {p} is none of {w['errs']}: {text}"
    return None


def show(v):
    return tagged.plain(v[1]) if v[0] == "j" else {k: show(x) for k, x in v[1]} if v[0] == "o" else [show(x) for x in v[1]] if v[0] == "a" else tagged.plain(v)


def request(schema, req, n=0, **kw):
    q = dict(q=Text(schema, req, phase=n, **kw).text, raw=True)
    if req["vars"]:
        q["v"] = {a: tagged.plain(b) for a, b in req["vars"]}
    return q


def overlap(s, sel, on):
    """Does a selection set ask for one output name by way of different types or conditions?"""
    seen = {}

    def walk(sel, way):
        for x in sel:
            here = way + ([json.dumps(x["cond"])] if x["cond"]["skip"] or x["cond"]["inc"] else [])
            if x["k"] == "frag":
                walk(x["sel"], here + ([x["on"]] if x["on"] not in ("", on) else []))
            else:
                seen.setdefault(x["out"], []).append((sorted(here), x))

    walk(sel, [])
    if any(len({json.dumps(w) for w, _ in v}) > 1 for v in seen.values()):
        return True
    for v in seen.values():
        f = next((f for t in s.types.values() for f in t["fs"] if f["n"] == v[0][1]["n"]), None)
        if f and overlap(s, [y for _, x in v for y in x["sel"]], base(f["t"])):
            return True
    return False


def tables(recs):
    return next(r["t"][0] for r in recs if r["t"])


@check("P23", FUNC, note="All pairs of items (fields, aliases, nested selections, fragments) in one selection set at seven places of a schema with nested, listed and "
       "abstract types, bare or in fragments with or without a type; each with every condition on itself, its fragment or both, from variables, operation defaults and "
       "literals; thorough adds triples and pairs with two conditions. All ways of giving arguments: literals, variables, defaults of the operation and the argument.")
def p23(ctx):
    recs = ctx.tlc("ExecShape", f"ExecShape.{tier(ctx)}.cfg").emitted
    s = Schema(tables(recs))
    files, rules, n = {"main.graphql": s.sdl()}, s.rules(), [0]

    def to_case(rec):
        n[0] += 1
        return dict(files=files, rules=rules, steps=[dict(req=request(s, rec["req"], n[0]))])

    def judge(rec, o):
        if not isinstance(o, list):
            return f"the code {o}"
        d = compare(rec["out"], o[0])
        d = d and f"{request(s, rec['req'])['q']}: {d}"
        return (d, "overlap") if d and overlap(s, rec["req"]["sel"], "Query") else d

    ctx.functional("gateway", recs, to_case, judge)


@check("P24", FUNC, note="One field of every nullability and list depth up to two (some; thorough all) over an integer, an enumeration and an object type, at five places "
       "(root, below an object, below a list, an upstream per element, below lists of lists), against some 40 values each and a failing upstream.")
def p24(ctx):
    recs = ctx.tlc("ExecNulls", f"ExecNulls.{tier(ctx)}.cfg").emitted

    def to_case(rec):
        s = Schema(rec["t"])
        return dict(files={"main.graphql": s.sdl()}, rules=s.rules(), steps=[dict(req=request(s, rec["req"]))])

    def judge(rec, o):
        if not isinstance(o, list):
            return f"the code {o}"
        d = compare(rec["out"], o[0], not rec["c"]["v"])
        return d and f"{{{tref(rec['c']['t'])} at {rec['c']['place']}}}: value {tagged.plain(rec['c']['v'][0]) if rec['c']['v'] else 'failing'}: {d}"

    ctx.functional("gateway", recs, to_case, judge)


OPS = dict(A="{ all { k p { v } } }", B="{ all { p { v } q: p { v } } }", C="{ u: one(k: 1) { p { v } } w: one(k: 1) { p { v } } z: one(k: 2) { p { v } } }",
           D="{ one(k: 1) { again { p { v } } } }", S="{ all { k } }", K="{ c }")


def calls_sdl(c):
    more = (", dedupe: true" if c["dedupe"] else "")
    cache = " @cache(maxAge: 1000)" if c["age"] else ""
    one = f'@http(url: "http://up/one", query: [{{key: "k", value: "{{{{.%s.k}}}}"}}]{more}){cache}'
    return f"""schema @server @upstream{'(batch: {delay: 1, maxSize: 100})' if c['batch'] else ''} {{ query: Query mutation: Mutation }}
type Query {{
  all: [U] @http(url: "http://up/all"{more}){cache}
  one(k: Int!): U {one % 'args'}
  c: String @expr(body: "c")
}}
type Mutation {{ set(k: Int!): U @http(url: "http://up/set", method: POST, body: {{k: "{{{{.args.k}}}}"}}{more}){cache} }}
type U {{
  k: Int
  p: P @http(url: "http://up/p", query: [{{key: "k", value: "{{{{.value.k}}}}"}}]{', batchKey: ["k"]' if c['batch'] else ''}{more}){cache}
  again: U {one % 'value'}
}}
type P {{ k: Int v: Int }}
"""


def calls_answer(op, c):
    p = lambda k: dict(p=dict(v=10 * k))
    if op == "A":
        return dict(all=[dict(k=k, **p(k)) for k in c["ks"]])
    if op == "B":
        return dict(all=[dict(p(k), q=dict(v=10 * k)) for k in c["ks"]])
    if op == "C":
        return dict(u=p(1), w=p(1), z=p(2))
    if op == "D":
        return dict(one=dict(again=p(1)))
    if op == "S":
        return dict(all=[dict(k=k) for k in c["ks"]])
    if op == "K":
        return dict(c="c")
    below = (lambda k: {}) if c["age"] else p
    return dict(a=dict(k=1, **below(1)), b=dict(k=2, **below(2)), c=dict(k=1, **below(1)))


def made_calls(o):
    out = []
    for x in o["calls"]:
        u, _, q = x["url"].partition("?")
        name = u.rsplit("/", 1)[1]
        ks = sorted(int(kv.split("=")[1]) for kv in q.split("&")) if q else [int(json.loads(x["body"])["k"])] if name == "set" else [0]
        out.append([name, ks])
    return out


@check("P25", FUNC, note="All histories of two (thorough: three; three and four with caching) steps out of 14 (queries over a list, several root fields, the same call "
       "at two depths, a constant, mutations, pairs of them at the same time, the passing of time) with resolvers deduplicated or not, cached or not, batched or not, "
       "for six lists of parents, repeated and failing ones among them.")
def p25(ctx):
    recs = ctx.tlc("ExecCalls", f"ExecCalls.{tier(ctx)}.cfg").emitted

    def to_case(rec):
        c = rec["in"]
        below = "" if c["age"] else " p { v }"
        ops = dict(OPS, M="mutation { " + " ".join(f"{a}: set(k: {k}) {{ k{below} }}" for a, k in zip("abc", (1, 2, 1))) + " }")
        steps = [dict(advance=600) if s == ["tick"] else dict(req=dict(q=ops[s[0]])) if len(s) == 1 else dict(par=[dict(q=ops[x]) for x in s]) for s in c["h"]]
        d = dict(delay=5)
        ks = [1, 2]
        rules = [dict(url="http://up/all", json=[dict(k=k) for k in c["ks"]], **d), dict(url="http://up/p?k=9", error="refused", **d)]
        rules += [dict(url=f"http://up/one?k={k}", json=dict(k=k), **d) for k in ks]
        rules += [dict(url="http://up/set", body=f'{{"k":{q}{k}{q}}}', json=dict(k=k), **d) for k in ks for q in ("", '"')]
        rules += [dict(url="http://up/p", filter=dict(param="k", path="k", data=[dict(k=k, v=10 * k) for k in ks]), **d)] if c["batch"] else \
            [dict(url=f"http://up/p?k={k}", json=dict(k=k, v=10 * k), **d) for k in ks]
        return dict(files={"main.graphql": calls_sdl(c)}, rules=rules, steps=steps)

    def judge(rec, o):
        if not isinstance(o, list):
            return f"the code {o}"
        c = rec["in"]
        for s, w, x in zip(c["h"], rec["out"], o):
            if s == ["tick"]:
                continue
            want, got = [[n, sorted(k)] for n, k in w["calls"]], made_calls(x)
            if (want != got) if s[0] == "M" else (sorted(want) != sorted(got)):
                return f"{c}: in step {s} calls made {got}, expected {want}"
            for op, r in zip(s, x["res"]):
                if 9 in c["ks"] and op in "AB":
                    continue
                if r.get("j") != dict(data=calls_answer(op, c)):
                    return f"{c}: in step {s} answered {json.dumps(r.get('j', r))}"
        return None

    ctx.functional("gateway", recs, to_case, judge)
