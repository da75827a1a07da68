"""P10, P11, P13, P14, P15: templates, merging, composed steps, abstract types, scalars."""
import json

from checks import check
from c_json import FUNC, tier
from vlib import key
import tagged


@check("P10", FUNC, note="Parsing specified on characters: all token sequences up to length 3 (4 thorough) over 12 tokens plus longer shapes; rendering of all "
       "sequences of up to 2 of 20 pieces against 20 environments, as text, as GraphQL literals, raw, partially and over plain JSON. A lone quotation mark between "
       "expressions is dropped, as the parser does.")
def p10(ctx):
    recs = ctx.tlc("Mustache", f"Mustache.{tier(ctx)}.cfg").emitted
    # letters outside ASCII are written "~" and "^" in the specification
    recs = [json.loads(json.dumps(r, ensure_ascii=False).replace("~", "é").replace("^", "日")) for r in recs]

    def to_case(r):
        c, o = r["in"], r["out"]
        case = dict(t=c["t"])
        if c["k"] == "render":
            case["render"] = dict(args=o["args"], value=o["value"], vars={"a": "va"}, env={"a": "e a"}, headers={"a": "h/a"})
        return case

    def judge(r, o):
        want = r["out"]
        if "panic" in o:
            return f"panic {o}"
        for k in ("segs", "show", "const"):
            if o[k] != want[k]:
                return f"template {r['in']['t']!r}: {k} is {o[k]!r}, specification {want[k]!r}"
        if o["again"] != want["segs"]:
            return f"template {r['in']['t']!r} read back is {o['again']}, was {want['segs']}"
        names = sorted(set(want["names"]) & {"a", "b1", "value", "id", "l", "args", "x"})
        if sorted(o["names"]) != names:
            return f"template {r['in']['t']!r} is said to contain {o['names']}, specification {names}"
        if r["in"]["k"] == "render":
            for k in ("str", "gql", "json", "partial", "raw"):
                if o[k] != want[k]:
                    return f"template {r['in']['t']!r} with {r['in']['e']} renders ({k}) {o[k]!r}, specification {want[k]!r}"
        return None
    ctx.functional("mustache", recs, to_case, judge)


@check("P11", FUNC, note="All pairs, and associativity triples, of small optional numbers and lists, sequences, sets, sorted, hashed and insertion-ordered maps, "
       "GraphQL constants and YAML values.")
def p11(ctx):
    recs = ctx.tlc("MergeRight", f"MergeRight.{tier(ctx)}.cfg").emitted

    def norm(k, v):
        if k in ("btset", "hashset"):
            return sorted(set(v))
        if k in ("btmap", "hashmap"):
            return sorted(v)
        if k == "yaml":
            return tagged.unordered(v)
        return v

    def judge(r, o):
        k = r["in"]["c"]["k"]
        if "panic" in o:
            return f"panic {o}"
        c = r["in"]["c"]
        if norm(k, o["ab"]) != norm(k, r["out"]["ab"]):
            return f"{k}: {c['a']} merged with {c['b']} is {o['ab']}, specification {r['out']['ab']}"
        for w in ("ab_c", "a_bc"):
            for i, t in enumerate(r["in"]["thirds"]):
                if norm(k, o[w][i]) != norm(k, r["out"][w][i]):
                    return f"{k}: {w} of {c['a']}, {c['b']}, {t} is {o[w][i]}, specification {r['out'][w][i]}"
        return None
    ctx.functional("merge", recs, lambda r: dict(**r["in"]["c"], thirds=r["in"]["thirds"]), judge)


@check("P13", FUNC, note="All compositions of up to four steps (succeeding, failing once or twice, state dependent, empty) in every grouping and as lists, under "
       "trace, update, transform and failing up/down conversions, from two initial states.")
def p13(ctx):
    recs = ctx.tlc("TryFold", f"TryFold.{tier(ctx)}.cfg").emitted
    ctx.functional("tryfold", recs, lambda r: r["in"],
                   lambda r, o: None if o == r["out"] else f"{r['in']['p']} from {r['in']['s']} gives {o}, specification {r['out']}")


@check("P15", FUNC, note="18 scalars against every bound, bound plus or minus one, decimal and odd texts, wrong kinds, and dates assembled from parts (leap years, "
       "offsets), on three JSON representations. Well-formedness of e-mail, phone and URL texts is by example lists.")
def p15(ctx):
    recs = ctx.tlc("Scalars", "Scalars.cfg").emitted

    def judge(r, o):
        if "ok" not in o:
            return f"the code {o}"
        for n, got, want in zip(r["in"]["names"], o["known"], r["known"]):
            if got != want:
                return f"{n} is said to be {'a' if got else 'no'} known scalar, specification {want}"
        for v, got, want in zip(r["in"]["values"], o["ok"], r["out"]):
            if got != [want] * 3:
                return f"{r['in']['scalar']} of {v}: accepted {got}, specification {want}"
        ctx.traces += len(o["ok"])
        return None
    ctx.functional("scalars", recs, lambda r: r["in"], judge)


SDL = """schema @server @upstream { query: Query }
type Query { %s }
union U%s = Foo | Bar
type Foo { a: JSON }
type Bar { b: JSON a: JSON }
"""


def retyped(v):
    if isinstance(v, list):
        return [retyped(x) for x in v]
    if isinstance(v, dict):
        return {"type" if k == "kind" else k: retyped(x) for k, x in v.items()}
    return v


@check("P14", FUNC, note="All small values (leaves, objects by key, by type field, pre-resolved, ambiguous, foreign) and nested lists of them, in both modes; for "
       "regular values also the complete gateway's response to a query with fragments on both members.")
def p14(ctx):
    recs = ctx.tlc("Discriminate", f"Discriminate.{tier(ctx)}.cfg").emitted

    def judge(r, o):
        w = r["out"]["resolved"]
        return None if o == w else f"{r['in']['mode']}: {r['in']['v']} resolves to {o}, specification {w}"
    ctx.functional("discriminate", recs, lambda r: r["in"], judge)

    recs = [r for r in recs if r["out"]["answer"]]

    def to_case(r):
        c = r["in"]
        t = "U"
        for _ in range(c["nest"]):
            t = f"[{t}]"
        data = tagged.plain(c["v"])
        d = ' @discriminate(field: "kind")' if c["mode"] == "field" else ""
        if d and len(json.dumps(data)) % 2:  # the field that says the type is "type" unless named
            d, data = " @discriminate", retyped(data)
        field = f'u: {t} @http(url: "http://up/u"){d}'
        return dict(files={"main.graphql": SDL % (field, "")}, rules=[dict(url="http://up/u", json=data)],
                    steps=[dict(req=dict(q="{ u { __typename ... on Foo { a } ... on Bar { b c: a } } }"))])

    def judge2(r, o):
        if not isinstance(o, list):
            return f"the code {o}"
        res = o[0]["res"][0]
        if "j" not in res:
            return f"no answer: {res}"
        want = {"u": tagged.plain(r["out"]["answer"][0])} if r["out"]["resolved"] else None
        errs = bool(res["j"].get("errors"))
        if res["j"].get("data") != want or key(res["j"]["data"]) != key(want):
            return f"response {res['j']}, specification {want}"
        if errs != (not r["out"]["resolved"]):
            return f"errors {res['j'].get('errors')} for {r['in']}"
        return None
    ctx.functional("gateway", recs, to_case, judge2)
