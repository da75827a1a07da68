"""P35: transformed configurations serve what the original ones do, as spec/Transforms.tla prescribes."""
import json
import re

from checks import check
from c_json import FUNC, tier
from tagged import plain

LEAVES = ("Int", "String", "JSON", "Float", "Boolean")


def sdl(c):
    inputs, todo = set(), [f["arg"] for _, fs in c["types"] for f in fs if f["arg"]]
    types = dict(c["types"])
    while todo:
        t = todo.pop()
        if t in types and t not in inputs:
            inputs.add(t)
            todo += [f["ty"] for f in types[t]]
    outputs, todo, impl = set(), ["Query"], dict(c["impl"])
    members = dict(c["unions"])
    while todo:
        t = todo.pop()
        if t not in outputs:
            outputs.add(t)
            todo += [f["ty"] for f in types.get(t, [])] + members.get(t, []) + impl.get(t, []) + [u for u, i in c["impl"] if t in i]
    out = ["schema @server @upstream { query: Query }"]
    interfaces = {i for _, s in c["impl"] for i in s}

    def field(t, f, inp):
        ty = f["w"].replace("%", f["ty"]) if f["w"] else f"[{f['ty']}]" if f["l"] else f["ty"]
        if inp:
            return f"{f['n']}: {ty}"
        r = ""
        if f["res"] == "echo":
            r = ' @expr(body: "{{.args.i}}")'
        elif f["res"]:
            r = f' @expr(body: "{f["res"]}")'
        elif t == "Query":
            r = f' @http(url: "http://up/{f["n"]}")'
        return f"{f['n']}{'(i: ' + (f['aw'] or '%').replace('%', f['arg']) + ')' if f['arg'] else ''}: {ty}{r}"
    for t, fs in c["types"]:
        kind = "interface" if t in interfaces else "type"
        if t in inputs and t not in outputs:
            kind = "input"
        imp = " implements " + " & ".join(impl[t]) if impl.get(t) else ""
        out.append(f"{kind} {t}{imp} {{ " + " ".join(field(t, f, kind == "input") for f in fs) + " }")
    out += [f"union {u} = {' | '.join(m)}" for u, m in c["unions"]] + [f"enum {e} {{ {' '.join(v)} }}" for e, v in c["enums"]]
    return "\n".join(out)


def wrap(t):
    return re.sub(r"\w+", "%", t)


def literal(v):
    if isinstance(v, dict):
        return "{" + ", ".join(f"{k}: {literal(x)}" for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(map(literal, v)) + "]"
    return json.dumps(v)


def selection(sel, names):
    if sel[0] == "leaf":
        return ""
    if sel[0] == "any":
        return " { __typename " + " ".join(f"... on {names(t)} {{ {fields(fs, names)} }}" for t, fs in sel[1]) + " }"
    return " { " + fields(sel[1], names) + " }"


def fields(fs, names, args=None):
    return " ".join(n + (args or {}).get(n, "") + selection(s, names) for n, s in fs)


def transformers(ts):
    res = []
    for t in ts:
        t = dict(t)
        if "threshold" in t:
            t["threshold"] = float(t["threshold"])
        if "map" in t:
            t["names"] = t.pop("map")
        res.append(t)
    return res


@check("P35", FUNC, note="Type graphs of one to ten types: two types to merge over all pairs of fields (scalars, JSON, lists, constants, nested types of three shapes), input types nested and "
       "shared with outputs, interfaces, unions of unions (cyclic ones are refused), chains of single fields, renames that swap, chain or collide (refused), every wrapping by lists and non-null; every transformation "
       "is applied by the code, its result printed, read back, served over data of the configured shape and asked for everything down to depth 3; the answers, and for tree shaking "
       "the set of types left, are the specification's. Laws: the used types alone serve what all do, everything asked for ends in a leaf, renames stay injective. Thorough: 372,288 traces.",
       assumptions=["Values of unions and interfaces name their type as their only key; data that tells types apart by a member is that of P14.",
                    "Types with resolvers at the type itself are not merged here."])
def p35(ctx):
    for fam in ("merge", "inputs", "abstract", "names", "wraps"):
        recs = ctx.tlc("Transforms", f"Transforms.{fam}.{tier(ctx)}.cfg").emitted
        gens = ctx.drive("config", [dict(op="apply", sources=[dict(text=sdl(r["in"]))], apply=transformers(r["ts"])) for r in recs])

        def request(r):
            ren = {a: b for t in r["ts"] if t["t"] == "rename_types" for a, b in t["map"]}
            fs = r["out"]["sel"]
            roots = [f for t, f in r["in"]["types"] if t == "Query"][0]
            args = {f["n"]: f"(i: {literal(plain(v))})" for f, v in zip(roots, r["out"]["args"]) if f["arg"]}
            return "{ " + fields(fs, lambda t: ren.get(t, t), args) + " }"

        def case(k):
            r, g = recs[k], gens[k]
            if "sdl" not in g or r["out"]["refused"]:
                return dict(files={"main.graphql": sdl(r["in"])}, steps=[])
            roots = [f for t, f in r["in"]["types"] if t == "Query"][0]
            rules = [dict(url=f"http://up/{f['n']}", json=plain(v)) for f, v in zip(roots, r["out"]["data"])]
            return dict(files={"main.graphql": g["sdl"]}, rules=rules, steps=[dict(req=dict(q=request(r)))])

        def judge(k, o):
            r, g = recs[k], gens[k]
            where = f"{r['ts']} of {sdl(r['in'])!r}"
            if r["out"]["refused"]:
                return None if "err" in g else f"{where}: {g.get('sdl')!r}, specification: refused"
            if "sdl" not in g:
                return f"{where}: {g}"
            where += f" gives {g['sdl']!r}"
            if not isinstance(o, list):
                return f"{where}: cannot be served: {str(o)[:300]}"
            got = o[0]["res"][0].get("j", {})
            want = dict(data=plain(r["out"]["answer"]))
            if r["ts"] == [dict(t="tree_shake")] and (left := sorted([*g["config"]["types"], *g["config"]["unions"]])) != sorted(r["out"]["left"]):
                return f"{where}: {left} are left, specification {r['out']['left']}"
            if r["out"]["wraps"]:
                left = {(n, wrap(f["type"])) for t in g["config"]["types"].values() for n, f in t["fields"].items()}
                left |= {(f"{n}.{a['name']}", wrap(a["type"])) for t in g["config"]["types"].values() for n, f in t["fields"].items() for a in f.get("args") or []}
                if left != (ws := {(n, w or "%") for n, w in r["out"]["wraps"]}):
                    return f"{where}: fields and arguments are {sorted(left - ws)}, specification {sorted(ws - left)}"
            if got != want:
                return f"{where}: {request(r)} is answered {o[0]['res'][0].get('j', o[0]['res'][0])}, specification {want}"
            return None
        ctx.functional("gateway", list(range(len(recs))), case, judge)
