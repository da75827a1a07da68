"""P34: configurations generated from samples serve the samples, as spec/Generate.tla prescribes."""
import json
import re
from urllib.parse import quote, unquote, urlsplit, parse_qsl

from checks import check
from c_json import FUNC, tier
from tagged import plain

PRESETS = dict(none=dict(), names=dict(infer=True), merge=dict(infer=True, shake=True, threshold=1.0), unwrap=dict(unwrap=True), all=dict(infer=True, shake=True, threshold=1.0, unwrap=True))


def url(s):
    q = "&".join(f"{quote(k, safe='$[]')}={quote(v, safe=',')}" for k, v in s["q"])
    return "http://up" + "".join("/" + quote(x) for x in s["path"]) + ("?" + q if q else "")


def generated(c):
    ins = [dict(url=url(s), m=s["m"], req=plain(s["req"][0]) if s["req"] else None, res=plain(s["res"]), field=s["field"], mutation=bool(s["req"]), headers=None) for s in c["samples"]]
    return dict(op="generate", inputs=ins, transformers=[dict(t="preset", **PRESETS[c["preset"]])], mutation="Mutation")


def literal(v):
    if isinstance(v, dict):
        return "{" + ", ".join(f"{k}: {literal(x)}" for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(map(literal, v)) + "]"
    return json.dumps(v)


class Open(Exception):
    """a value that the type the generator guessed cannot say"""


class Wrong(Exception):
    """a value that is not of the type the generator gives it"""


def typed(text, ty):
    ty = ty.strip("!")
    if ty in ("Int", "Float") and not re.fullmatch(r"-?[0-9]+" if ty == "Int" else r"-?[0-9]+(\.[0-9]+)?(e-?[0-9]+)?", text):
        raise Wrong
    if ty == "Boolean" and text not in ("true", "false"):
        raise Wrong
    if ty == "Int":
        if str(int(text)) != text or abs(int(text)) >= 2 ** 31:
            raise Open
        return int(text)
    if ty == "Float":
        if str(float(text)) != text:
            raise Open
        return float(text)
    return text == "true" if ty == "Boolean" else text


def arguments(s, field):
    """the arguments the sample was made with; None when a part of the request has no place in them"""
    types = {a["name"]: a["type"] for a in field.get("args", [])}
    http = next(r for r in field["resolvers"])["http"] if isinstance(field["resolvers"], list) else field["resolvers"]["http"]
    args, var = {}, r"\{\{\.?args\.([^}]*)\}\}"
    template = urlsplit(http["url"].replace("{{", "<<").replace("}}", ">>")).path.replace("<<", "{{").replace(">>", "}}")
    parts = re.split(var, template)
    m = re.fullmatch("".join(re.escape(p) if k % 2 == 0 else "([^/]*)" for k, p in enumerate(parts)), "/" + "/".join(s["path"]))
    if not m:
        return None
    for name, text in zip(parts[1::2], m.groups()):
        args[name] = typed(text, types[name])
    for q in http.get("query", []):
        name = re.fullmatch(var, q["value"])[1]
        texts = [v for k, v in s["q"] if k == q["key"]]
        ty = types[name]
        if ty.startswith("["):
            try:
                args[name] = [typed(t, ty.strip("[]!")) for t in (texts[0].split(",") if len(texts) == 1 else texts)]
            except Wrong:
                raise Open      # the type of a list is guessed from its first value
        else:
            args[name] = typed(texts[0], ty)
    if {k for k, _ in s["q"]} != {q["key"] for q in http.get("query", [])} or len(args) != len(parts) // 2 + len(http.get("query", [])):
        return None
    if s["req"]:
        args[re.fullmatch(var, http["body"])[1]] = plain(s["req"][0])
    return args


def selection(sh):
    return "" if sh[0] == "leaf" else "{" + " ".join(k + selection(x) for k, _, x in sh[1]) + "}"


def steps(c, out, config):
    """the requests to make, or what is wrong with the configuration"""
    res = []
    for s, o in zip(c["samples"], out):
        root = config["schema"][1 if s["req"] else 0]
        field = config["types"].get(root, {}).get("fields", {}).get(s["field"])
        if not field:
            return f"no field {s['field']} in {root}"
        try:
            args = arguments(s, field)
        except Open:
            res.append(None)
            continue
        except Wrong:
            args = None
        if args is None:
            return f"the request of {s['field']} cannot be made: {field}"
        a = "(" + ", ".join(f"{k}: {literal(v)}" for k, v in args.items()) + ")" if args else ""
        res.append(dict(req=dict(q=("mutation " if s["req"] else "") + "{" + s["field"] + a + selection(o["sel"]) + "}")) if o["judged"] else dict(req=dict(q="{__typename}")))
    return res


def same_query(want, got):
    """pairs; a list may be sent as one pair for each element or as one with commas"""
    flat = lambda ps: sorted((k, x) for k, v in ps for x in v.split(","))
    return flat(want) == flat(got)


def judge(c, out, gen, st, o):
    where = f"{c['preset']} of {[(s['field'], s['m'], url(s), plain(s['req'][0]) if s['req'] else None, plain(s['res'])) for s in c['samples']]}"
    if "sdl" not in gen:
        return f"{where}: not generated: {gen}"
    if isinstance(st, str):
        return f"{where}: {st}"
    where += f" gives {gen['sdl']!r}"
    if not isinstance(o, list):
        return f"{where}: cannot be served: {str(o)[:300]}"
    for s, w, ob, step in zip([s for s, x in zip(c["samples"], st) if x], [w for w, x in zip(out, st) if x], o, [x for x in st if x]):
        r = ob["res"][0]
        if not w["judged"]:
            if r.get("j", {}).get("data", {}).get("__typename") is None:
                return f"{where}: answers {r}"
            continue
        want = {"data": {s["field"]: plain(w["answer"])}}
        if len(ob["calls"]) != 1:
            return f"{where}: {step['req']['q']} makes {len(ob['calls'])} calls, answers {r.get('j', r)}"
        call = ob["calls"][0]
        u = urlsplit(call["url"])
        if call["m"] != s["m"] or unquote(u.path) != "/" + "/".join(s["path"]) or not same_query(s["q"], parse_qsl(u.query, keep_blank_values=True)):
            return f"{where}: {step['req']['q']} calls {call['m']} {call['url']}"
        if s["req"] and json.loads(call["body"] or "null") != plain(s["req"][0]):
            return f"{where}: {step['req']['q']} sends {call['body']}"
        if json.dumps(r.get("j")) != json.dumps(want):
            return f"{where}: {step['req']['q']} is answered {r.get('j', r)}, specification {want}"
    return None


@check("P34", FUNC, note="All small samples (objects, lists of objects with different members, nested lists, empty and unusable ones), one or two member objects or fields named like "
       "types, scalars and generated names, requests of all small paths and queries, and gateways made of two samples (queries, mutations with bodies); plain, with inferred names, with types "
       "merged and with types of a single member taken out. The generated text is served by the real gateway, over a mock of the sampled upstream.")
def p34(ctx):
    for fam in ("shapes", "names", "requests", "several"):
        recs = ctx.tlc("Generate", f"Generate.{fam}.{tier(ctx)}.cfg").emitted
        gens = ctx.drive("config", [generated(r["in"]) for r in recs])
        sts = [steps(r["in"], r["out"], g["config"]) if "config" in g else [] for r, g in zip(recs, gens)]

        def case(k):
            c, g, st = recs[k]["in"], gens[k], sts[k]
            rules = [dict(url="http://up/y" if len(c["samples"]) > 1 and s["path"] == ["y"] else "*", json=plain(s["res"])) for s in reversed(c["samples"])]
            return dict(files={"main.graphql": g.get("sdl", "")}, rules=rules, steps=[x for x in st if x] if isinstance(st, list) else [])
        ctx.functional("gateway", list(range(len(recs))), case, lambda k, o: judge(recs[k]["in"], recs[k]["out"], gens[k], sts[k], o))
