"""P29: composition of resolvers and directives, as spec/Compose.tla prescribes it."""
import json

from checks import check
from c_json import FUNC, tier
from c_http import sdl
from c_auth import credential, sha
import tagged

WHO = ["basic", "alice", "pw"]


def tref(t):
    return t[1] if t[0] == "n" else f"[{tref(t[1])}]"


def template(t):
    """A template as the value of a directive's argument."""
    if t[0] == "lit":
        return tagged.plain(t[1])
    if t[0] == "obj":
        return {k: template(v) for k, v in t[1]}
    if t[0] == "arr":
        return [template(v) for v in t[1]]
    return "".join(p[1] if p[0] == "t" else "{{." + ".".join(p[1]) + "}}" for p in t[1])


def resolver(r):
    if r[0] == "expr":
        return f"@expr(body: {sdl(template(r[1]))})"
    if r[0] == "get":
        return f'@http(url: "http://up/{r[1]}")'
    steps = [{"query": s["f"], **(dict(args={k: template(v) for k, v in s["args"][0]}) if s["args"] else {})} for s in r[1]]
    return f"@call(steps: {sdl(steps)})"


def config(w):
    prot = any(f["prot"] for t in w["types"] for f in t["fields"])
    out = ["schema @server @upstream(allowedHeaders: [\"authorization\"])" + (' @link(id: "p", type: Htpasswd, src: "p.txt")' if prot else "") + " { query: Query }"]
    for t in w["types"]:
        fs = []
        for f in t["fields"]:
            args = ", ".join(f"{a['n']}: {tref(a['t'])}" for a in f["args"])
            ds = [resolver(r) for r in f["res"]]
            ds += [] if not f["mod"] else ["@omit"] if f["mod"] == ["omit"] else [f'@modify(name: "{f["mod"][1]}")']
            ds += ["@protected"] if f["prot"] else []
            fs.append(f"  {f['n']}{'(' + args + ')' if args else ''}: {tref(f['t'])} {' '.join(ds)}")
        added = " ".join(f'@addField(name: "{a["n"]}", path: {json.dumps(a["path"])})' for a in t["added"])
        out.append(f"type {t['n']} {added} {{\n" + "\n".join(fs) + "\n}")
    out.append('enum E { A @alias(options: ["x", "y"]) B @alias(options: ["z"]) }')
    return "\n".join(out), prot


def query(w, sel, root=True):
    taking = {f["n"]: [a["n"] for a in f["args"]] for t in w["types"] if t["n"] == "Query" for f in t["fields"]} if root else {}
    out = []
    for f in sel:
        args = ", ".join(f"{k}: {sdl(tagged.plain(v))}" for k, v in w["args"] if k in taking.get(f["n"], []))
        out.append(f["n"] + (f"({args})" if args else "") + (" " + query(w, f["sel"], False) if f["sel"] else ""))
    return "{ " + " ".join(out) + " }"


def value(v):
    if v[0] == "j":
        return tagged.plain(v[1])
    if v[0] == "a":
        return [value(x) for x in v[1]]
    if v[0] == "o":
        return {k: value(x) for k, x in v[1]}
    return tagged.plain(v)


def compose(ctx, family):
    recs = ctx.tlc("Compose", f"Compose.{family}.{tier(ctx)}.cfg").emitted

    def to_case(rec):
        w = rec["w"]
        text, prot = config(w)
        files = {"main.graphql": text, **({"p.txt": f"alice:{sha('pw')}\n"} if prot else {})}
        rules = [dict(url=f"http://up/{u}", json=tagged.plain(v)) for u, v in w["data"]] + [dict(url="http://up/down", error="refused")]
        return dict(files=files, rules=rules, steps=[dict(req=dict(q=query(w, rec["sel"]) if rec["ok"] else "{ __typename }", h=[list(x) for x in credential(WHO)]))])

    def judge(rec, o):
        w = rec["w"]
        what = lambda said: f"{said} to {query(w, rec['sel'])} of {' '.join(config(w)[0].split())} with {w['data']}"
        if not rec["ok"]:
            return None if isinstance(o, dict) and "config_error" in o else what("accepted, expected a refusal,")
        if not isinstance(o, list):
            return what(str(o))
        j = o[0]["res"][0].get("j")
        if rec["res"] == ["fail"]:
            return None if j and j.get("data") is None and j.get("errors") else what(f"answered {json.dumps(j)}, expected a failure,")
        if j is None or "errors" in j or json.dumps(j.get("data"), sort_keys=True) != json.dumps(value(rec["res"]), sort_keys=True):
            return what(f"answered {json.dumps(j)}, expected {json.dumps(value(rec['res']))}")
        return None

    ctx.functional("gateway", recs, to_case, judge)


@check("P29", FUNC, note="Expressions: 21 templates over all combinations of three arguments, at the root and below a parent; all sequences of up to two (with a smaller pool, "
       "three; thorough: all three) resolvers of 16 on one field; ten ways of renaming and omitting crossed with 30 added paths, on fetched and evaluated, protected and "
       "unprotected, single and listed parents, null and missing values; added fields at the root; all sequences of up to two (from a smaller pool, three) steps with "
       "six ways of giving arguments; aliases of enumeration values.")
def p29(ctx):
    for family in ("expr", "merge", "mod", "root", "call", "enum"):
        compose(ctx, family)
