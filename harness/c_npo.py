"""P32: the paths on which resolvers are called once per element, as spec/Npo.tla prescribes them."""
import re

from checks import check
from c_json import FUNC, tier

MADE = dict(
    http='@http(url: "http://u/x")', httpkey='@http(url: "http://u/x", query: [{key: "id", value: "{{.value.id}}"}], batchKey: ["id"])', httpget='@http(url: "http://u/x", method: GET, query: [{key: "id", value: "{{.value.id}}"}])',
    gql='@graphQL(url: "http://u/g", name: "x")', gqlbatch='@graphQL(url: "http://u/g", name: "x", batch: true)', grpc='@grpc(url: "http://u", method: "a.B.C")', grpckey='@grpc(url: "http://u", method: "a.B.C", batchKey: ["id"])',
    expr='@expr(body: 1)', js='@js(name: "f")', call='@call(steps: [{query: "x"}])', calllist='@call(steps: [{query: "x"}, {query: "y"}])')
KINDS = dict(none="", each=MADE["http"], batch=MADE["httpkey"])


def source(c):
    types = []
    for t in ("Query", "A", "B"):
        rows = ["  id: ID"]
        for f, d in c["schema"][t].items():
            if d["to"] == "-":
                continue
            to = "String" if d["to"] == "S" else d["to"]
            how = " ".join(MADE[m] for m in c["made"]) if c["made"] and d["kind"] != "none" else KINDS[d["kind"]]
            if c["made"] and d["kind"] == "each" and t == "B":
                how = KINDS["each"]
            rows.append(f"  {f}: {'[%s]' % to if d['list'] else to} {how}")
        types.append(f"type {t} {KINDS[c['ent'][t]]} {{\n" + "\n".join(rows) + "\n}")
    return "schema { query: Query }\n" + "\n".join(types)


def to_case(rec):
    return dict(op="n_plus_one", sources=[dict(text=source(rec["in"]))])


def parse(text):
    paths = []
    for line in text.split("\n") if text else []:
        line = re.sub(r'__entities\(representations: \[\{ __typename: "(\w+)"\}\]\)', r"#\1", line)
        m = re.fullmatch(r"query \{ (.*) \}", line)
        words = m and m[1].replace(" }", "").split(" { ")
        if not m or any(not re.fullmatch(r"#?\w+", w) for w in words) or m[1].count("}") != len(words) - 1:
            return None
        paths.append(tuple(words))
    return paths


def judge(rec, o):
    want, src = rec["out"], source(rec["in"])
    if "paths" not in o:
        return f"{src}: gives {str(o)[:300]}"
    got = parse(o["paths"])
    if got is None:
        return f"{src}: unreadable report {o['paths']!r}"
    all_ = {tuple(w["p"]): tuple(w["at"]) for w in want["all"]}
    if len(got) != len(set(got)) or o["size"] != len(got):
        return f"{src}: a path reported twice, size {o['size']}: {got}"
    wrong = [p for p in got if p not in all_]
    if wrong:
        return f"{src}: reported but no such path: {wrong}"
    if not want["rec"] and set(got) != set(all_):
        return f"{src}: not reported {sorted(set(all_) - set(got))}"
    left = {tuple(h) for h in want["hazards"]} - {all_[p] for p in got}
    return f"{src}: no path reported to {sorted(left)}" if left else None


@check("P32", FUNC + " (Npo.tla)", level="model_checking",
       note="Paths of bounded length through every schema of the families, computed as walks; the report of Config::n_plus_one is compared with them: no path that is not one, none twice, all of them when no place leads back to itself, and at least one path to every hazard otherwise. Paths through interfaces and unions and mutation roots are not judged.",
       assumptions=["a recursive schema has infinitely many such paths; the report has to lead to each hazard at least once"])
def p32(ctx):
    for fam in ("graph", "entity", "made"):
        r = ctx.tlc("Npo", f"Npo.{fam}.{'quick' if fam == 'made' else tier(ctx)}.cfg")
        ctx.functional("config", r.emitted, to_case, judge)
