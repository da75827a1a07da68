"""P37: introspection describes the contract that is served, as spec/Introspect.tla prescribes."""
import json

from checks import check
from c_json import FUNC, tier
from tagged import plain

BUILTIN = {"Int", "Float", "String", "Boolean", "ID"}
ASK = """{ __schema { queryType { name } mutationType { name } subscriptionType { name } types { kind name description
  fields(includeDeprecated: true) { name description args { ...I } type { ...T } } inputFields { ...I } interfaces { name } possibleTypes { name } enumValues(includeDeprecated: true) { name } } } }
fragment I on __InputValue { name description defaultValue type { ...T } }
fragment T on __Type { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name } } } } } } }"""


def ref(t):
    return (t[1] if t[0] == "n" else f"[{ref(t[1])}]") + ("!" if t[2] else "")


def base(t):
    return base(t[1]) if t[0] == "l" else t[1]


def literal(v, t, types):
    if isinstance(v, dict):
        ins = {a["n"]: a["t"] for a in types.get(base(t), dict(ins=[]))["ins"]}
        return "{" + " ".join(f"{k}: {literal(x, ins[k], types)}" for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(literal(x, t, types) for x in v) + "]"
    return v if isinstance(v, str) and types.get(base(t), {}).get("kind") == "ENUM" else json.dumps(v)


def said(x, end=" "):
    return json.dumps(x["d"]) + end if x["d"] else ""


def sdl(r):
    types = {t["n"]: t for t in r["cfg"]}
    on = r["ask"][0]["on"] if r["ask"] else True
    out = [f"schema @server(introspection: {json.dumps(on)}) @upstream {{ " + " ".join(f"{'query' if n == 'Query' else 'mutation'}: {n}" for n in sorted(r["roots"], reverse=True)) + " }"]

    def value(a):
        return said(a) + f"{a['n']}: {ref(a['t'])}" + (f" = {literal(plain(a['def'][0]), a['t'], types)}" if a["def"] else "")

    def field(t, f):
        res = ""
        if t["n"] in ("Query", "M"):
            res = f' @http(url: "http://up/{f["n"]}")'
            if f["n"] == "c":
                res = ' @expr(body: "x")'
            elif r["echo"] and f["n"] == "f":
                res = ' @expr(body: "{{.args}}")'
        if f["as"] != f["n"]:
            res += f' @modify(name: "{f["as"]}")'
        if f["omit"]:
            res += " @omit"
        return said(f) + f["n"] + ("(" + ", ".join(map(value, f["args"])) + ")" if f["args"] else "") + f": {ref(f['t'])}{res}"
    for t in r["cfg"]:
        head = said(t, "\n")
        if t["kind"] == "ENUM":
            out.append(head + f"enum {t['n']} {{ {' '.join(t['vals'])} }}")
        elif t["kind"] == "SCALAR":
            out.append(head + f"scalar {t['n']}")
        elif t["kind"] == "UNION":
            out.append(head + f"union {t['n']} = {' | '.join(t['of'])}")
        elif t["kind"] == "INPUT_OBJECT":
            out.append(head + f"input {t['n']} {{\n  " + "\n  ".join(map(value, t["ins"])) + "\n}")
        else:
            impl = (" implements " + " & ".join(t["impl"])) if t["impl"] else ""
            add = "".join(f' @addField(name: "{n}", path: {json.dumps(p)})' for n, p in t["add"])
            out.append(head + f"{'interface' if t['kind'] == 'INTERFACE' else 'type'} {t['n']}{impl}{add} {{\n  " + "\n  ".join(field(t, f) for f in t["fs"]) + "\n}")
    return "\n".join(out)


def chain(t):
    return [t["kind"], chain(t["ofType"]) if t["kind"] in ("LIST", "NON_NULL") else t["name"]]


def told(t):
    """what introspection tells about a type"""
    def value(a):
        return (a["name"], str(chain(a["type"])), a["description"] or "", a["defaultValue"])
    return dict(kind=t["kind"], d=t["description"] or "",
                fields={(f["name"], str(chain(f["type"])), f["description"] or "", frozenset(map(value, f["args"]))) for f in t["fields"] or []},
                ins=set(map(value, t["inputFields"] or [])), impl={x["name"] for x in t["interfaces"] or []} if t["kind"] == "OBJECT" else set(),
                of={x["name"] for x in t["possibleTypes"] or []}, vals={x["name"] for x in t["enumValues"] or []})


def prescribed(t):
    def value(a):
        return (a["n"], str(a["t"]), a["d"], a["def"][0] if a["def"] else None)
    return dict(kind=t["kind"], d=t["d"], fields={(f["n"], str(f["t"]), f["d"], frozenset(map(value, f["args"]))) for f in t["fields"]},
                ins=set(map(value, t["ins"])), impl=set(t["impl"]), of=set(t["of"]), vals=set(t["vals"]))


def asked(ask):
    """the document of a way of asking"""
    fields, frags = [], []
    texts = {"c": "c", "f": "f", "schema": "__schema", "type": '__type(name: "A")', "nope": '__type(name: "Nope")', "var": "__type(name: $n)", "typename": "__typename"}
    subs = {"f": " { a }", "schema": " { queryType { name } }", "type": " { kind name }", "nope": " { kind }", "var": " { kind name }"}
    dirs = {"": "", "skip": " @skip(if: true)", "include": " @include(if: true)", "skip if": " @skip(if: $yes)", "skip unless": " @skip(if: $no)"}
    for k, x in enumerate(ask["xs"]):
        name = texts[x["what"]]
        d = dirs[x["dir"]]
        f = ("" if name.split("(")[0] == x["as"] else x["as"] + ": ") + name + ("" if x["outer"] else d) + subs.get(x["what"], "")
        d = d if x["outer"] else ""
        if x["hold"] == "inline":
            f = f"... on Query{d} {{ {f} }}"
        elif x["hold"] == "bare":
            f = f"...{d} {{ {f} }}"
        elif x["hold"] in ("spread", "nested"):
            frags.append(f"fragment F{k} on Query {{ {f} }}")
            if x["hold"] == "nested":
                frags.append(f"fragment G{k} on Query {{ ...F{k} }}")
            f = f"...{'G' if x['hold'] == 'nested' else 'F'}{k}{d}"
        fields.append(f)
    body = " ".join(fields + frags)
    used = {n: t for n, t in (("$n", "String!"), ("$yes", "Boolean!"), ("$no", "Boolean!")) if n in body}
    head = "query Q(" + ", ".join(f"{n}: {t}" for n, t in used.items()) + ") " if used else ""
    return dict(q=head + "{ " + " ".join(fields) + " } " + " ".join(frags), v={n[1:]: dict(n="A", yes=True, no=False)[n[1:]] for n in used})


def differences(got, want):
    res = []
    for n in sorted({*got, *want}):
        if n not in got:
            res.append(f"{n} is not described")
        elif n not in want:
            res.append(f"{n} is described, though it cannot be reached")
        else:
            res += [f"{n}: {k} told {got[n][k] - want[n][k] if isinstance(got[n][k], set) else got[n][k]}, specification {want[n][k] - got[n][k] if isinstance(got[n][k], set) else want[n][k]}"
                    for k in got[n] if got[n][k] != want[n][k]]
    return res


@check("P37", FUNC, note="Configurations over every reference type up to lists of lists with every non-null mark, as results, arguments, fields of interfaces and input types; default values of scalars, enumerations, lists, "
       "lists of lists and input objects, with the field asked once without its argument and once with the default that is described; descriptions at every place; fields renamed, left out and added; unions of unions, "
       "interfaces by implementor, mutations. Introspection is asked alone, with data, aliased, inside of fragments, skipped and switched off. Laws: what is described is closed under reference, members and implementors "
       "agree in both directions, nothing left out is told, switching introspection off changes no data.",
       assumptions=["Descriptions of the values of enumerations and deprecations are not carried by configurations and are not asked for; interfaces of interfaces neither."])
def p37(ctx):
    for fam in ("refs", "defaults", "parts", "asked"):
        recs = ctx.tlc("Introspect", f"Introspect.{fam}.{tier(ctx)}.cfg").emitted

        def case(r):
            steps = [dict(req=dict(q=ASK))] if not r["ask"] else [dict(req=asked(r["ask"][0]))]
            steps += [dict(req=dict(q=q)) for e in r["echo"] for q in ("{ f }", f"{{ f({e['n']}: {e['lit']}) }}")]
            return dict(files={"main.graphql": sdl(r)}, rules=[dict(url="http://up/f", json=dict(a=1))], steps=steps)

        def judge(r, o):
            where = f"{sdl(r)!r}"
            if not isinstance(o, list):
                return f"{where}: {str(o)[:400]}, specification: served"
            got = [s["res"][0].get("j") or s["res"][0] for s in o]
            if r["ask"]:
                ask = asked(r["ask"][0])
                want = dict(data={k: plain(v) for k, v in r["ask"][0]["answer"]})
                return None if got[0] == want else f"introspection {'on' if r['ask'][0]['on'] else 'off'}: {ask} is answered {got[0]}, specification {want}"
            try:
                schema = got[0]["data"]["__schema"]
                roots = {n: (schema[n] or {}).get("name") for n in ("queryType", "mutationType", "subscriptionType")}
                if roots != (want := dict(queryType="Query", mutationType="M" if "M" in r["roots"] else None, subscriptionType=None)):
                    return f"{where}: the roots are {roots}, specification {want}"
                have = {t["name"]: told(t) for t in schema["types"] if not t["name"].startswith("__") and t["name"] not in BUILTIN}
                if len(have) != len([t for t in schema["types"] if not t["name"].startswith("__") and t["name"] not in BUILTIN]):
                    return f"{where}: types are described twice"
            except (KeyError, TypeError):
                return f"{where}: introspection is answered {str(got[0])[:400]}"
            if diff := differences(have, {t["n"]: prescribed(t) for t in r["out"]}):
                return f"{where}: " + "; ".join(diff)
            for e, a, b in zip(r["echo"] * 2, got[1:], ("without the argument", "with the described default")):
                if a != dict(data=dict(f={e["n"]: plain(e["v"])})):
                    return f"{where}: {b}, {a}, specification {plain(e['v'])}"
            return None
        ctx.functional("gateway", recs, case, judge)
