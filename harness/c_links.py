"""P31: what a configuration links to, as spec/Links.tla prescribes it."""
import base64
import json

from checks import check
from c_json import FUNC, tier


def schema(field, links="", settings="", more="", fields=""):
    return 'schema %s %s { query: Query }\ntype Query { %s: String @expr(body: "v") %s }\n%s' % (settings, links, field, fields, more)


def pem(kind, text):
    return f"-----BEGIN {kind}-----\n{base64.b64encode(text.encode()).decode()}\n-----END {kind}-----\n"


def proto(message, package, imports=()):
    return 'syntax = "proto3";\n' + (f"package {package};\n" if package else "") + "".join(f'import "{i}";\n' for i in imports) + \
        f"message {message} {{ string a = 1; }}\nservice {message}S {{ rpc Get({message}) returns ({message}) {{}} }}\n"


PATH = dict(C1="c/one.graphql", C2="two.graphql", CR="http://h/r.graphql", CE="env.graphql", CS="c/self.graphql", CX="bad.graphql", CT="bad.txt",
            CM="c/none.graphql", P1="p/p1.proto", P2="p/p2.proto", PC="pc.proto", PD="pd.proto", PN="pn.proto", PI="pi.proto", PX="px.proto",
            O1="o1.graphql", O2="o2.graphql", OX="ox.graphql", S1="s1.js", S2="s2.js", SM="sm.js", K1="k1.pem", K2="k2.pem", E1="e1.pem", E2="e2.pem",
            H1="h1", H2="h2", HM="c/hm", W1="w1.json", W2="w2.json", WX="wx.json")
TEXT = dict(
    C1=schema("c1", '@link(src: "gone.graphql") @link(src: "gone.js", type: Script)', '@server(port: 1234) @upstream(timeout: 77)', "type T1 { a: Int }", "t1: T1 @expr(body: {a: 1})"),
    C2=schema("c2"), CR=schema("cr"), CE=schema("{{.env.F}}"), CS=schema("cs", '@link(src: "../root0.graphql") @link(src: "self.graphql")'),
    CX="type Query {", CT=schema("ct"), P1=proto("P1", "p.one", ["p2.proto"]), P2=proto("P2", "p.two"), PC=proto("PC", "p.c", ["pd.proto"]),
    PD=proto("PD", "p.d", ["pc.proto"]), PN=proto("PN", ""), PI=proto("PI", "p.i", ["gone.proto"]), PX='syntax = "proto3"; package x; message {',
    O1='query @rest(method: GET, path: "/o1") { root1 }', O2='query @rest(method: POST, path: "/o2") { root1 }', OX="query {", S1="s1", S2="s2",
    K1=pem("PRIVATE KEY", "k1"), K2=pem("RSA PRIVATE KEY", "k2"), E1=pem("CERTIFICATE", "e1"), E2=pem("CERTIFICATE", "e2") + pem("CERTIFICATE", "e3"),
    H1="u1:p", H2="u2:p", W1=json.dumps({"keys": []}), W2=json.dumps({"keys": [{"kty": "oct", "kid": "2", "k": "YWFh"}]}), WX="{")
CERTS = dict(E1=["e1"], E2=["e2", "e3"])
OPERATIONS = dict(O1=("GET", "/o1"), O2=("POST", "/o2"))
MISSING = {"CM": "c/none.graphql", "SM": "sm.js", "HM": "c/hm", "PI": "gone.proto"}
FROM = {}


def to_case(rec, kind):
    c = rec["in"]
    files, entry = {}, []
    for r, t in TEXT.items():
        if r != "CR":
            files[c["dir"] + PATH[r]] = files[c["dir2"] + PATH[r]] = t
    for i, links in enumerate(c["roots"]):
        text = ""
        for x in links:
            src = PATH.get(x["r"], "")
            text += '@link(src: "%s"%s%s) ' % (src, ', type: ' + kind[x["r"]] if kind[x["r"]] != "Config" else "", f', id: "{x["id"]}"' if x["id"] else "")
        path = f"{c['dir2' if i else 'dir']}root{i}.graphql"
        field = f"root{i + 1}"
        rpc, more = "", ""
        protos = [x["r"] for links in c["roots"] for x in links if x["r"] in ("P1", "P2")]
        if i == 0 and rec["out"]["ok"] and protos:  # makes the blueprint use the protobuf files
            rpc, more = f'rpc: M @grpc(url: "http://g", method: "p.{dict(P1="one", P2="two")[protos[0]]}.{protos[0]}S.Get")', "type M { a: String }"
        files[path] = schema(field, text, f'@server(port: {8000 + i}) @upstream(allowedHeaders: ["authorization"], timeout: {i + 1})', more, rpc)
        entry.append(path)
    return dict(files=files, entry=entry, env={"F": "ce"}, rules=[dict(url="http://h/r.graphql", text=TEXT["CR"])])


def judge(rec, o):
    c, want = rec["in"], rec["out"]
    if "err" in o:
        if want["ok"]:
            return f"loading fails: {o['err']}"
        if len(want["missing"]) == 1 and want["missing"][0] in MISSING and MISSING[want["missing"][0]] not in o["err"]:
            return f"the error names not the missing {MISSING[want['missing'][0]]}: {o['err']}"
        return None
    if not want["ok"]:
        return f"loads although {want['missing']} cannot be read"
    m, got, ext = want["module"], o["config"], o["ext"]
    fields = sorted(set(got["types"]["Query"]["fields"]) - {"rpc", "t1"})
    if fields != sorted(m["fields"]):
        return f"fields {fields} rather than {sorted(m['fields'])}"
    if ("T1" in got["types"]) != ("c1" in m["fields"]):
        return "the types of C1"
    if got["server"].get("port") != 8000 or got["upstream"].get("timeout") != 1:
        return f"settings are not the first root's: {got['server']} {got['upstream']}"
    protos = sorted({x for p in ext["protos"] for x in p[2]})
    if protos != sorted(m["protos"]):
        return f"protobuf files {protos} rather than {sorted(m['protos'])}"
    for what, a, b in [
            ("operations", sorted(set(map(tuple, ext["operations"]))), sorted({OPERATIONS[r] for r in m["operations"]})),
            ("certificates", [bytes(x).decode() for x in ext["certs"]], [x for r in m["certs"] for x in CERTS[r]]),
            ("htpasswd", ext["htpasswd"], [[x["id"] or None, TEXT[x["r"]]] for x in m["htpasswd"]]),
            ("jwks", [[i, len(k["keys"])] for i, k in ext["jwks"]], [[x["id"] or None, dict(W1=0, W2=1)[x["r"]]] for x in m["jwks"]])]:
        if a != b:
            return f"{what} {a} rather than {b}"
    if len(m["script"]) <= 1 and ext["script"] != ({"S1": "s1", "S2": "s2"}[m["script"][0]] if m["script"] else None):
        return f"script {ext['script']}"
    if len(m["keys"]) <= 1 and len(ext["keys"]) != len(m["keys"]):
        return f"{len(ext['keys'])} keys"
    if want["valid"] != (o["blueprint"] is None):
        linked = {x["r"] for links in c["roots"] for x in links}
        what = f"blueprint: {o['blueprint']}"
        if not want["valid"]:
            return what
        if {"P1", "P2"} <= linked and "already defined in file" in o["blueprint"]:
            return what, "linked-and-imported"
        if "PC" not in linked:  # imports in a cycle are not allowed in protobuf
            return what
    reads = sorted([d + PATH[r] if r != "CR" else PATH[r] for d, r in m["reads"]] + [f"{c['dir2' if i else 'dir']}root{i}.graphql" for i in range(len(c["roots"]))])
    seen = sorted(o["reads"] + o["calls"])
    if (seen if len(c["roots"]) == 1 else sorted(set(seen))) != reads:
        return f"files read: {seen} rather than {reads}"
    return None


@check("P31", FUNC)
def p31(ctx):
    kind = dict(none="Config", nokey="Key")
    for r in PATH:
        kind[r] = dict(C="Config", P="Protobuf", O="Operation", S="Script", K="Key", E="Cert", H="Htpasswd", W="Jwks")[r[0]]
    for family in ("one", "two"):
        ctx.functional("links", ctx.tlc("Links", f"Links.{family}.{tier(ctx)}.cfg").emitted, lambda r: to_case(r, kind), judge)
