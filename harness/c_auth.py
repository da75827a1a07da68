"""P20, P21: authentication."""
import base64
import hashlib
import hmac
import json

from checks import check
from c_json import FUNC, tier

KEYS = {"t1": [["k1", "s1", True], ["k2", "s2", True]], "t2": [["k1", "s1", True]],
        "t3": [["k1", "s1", True], ["k2", "s2", True]], "t4": [["k1", "s1", False]]}


def b64(b):
    return base64.urlsafe_b64encode(b).rstrip(b"=").decode()


def jwk(kid, secret, alg):
    k = dict(kty="oct", k=b64(secret.encode()), kid=kid)
    return dict(k, alg="HS256") if alg else k


def token(t):
    head = dict(typ="JWT", alg="HS256")
    if t["kid"]:
        head["kid"] = t["kid"][0]
    body = {}
    if t["iss"]:
        body["iss"] = t["iss"][0]
    if t["aud"]:
        body["aud"] = t["aud"][1] if t["aud"][0] == "one" else t["aud"][1:]
    if t["exp"] != "none":
        body["exp"] = 4102444800 if t["exp"] == "future" else 1000000000
    msg = b64(json.dumps(head).encode()) + "." + b64(json.dumps(body).encode())
    return msg + "." + b64(hmac.new(t["sec"].encode(), msg.encode(), hashlib.sha256).digest())


def credential(c):
    """The authorization headers of a credential of spec/Auth.tla."""
    if c[0] == "none":
        return []
    if c[0] == "basic":
        return [["authorization", "Basic " + base64.b64encode(f"{c[1]}:{c[2]}".encode()).decode()]]
    if c[0] == "token":
        return [["authorization", "Bearer " + token(c[1])]]
    return [["authorization", c[1]]]


def sha(pw):
    return "{SHA}" + base64.b64encode(hashlib.sha1(pw.encode()).digest()).decode()


PROVIDERS = {
    "b1": dict(htpasswd=f"alice:{sha('pw')}\n"),
    "b2": dict(htpasswd=f"alice:{sha('pw2')}\nbob:{sha('pw')}\n"),
    **{n: dict(jwks=dict(keys=[jwk(*k) for k in KEYS[n]]), issuer={"t2": "me"}.get(n), audiences=["x", "y"] if n == "t3" else [],
               optional_kid=n == "t3") for n in KEYS},
}


@check("P20", FUNC, note="All and/or trees over up to three (four thorough) of six providers (basic; tokens with issuer, audience, optional key id, key without "
       "algorithm) against some 70 credentials in one session: right, wrong, missing, malformed and foreign-scheme.")
def p20(ctx):
    recs = ctx.tlc("Auth", f"Auth.{tier(ctx)}.cfg").emitted

    def judge(r, o):
        if not isinstance(o, list):
            return f"the code {o}"
        ctx.traces += len(o)
        for c, got, want in zip(r["in"]["creds"], o, r["out"]):
            if got != want:
                return f"{r['in']['tree']} with {c} decides {got}, specification {want}"
        return None
    ctx.functional("auth", recs, lambda r: dict(tree=r["in"]["tree"], providers=PROVIDERS, headers=[credential(c) for c in r["in"]["creds"]]), judge)
