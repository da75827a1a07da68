"""Tagged values of spec/JsonVal.tla."""
import json


def plain(t):
    k = t[0]
    if k == "n":
        return None
    if k == "b":
        return t[1] == "true"
    if k in ("i", "f"):
        return json.loads(t[1])
    if k == "s":
        return t[1]
    if k == "a":
        return [plain(x) for x in t[1]]
    return {a: plain(b) for a, b in t[1]}


def unordered(t):
    if t[0] == "a":
        return ["a", [unordered(x) for x in t[1]]]
    if t[0] == "t":
        return ["t", t[1], unordered(t[2])]
    if t[0] == "o":
        return ["o", sorted([a, unordered(b)] for a, b in t[1])]
    return t
