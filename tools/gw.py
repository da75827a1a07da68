"""gw.py case.json|- : run one gateway case (or list) by hand and print the observation."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vlib


def run(cases, suite="gateway", build=False):
    b = vlib.build() if build else os.path.join(vlib.BUILD, "target", "debug", "driver") if not os.environ.get("DRV") else os.environ["DRV"]
    with tempfile.TemporaryDirectory() as d:
        json.dump(cases, open(d + "/i", "w"))
        subprocess.run([b, suite, d + "/i", d + "/o"], check=True)
        return json.load(open(d + "/o"))


def show(sdl, reqs, build=False, **kw):
    case = dict(files={"main.graphql": sdl, **kw.pop("files", {})}, steps=[r if isinstance(r, dict) and set(r) & {"req", "par", "rules", "advance", "restart"} else dict(req=r if isinstance(r, dict) else dict(q=r)) for r in reqs], **kw)
    o = run([case], build=build)[0]
    for s in o if isinstance(o, list) else [o]:
        print(json.dumps(s)[:1500])
    return o


if __name__ == "__main__":
    c = json.load(sys.stdin if sys.argv[1] == "-" else open(sys.argv[1]))
    for o in run(c if isinstance(c, list) else [c], build=True):
        print(json.dumps(o, indent=1))
