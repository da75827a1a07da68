#!/usr/bin/env python3
"""Lays out /verif/.build/ws: a cargo workspace in which the *whole* tailcall crate of
/repo's working tree (not only the part /opt/vp builds) type-checks and links offline,
plus the conformance driver.

Nothing under /repo/src is copied or edited: `src` is a symlink to /repo/src, and the
workspace members that tailcall depends on are symlinks to /repo's directories. Only
Cargo.toml is derived, from /repo/Cargo.toml as it is now: the four dependencies that
cannot be fetched offline, and the two that read the wall clock, are pointed at the stand-ins in
/verif/harness/stubs, and the
members that are not needed are left out."""
import os
import re
import sys
import tomllib

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
WS = os.environ.get("VERIF_WS", os.path.join(os.path.dirname(HERE), ".build", "ws"))

STUBS = {
    "genai": ', optional = true',
    "htpasswd-verify": '',
    "tailcall-tracker": ', optional = true',
    "async-graphql-extension-apollo-tracing": '',
    # not missing, but replaced so that they follow tokio's (pausable) clock
    "futures-timer": ', features = ["wasm-bindgen"]',
    "ttl_cache": '',
}
KEEP_MEMBERS = ["tailcall-typedefs-common", "tailcall-macros", "tailcall-fixtures",
                "tailcall-hasher", "tailcall-http-cache", "tailcall-version", "tailcall-prettier"]


def put(path, text):
    if os.path.islink(path):
        os.unlink(path)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def link(src, dst):
    if os.path.islink(dst):
        if os.readlink(dst) == src:
            return
        os.unlink(dst)
    os.symlink(src, dst)


def manifest():
    text = open(f"{REPO}/Cargo.toml").read()
    for d, opt in STUBS.items():
        text, n = re.subn(rf"(?m)^{re.escape(d)}\s*=.*$",
                          f'{d} = {{ path = "{HERE}/stubs/{d}"{opt} }}', text)
        assert n == 1, d
    out = []
    for block in re.split(r"(?m)^(?=\[)", text):
        if block.startswith(("[[bench]]", "[[test]]", "[dev-dependencies]")):
            continue
        if block.startswith("[package]"):
            block = block.rstrip() + "\nautobenches = false\nautoexamples = false\nautotests = false\n\n"
        if block.startswith("[workspace]"):
            members = "".join(f'    "{m}",\n' for m in ["."] + KEEP_MEMBERS) + f'    "driver",\n'
            block = f"[workspace]\nmembers = [\n{members}]\n\n"
        if re.match(r"\[profile\.", block):
            continue
        out.append(block)
    text = "".join(out)
    text += "[profile.dev]\ndebug = 0\nincremental = true\n"
    tomllib.loads(text)
    return text


def main():
    os.makedirs(WS, exist_ok=True)
    put(f"{WS}/Cargo.toml", manifest())
    put(f"{WS}/Cargo.lock", open(f"{HERE}/Cargo.lock").read()) if os.path.exists(f"{HERE}/Cargo.lock") else None
    for e in KEEP_MEMBERS + ["src", "generated", "tests", "examples"]:
        link(f"{REPO}/{e}", f"{WS}/{e}")
    link(f"{HERE}/driver", f"{WS}/driver")


if __name__ == "__main__":
    sys.exit(main())
