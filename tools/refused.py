#!/usr/bin/env python3
"""refused.py PNN LOG: is every error of a failed build about a declaration that the library has to support?
If so, write the replay and evidence files and print the violation (exit 1); otherwise exit 2."""
import json, os, re, sys

p, log = sys.argv[1:]
text = open(log, errors="replace").read()
bin = p.lower()
blocks = re.split(r"\n(?=error|warning)", "\n" + text)
errors = [b.strip() for b in blocks if re.match(r"\n?error", b) and not re.match(r"\n?error: could not compile|\n?error: aborting", b)]


def about_declaration(b):
    m = re.search(r"--> (\S+?):\d+", b)
    if not m:
        return False
    at = m[1]
    if at.endswith(f"/out/{bin}.rs") or at.endswith("borrowed.rs"):
        return True
    # the other hand-written declarations of the checks
    return "/repo/" not in at and re.match(r"(harness/)?src/", at) and re.search(r"(originates in|in) (the|this) derive macro `[\w:]*Deku(Read|Write|Size)|proc-macro derive panicked", b) is not None


if not errors or not all(about_declaration(b) for b in errors):
    sys.exit(2)
v = os.environ["VERIF_DIR"]
r = f"{v}/replays/{p}-declarations.json"
seed = int(os.environ["VERIF_SEED"])
msg = "\n".join(errors)[:6000]
json.dump({"property": p, "leg": "declarations", "seed": seed, "kind": "declaration refused", "message": msg}, open(r, "w"), indent=1)
json.dump({"property": p, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": seed, "level": "exploration",
           "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "generated declarations have to compile", "samples": [msg[:1500]]},
           "assumptions": [], "wall_s": 0, "violations": 1}, open(f"{v}/evidence/{p}.json", "w"), indent=1)
print(f"{p}: a generated declaration does not compile")
print(f"VIOLATION property={p} replay={r}")
sys.exit(3)
