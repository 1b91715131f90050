#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and props.py (which says what is checked how)."""
import json
from props import PROPS

P = []
NA = []


def p(id, title, statement, over, text, why, files, mechanism, observe=(), hook=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=list(observe), hook_needed=hook)))
    if na:
        NA.append(dict(property=id, reason=na))


HOOK = "cfg(victor_verif) module in the same crate module, for private items"
exec(open(__file__.replace("mk.py", "texts.py")).read())

if __name__ == "__main__":
    ids = [x["id"] for x in P]
    assert len(set(ids)) == len(ids)
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        assert (x["id"] in PROPS) != any(n["property"] == x["id"] for n in NA), x["id"]
    assert set(PROPS) <= set(ids), set(PROPS) - set(ids)
    with open("properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    checks = []
    for x in P:
        if x["id"] in PROPS:
            pr = PROPS[x["id"]]
            checks.append(dict(
                property=x["id"], quick_cmd="python3 check.py %s --tier quick" % x["id"],
                thorough_cmd="python3 check.py %s --tier thorough" % x["id"],
                technique="symbolic execution of the compiled code (LLVM IR) with an SMT solver (z3)",
                level="model_checking",
                level_note="Every path of the real code within the stated bounds, each assertion decided by z3 for all values on the path; harness and rustc/LLVM front end trusted; "
                           "violations replayed natively before they are reported, sampled paths replayed too. Bounds: " + pr["bounds"] + "."))
    m = dict(version=1, setup_cmd="python3 check.py --setup",
             hooks=dict(guard="cfg(victor_verif)", enable='RUSTFLAGS="--cfg victor_verif" with VICTOR_VERIF_DIR naming the directory of harness modules (check.py does both)',
                        source_commits=["207bfe193d20dcae881500c2a68af69971a835f7", "56ae0a2d5ccd504e64f68e8e0aedf1d1584c395d"]),
             checks=checks, not_applicable=NA,
             notes="check.py rebuilds the symbolic-execution module from /repo's working tree whenever its contents changed; see DESIGN.md.")
    json.dump(m, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    print(len(P), "properties,", len(checks), "checks,", len(NA), "not applicable")
