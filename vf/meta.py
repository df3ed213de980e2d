"""Single source of properties.jsonl and MANIFEST.json: python3 vf/meta.py rewrites both."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, spec, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, spec=spec, note=note))


exec(open(os.path.join(ROOT, "vf", "meta_props.py")).read())
P.sort(key=lambda p: p["id"])

NOT_APPLICABLE = []
NOTES = ("TLA+ with TLC. Every check: (1) TLC model-checks the specification's own properties; (2) behaviours generated from "
         "the specification drive the real crates through their public API; (3) TLC validates the recorded calls and results "
         "against the trace specification. No hook in /repo is needed: everything is observed through public API.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {
        "version": 1, "setup_cmd": "python3 vf/run.py setup",
        "hooks": {"guard": "none", "enable": "no hook is needed; the harness crate uses the public API of /repo's crates",
                  "source_commits": []},
        "checks": [{
            "property": p["id"], "quick_cmd": f"python3 vf/run.py {p['id']} quick",
            "thorough_cmd": f"python3 vf/run.py {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
            "technique": f"TLA+ specification ({p['spec']}) checked with TLC; generated behaviours replayed in the code and recorded "
                         "traces validated against the specification",
            "level": "model_checking", "level_note": p["note"]} for p in P],
        "not_applicable": NOT_APPLICABLE, "notes": NOTES,
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
