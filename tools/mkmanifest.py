"""Writes /verif/MANIFEST.json from the list of checks below; run after adding a check."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "C01": ("model_checking", "explicit-state exploration of a strict-HTML pushdown automaton, every word replayed on the real parser", "Every document of the enumerated spaces (token words, all small forests, all code points, all depths/widths/lengths up to the bounds) is parsed by the real code and compared with the automaton's tree; beyond the bounds nothing is claimed."),
 "C02": ("model_checking", "explicit-state exploration of a strict-HTML pushdown automaton (rejecting runs) replayed on the real parser", "Every malformed document of the enumerated spaces (words, all truncations, all single edits, name pairs, late and deep errors) has to be rejected by the real parser; bounded."),
 "C03": ("model_checking", "exhaustive enumeration of attribute syntaxes against a reference automaton and a generator", "All spellings x element kinds x neighbours, all short strings of attribute syntax, all code points, all counts and lengths up to the bounds on the real parser; bounded."),
 "C04": ("model_checking", "exhaustive enumeration of character references against a reference decoder of the HTML standard", "All 2231 names x followers x contexts, every number, all short words of reference parts on the real parser; the decoder is itself compared with html5ever's tokenizer on each run."),
 "C05": ("model_checking", "exhaustive enumeration of tag names and raw contents against class-derived outcomes and a reference automaton", "All case variants, all words of up to 3 (4) letters, all near names, all short words of raw content on the real parser; bounded."),
}
import importlib.util, sys
extra = os.path.join(here, "tools", "notes.json")
if os.path.exists(extra):
    NOTES.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in NOTES and os.path.exists(os.path.join(here, "harness/src/bin", p.lower() + ".rs")):
        lv, tech, note = NOTES[p]
        checks.append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": tech, "level": lv, "level_note": note})
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: every check drives the public API. Findings: known_findings.txt. Design and bounds: DESIGN.md."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
