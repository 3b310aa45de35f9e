"""helper: P(id, title, statement, over, text, why, files, mechanism, observe, technique, note, na=None)"""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props")


def P(id, title, statement, over, text, why, files, mech, observe=(), technique="", note="", state=(), na=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": list(observe), "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if na:
        d["not_applicable"] = na
    else:
        d["technique"] = technique
        d["level_note"] = note
    json.dump(d, open(os.path.join(D, id + ".json"), "w"), indent=1)
