"""The properties: what properties.jsonl, MANIFEST.json and check.py are made from (see gen.py)."""
PROPS = []
NOT_APPLICABLE = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, units, level, rule, bounds,
         assumptions=(), state=(), technique=None, note=""):
    PROPS.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier={"over": over.split(), "text": " ".join(text.split())},
        why_tests_cant=" ".join(why.split()),
        anchors={"files": ["include/stdex/" + f for f in files],
                 "mechanism": [{"name": n, "where": "include/stdex/" + w} for n, w in mechanism],
                 "state": [{"name": n, "meaning": m, "where": "include/stdex/" + w} for n, m, w in state],
                 "observe_at": list(observe), "hook_needed": None},
        units=units, level=level, rule=" ".join(rule.split()), bounds=" ".join(bounds.split()),
        assumptions=list(assumptions),
        technique=technique or "stateless model checking of the real code: exhaustive depth-first enumeration of choice vectors",
        note=" ".join(note.split())))

from . import concurrency, streams, text, util, parsers
