#!/usr/bin/env python3
"""Writes properties.jsonl (kept here as Python for readability)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [],
                               hook_needed=None)))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.py")).read())
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as fh:
    for x in P:
        fh.write(json.dumps(x) + "\n")
