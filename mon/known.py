"""Reads the list of known findings (never writes it)."""
import json
import os

from . import rt


def load(prop):
    out = []
    with open(os.path.join(rt.VERIF, 'known_findings.txt'),
              encoding='utf-8') as f:
        for ln in f:
            head = f'known: property={prop} '
            if ln.startswith(head):
                out.append(json.loads(ln[len(head):]))
    return out
