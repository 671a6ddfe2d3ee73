"""Observation of a table of contents and comparison with the model."""
from __future__ import annotations

import re

from . import model as M

_LINK = re.compile(r'( *)(\d*)([-+*.)]) \[(.*)\]\(#([^()]*)\)\Z', re.DOTALL)
_PLAIN = re.compile(r'( *)(\d*)([-+*.)]) (.*)\Z', re.DOTALL)


class Seen:
    """One line of an observed table of contents."""
    __slots__ = ('raw', 'indent', 'num', 'marker', 'label', 'anchor')

    def __init__(self, raw, no_links):
        self.raw = raw
        m = (_PLAIN if no_links else _LINK).match(raw)
        if m is None:
            self.indent = self.num = self.marker = self.label = None
            self.anchor = None
            return
        self.indent = len(m.group(1))
        self.num = m.group(2)
        self.marker = m.group(3)
        self.label = m.group(4)
        self.anchor = None if no_links else m.group(5)


def split_toc(text: str, newline: str):
    """Lines of a TOC, or None if it does not end with its separator."""
    if text == '':
        return []
    if not text.endswith(newline):
        return None
    return text[:-len(newline)].split(newline)


def observed(result, o):
    """None if there is no TOC, otherwise the list of its lines."""
    if not result.ok or not isinstance(result.value, str):
        return None
    lines = split_toc(result.value, o.newline_string)
    if lines is None:
        return None
    return [Seen(x, o.no_links) for x in lines]


def unpad(label):
    """Redcarpet: a space after a trailing backslash is not specified when
    the heading has a closing sequence."""
    return label[:-1] if label.endswith('\\ ') else label


def expect(ctx, case, doc, o, project, expected_of, kind, slug_fn=M.slug,
           timeouts_ok=True, tolerant=False):
    """Compare a projection of the observed lines with the model's."""
    entries, err = M.toc_entries(doc, o, slug_fn)
    r = ctx.toc(doc, o)
    if r.kind == 'timeout' and timeouts_ok:
        return None
    if err:
        # Which headings are refused is decided by the checks on coherence
        # and on limits.
        ctx.events['refused documents'] += 1
        return None
    want = [expected_of(e) for e in entries]
    lines = observed(r, o)
    ctx.require(lines is not None, case, kind, opts=o.kwargs(), doc=doc,
                got=r.brief(), want=want[:20])
    got = [project(s) for s in lines]
    if got != want:
        i = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b),
                 min(len(got), len(want)))
        ctx.violate(case, kind, opts=o.kwargs(), doc=doc[:3000], at=i,
                    got=got[max(0, i - 1):i + 3],
                    want=want[max(0, i - 1):i + 3], n_got=len(got),
                    n_want=len(want))
    return entries, lines
