"""Independent CommonMark implementation (markdown-it-py), used as an oracle
for how a table of contents renders."""
from __future__ import annotations

from markdown_it import MarkdownIt

_MD = MarkdownIt('commonmark', {'html': True})


class Item:
    __slots__ = ('depth', 'number', 'ordered', 'links', 'text', 'marker',
                 'extra')

    def __init__(self, depth, number, ordered, marker):
        self.depth, self.number, self.ordered = depth, number, ordered
        self.marker = marker
        self.links = []
        self.text = ''
        self.extra = []


def plain(children):
    """Text and links of an inline token."""
    text, links, cur, extra = [], [], None, []
    for t in children:
        if t.type == 'link_open':
            if t.markup == 'autolink':
                extra.append('autolink')
            if cur is not None:
                extra.append('link in link')
            cur = [t.attrGet('href'), []]
        elif t.type == 'link_close':
            if cur is not None:
                links.append((cur[0], ''.join(cur[1])))
            cur = None
        elif t.type in ('text', 'code_inline', 'text_special'):
            text.append(t.content)
            if cur is not None:
                cur[1].append(t.content)
        elif t.type in ('softbreak', 'hardbreak', 'html_inline', 'image'):
            extra.append(t.type)
    return ''.join(text), links, extra


def render(toc: str):
    """(items in document order, tokens that are not part of lists)."""
    items, stack, stray = [], [], []
    cur = []
    for t in _MD.parse(toc):
        if t.type in ('bullet_list_open', 'ordered_list_open'):
            start = t.attrGet('start')
            stack.append([t.type.startswith('ordered'),
                          1 if start is None else int(start)])
        elif t.type in ('bullet_list_close', 'ordered_list_close'):
            stack.pop()
        elif t.type == 'list_item_open':
            it = Item(len(stack), stack[-1][1], stack[-1][0], t.markup)
            stack[-1][1] += 1
            items.append(it)
            cur.append(it)
        elif t.type == 'list_item_close':
            cur.pop()
        elif t.type == 'inline':
            if not cur:
                stray.append('inline')
            else:
                it = cur[-1]
                text, links, extra = plain(t.children or [])
                if it.text or it.links:
                    it.extra.append('second block')
                it.text += text
                it.links += links
                it.extra += extra
        elif t.type not in ('paragraph_open', 'paragraph_close'):
            (cur[-1].extra if cur else stray).append(t.type)
    return items, stray


def inline_text(text: str):
    """Visible text, links and other things of a piece of inline Markdown."""
    return plain(_MD.parseInline(text)[0].children or [])
