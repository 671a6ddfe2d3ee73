"""Every entry renders as one link to the anchor of its heading."""
import itertools
import re
import urllib.parse

from .. import diff, known, mdit, model as M
from ..gen import MARKUP, PUNCT, UNI_WORDS

LEVEL = 'exploration'
RULE = 'distinct (dialect, heading content) whose entry was rendered'
MUST_SEE = ['entries rendered', 'texts compared', 'entries with brackets',
            'entries with link syntax', 'entries with raw HTML',
            'brackets and backquotes']
ASSUMPTIONS = ['renderer: markdown-it-py, commonmark preset',
               'the anchor is compared when the heading has no "<" (inline '
               'HTML: see C05), the visible text when it has no brackets; '
               'headings with an autolink are a known finding']

# Raw HTML and what resembles it.
HTML = ['<b>', '</b>', '<br/>', '<a href="]">', "<i x='['>", '<!-- ] -->',
        '<?p ]?>', '<!X ]>', '<![CDATA[ ] ]]>', '<', '>', '<b', '"', "='", '<>']

CM = M.CMARK_LIKE
AUTOLINK = re.compile(r'<[A-Za-z][A-Za-z0-9+.-]*:|<[^<>@\s]+@')


def cases(ctx):
    g, r = ctx.gen, ctx.rng
    al = ['[', ']', '(', ')', '\\', 'a', '!', ' ']
    ts = [''.join(p) + 'z' for k in range(1, 6 if ctx.thorough else 5)
          for p in itertools.product(al, repeat=k)]
    ts += [''.join(p) for k in range(1, 6) for p in itertools.product(
        ['*', '_', '`', 'a', ' ', '\\'], repeat=k)]
    for i in ctx.mine(range(0, len(ts), 40)):
        yield dict(lines=['# ' + t for t in ts[i:i + 40]],
                   parser=CM[(i // 40 + ctx.seed) % 5])
    al = ['`', '[', ']', '\\', 'a', '``', ' ']
    ts = [''.join(p) + 'z' for k in range(1, 6 if ctx.thorough else 5)
          for p in itertools.product(al, repeat=k)]
    al = HTML + ['[', ']', '`', '\\', ' ']
    ts += [''.join(p) + 'z' for k in range(1, 4 if ctx.thorough else 3)
           for p in itertools.product(al, repeat=k)]
    for i in ctx.mine(range(0, len(ts), 40)):
        yield dict(lines=['# ' + t for t in ts[i:i + 40]],
                   parser=CM[(i // 40 + ctx.seed) % 5])
    if ctx.shard == 0:
        for k in known.load('C11'):
            yield dict(known=k['id'], doc=k['doc'])
    frag = sorted(set(MARKUP + PUNCT + UNI_WORDS + [
        t for t in g.new if '<' not in t]))
    pairs = list(itertools.product(frag, frag))
    ctx.shared_rng.shuffle(pairs)
    for i in ctx.mine(range(0, len(pairs) if ctx.thorough else 6000, 40)):
        yield dict(lines=[f'# {a} {b}' if k % 2 else f'# x{a}{b}y'
                          for k, (a, b) in enumerate(pairs[i:i + 40])],
                   parser=r.choice(CM))
    for _ in range(ctx.n(2000)):
        yield dict(lines=['# ' + ''.join(
            r.choice(HTML + MARKUP + ['a', ' ', 'é']) for _ in range(
                r.randint(1, 8))) for _ in range(4)], parser=r.choice(CM))
    for _ in range(ctx.n(7000)):
        yield dict(lines=['#' * r.randint(1, 6) + ' ' + g.text(.8) +
                          g.closing() for _ in range(r.choice([1, 3, 6]))],
                   parser=r.choice(CM), ordered=r.random() < .3)


def bare(t):
    return re.sub(r'[*_`\s]', '', t)


def check_known(ctx, case):
    r = ctx.toc(case['doc'], M.Opts())
    items, stray = mdit.render(r.value or '')
    if not (r.ok and len(items) == 1 and len(items[0].links) == 1 and
            not items[0].extra):
        ctx.known = getattr(ctx, 'known', []) + [
            f'{case["known"]}: the entry of {case["doc"]!r} does not render '
            'as one link']


def check(ctx, case):
    if 'known' in case:
        return check_known(ctx, case)
    p = case['parser']
    o = M.Opts(parser=p, keep_header_levels=6, no_indentation=True,
               ordered=case.get('ordered', False),
               list_marker='.' if case.get('ordered') else '-')
    lines, texts = [], []
    for ln in case['lines']:
        h = M.atx(ln, p)
        if h is None or M.label_is_blank(h[1]) or len(h[1]) > 900:
            continue
        c = h[1]
        if '\x00' in c or c.strip() != c.strip(' \t'):
            continue
        if '<' in c and AUTOLINK.search(c):
            continue
        lines.append(ln)
        texts.append(c)
    if not lines:
        return
    doc = ''.join(x + '\n' for x in lines)
    r = ctx.toc(doc, o)
    if r.kind == 'timeout':
        return
    seen = diff.observed(r, o)
    ctx.require(seen is not None and len(seen) == len(lines), case,
                'no or short table of contents', doc=doc[:1500],
                got=r.brief())
    if '<' not in doc:
        entries, _ = M.toc_entries(doc, o)
        ctx.require([s.anchor for s in seen] == [e.anchor for e in entries],
                    case,
                    'entries do not link to the anchors of their headings',
                    doc=doc[:1500], parser=p,
                    got=[s.anchor for s in seen][:9],
                    want=[e.anchor for e in entries][:9])
    for c, s in zip(texts, seen):
        # Each entry on its own: a list of one item.
        items, stray = mdit.render(s.raw.strip() + '\n')
        ctx.events['entries rendered'] += 1
        ok = (len(items) == 1 and not stray and len(items[0].links) == 1
              and not [x for x in items[0].extra if x != 'html_inline'])
        ctx.require(ok, case, 'an entry does not render as one link',
                    heading=c, entry=s.raw, parser=p,
                    links=items[0].links if items else None)
        it = items[0]
        href, shown = it.links[0]
        ctx.require(it.text.strip() == shown.strip() and
                    it.text == shown, case,
                    'an entry has text outside its link', heading=c,
                    entry=s.raw, parser=p, shown=it.text)
        ctx.require(s.anchor is not None and href.startswith('#') and
                    urllib.parse.unquote(href) ==
                    '#' + urllib.parse.unquote(s.anchor), case,
                    'an entry links to something else', heading=c,
                    entry=s.raw, href=href)
        br = '[' in c or ']' in c
        ctx.events['entries with brackets'] += br
        ctx.events['entries with link syntax'] += '](' in c
        ctx.seen(p, c)
        ctx.events['entries with raw HTML'] += 'html_inline' in it.extra
        ctx.events['brackets and backquotes'] += br and '`' in c
        if not br and '&' not in c and '<' not in c:
            # Stray delimiters may pair differently next to a bracket.
            ht = mdit.inline_text(c)
            if not ('`' in c and '\\' in c):
                ctx.require(bare(shown) == bare(ht[0]), case,
                            'an entry shows a different text', heading=c,
                            entry=s.raw, got=shown, want=ht[0])
                ctx.events['texts compared'] += 1
    ctx.sample(dict(heading=texts[0][:60], entry=seen[0].raw[:100]))
