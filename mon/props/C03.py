"""The text of an entry is the text of its heading."""
import itertools

from .. import diff, model as M, rt
from ..gen import MARKUP, PUNCT, UNI_WORDS, WS, category_samples

LEVEL = 'exploration'
RULE = 'distinct (dialect, links or not, heading content) of observed entries'
MUST_SEE = ['entries with brackets', 'entries with a closing sequence',
            'entries ending with a backslash', 'entries without links',
            'headings read directly']
ASSUMPTIONS = ['with redcarpet a single space after a final backslash is '
               'accepted in both forms when the heading has a closing '
               'sequence (an existing unit test pins one of the two)']

TAIL = ['#', ' ', '\\', 'a', '\t']
BR = ['[', ']', '\\', 'a', ' ']


def cases(ctx):
    g, r = ctx.gen, ctx.rng
    tails = [''.join(p) for k in range(0, 6 if not ctx.thorough else 7)
             for p in itertools.product(TAIL, repeat=k)]
    texts = ['x' + t for t in tails]
    texts += [''.join(p) + 'e' for k in range(1, 6 if not ctx.thorough else 7)
              for p in itertools.product(BR, repeat=k)]
    texts += [''.join(p) for k in range(1, 5)
              for p in itertools.product(BR, repeat=k)]
    texts += [f'p{c}{d}s' for c in category_samples(ctx.shared_rng, 4)
              for d in ('', ' ', c)]
    # Backslashes before a bracket: how many matters.
    texts += [a + '\\' * k + b + 'e' for k in range(0, 40)
              for b in '[]' for a in ('', 'x', 'x ', '[', ']')]
    texts += ['x' + '\\' * k + b for k in (1, 2, 3, 7, 8, 63, 64, 65, 126, 127,
                                         128, 255, 256, *[
                                             n for n in g.sizes if n < 400])
              for b in ('[e', ']e', '', 'e', '#', ' #')]
    block = 100
    jobs = [(p, nl, i) for p in M.ALL_PARSERS for nl in (False, True)
            for i in range(0, len(texts), block)]
    if not ctx.thorough:
        # Aliased dialects take turns.
        drop = {0: ('commonmarker', 'goldmark'), 1: ('github', 'cmark')}[
            ctx.seed % 2]
        jobs = [j for j in jobs if j[0] not in drop]
    for p, nl, i in ctx.mine(jobs):
        yield dict(lines=['# ' + t for t in texts[i:i + block]],
                   opts=dict(parser=p, no_links=nl), eol='\n')
    for _ in range(ctx.n(9000)):
        o = g.options(no_list_coherence=True)
        lines = g.doc_lines(r.choice([1, 2, 3, 5, 8]), coherent=False,
                            hostile=.8)
        yield dict(lines=lines, opts=o.kwargs(),
                   eol=r.choice(['\n'] * 6 + ['\r\n', '\r']))
    # Length of the text.
    for n in ctx.mine(sorted({*range(1, 1000, 1 if ctx.thorough else 9), 998,
                              997, *[x for x in g.sizes if x < 998]})):
        for pat in ('a', 'ab ', 'é', '日', '[', '\\', '# ', '*b* ', '🎉'):
            t = (pat * n)[:n]
            if M.label_is_blank(t):
                continue
            yield dict(lines=['## ' + t + 'q', '## q' + t + ' ##'],
                       opts=dict(parser=r.choice(M.ALL_PARSERS),
                                 no_links=r.random() < .5), eol='\n')
    # Words in context: pairs of fragments.
    frag = sorted(set(MARKUP + PUNCT + WS + UNI_WORDS + g.new))
    frag = [f for f in frag if not set(f) & set('<\n\r')]
    pairs = list(itertools.product(frag, frag))
    ctx.shared_rng.shuffle(pairs)
    pairs = pairs[:6000 if not ctx.thorough else None]
    for i in ctx.mine(range(0, len(pairs), 60)):
        ls = [f'{"#" * r.randint(1, 6)} {a}{b}' if k % 2 else
              f'# w {a} {b}' for k, (a, b) in enumerate(pairs[i:i + 60])]
        ls = [x for x in ls if '\x00' not in x]
        yield dict(lines=ls, opts=dict(parser=r.choice(M.ALL_PARSERS),
                                       no_links=r.random() < .5), eol='\n')
    # The function that reads headings, on one or more lines at a time.
    for _ in range(ctx.n(6000)):
        k = r.choice([1, 1, 1, 2, 3])
        ls = [r.choice(['', 'txt']) if r.random() < .15 else
              ' ' * r.choice([0, 0, 0, 1, 2, 3, 4]) +
              '#' * r.choice([1, 1, 2, 3, 4, 5, 6, 7]) + r.choice(
                  ['', ' ', ' ', '\t', '  ']) + g.text(.8) + g.closing()
              for _ in range(k)]
        yield dict(read=ls, eol=r.choice(['\n', '\r', '\r\n']),
                   parser=r.choice(M.ALL_PARSERS), no_links=r.random() < .5,
                   keep=r.randint(1, 6))


def fix(o, label):
    if o.parser == 'redcarpet' and label and not o.no_links:
        return diff.unpad(label)
    return label


def check(ctx, case):
    if 'read' in case:
        return check_read(ctx, case)
    o = M.Opts(**{'no_list_coherence': True, 'keep_header_levels': 6,
                  **case['opts']})
    lines = case['lines']
    if not o.no_links and o.parser != 'redcarpet':
        # Blank and overlong labels are the business of another property.
        lines = [x for x in lines if (h := M.atx(x, o.parser)) is None or not (
            M.label_is_blank(h[1]) or len(h[1]) > 998)]
    doc = case['eol'].join(lines) + case['eol']
    res = diff.expect(
        ctx, case, doc, o, lambda s: fix(o, s.label),
        lambda e: fix(o, e.content if o.no_links else
                      M.label(e.content, o.parser)),
        'text of an entry differs from its heading')
    if res is None:
        return
    for e in res[0]:
        ctx.events['entries'] += 1
        if '[' in e.content or ']' in e.content:
            ctx.events['entries with brackets'] += 1
        if e.content.endswith('\\'):
            ctx.events['entries ending with a backslash'] += 1
        if o.no_links:
            ctx.events['entries without links'] += 1
        ctx.seen(o.parser, o.no_links, e.content)
    ctx.events['entries with a closing sequence'] += sum(
        1 for x in lines if x.rstrip().endswith('#'))
    if res[0]:
        ctx.sample(dict(heading=lines[0][:80], entry=res[1][0].raw[:120]))


def check_read(ctx, case):
    text = case['eol'].join(case['read'])
    p, nl = case['parser'], case['no_links']
    ls = M.split_lines(text.strip('\r\n'))
    pad = str if nl else diff.unpad
    if text == '' or not ls:
        return
    want = []
    for ln in ls:
        h = M.atx(ln, p)
        if h is None:
            want.append((None, None, False))
            continue
        c = h[1]
        if not nl and p != 'redcarpet' and (
                M.label_is_blank(c) or len(c) > 998):
            return
        if nl:
            lab = c
        else:
            lab = M.label(c, p)
        want.append((h[0], pad(lab), h[0] <= case['keep']))
    r = rt.call(ctx.api.get_atx_heading, text, case['keep'], p, nl)
    if r.kind == 'timeout':
        return
    got = None
    if r.ok:
        got = [(d['header_type'], d['header_text_trimmed'] and pad(
            d['header_text_trimmed']), d['visible']) for d in r.value]
    ctx.require(got == want, case, 'heading read wrongly', text=text, parser=p,
                no_links=nl, keep=case['keep'], got=got or r.brief(),
                want=want)
    ctx.events['headings read directly'] += 1
    ctx.seen('read', p, nl, text)
