"""An option changes what it is about, and nothing else."""
import re

from .. import model as M, rt
from ..gen import FILLER

LEVEL = 'exploration'
RULE = ('distinct (relation, dialect, options, document) for which two or '
        'more observed tables were related')
MUST_SEE = ['relation: levels', 'relation: links', 'relation: indentation',
            'relation: marker', 'relation: ordered', 'relation: constant',
            'relation: alias', 'relation: coherence', 'relation: prose',
            'relation: concatenation', 'relation: level shift',
            'relation: newline', 'relation: case of levels above six',
            'headings read on their own']
ASSUMPTIONS = ['documents are coherent where tables of coherent documents '
               'are needed; relations between observed tables, not a model']
PREFIX = re.compile(r'\A( *)(?:([-+*])|(\d+)([.)])) (.*)\Z', re.S)
LINKED = re.compile(r'\A\[(.*)\]\(#(.*)\)\Z', re.S)
HTML = ['<b>x</b>', '<title>a', '</title>', '<textarea y="z">', '<style>s',
        '</xmp>', '<iframe/>', '<noembed>', '</noframes >', '<script>c',
        '<plaintext>', '<a href="_x_">', "<i class='*y*'>", '<br/>', '<br />',
        '<!-- c -->', '<!-->', '<!--->', '<?php x ?>', '<!X y>', '<!x>',
        '<![CDATA[ _z_ ]]>', '</b  >', '</b\t>', '<b\tc>', '<b\x0bc>',
        '<b\x0cd=e>', '<http://a_b_c>', '<m_a_x@y.z>', '<1>', '< b>',
        '<b c=d"e>', '<b c="d>', '&amp;', '&copy;x', '&#42;', '<!A>', '<!A b',
        '<b c=\x01>', '<title-x>', '<titles>', '<b c=`d`>', '<?>', '<??>']
ALIAS = {'github': 'commonmarker', 'commonmarker': 'github',
         'cmark': 'goldmark', 'goldmark': 'cmark'}


def cases(ctx):
    r, g = ctx.rng, ctx.gen
    rel = [x for x in RELATIONS if x != 'seven']
    for i in range(ctx.n(24000)):
        n = r.choice([1, 2, 3, 5, 8, 13])
        if g.sizes and r.random() < .2:
            n = min(r.choice(g.sizes), 300)
        lv = g.levels(n, True)
        hostile = r.choice([0, .4, .8])
        texts = []
        for k, x in enumerate(lv):
            t = g.text(hostile) if r.random() < .7 else r.choice(
                ['same', 'Same', 'a b', 'x'])
            if rel[i % len(rel)] not in ('levels', 'alone') and \
                    r.random() < .15:
                t += r.choice(['', ' ']) + r.choice(HTML)
            if rel[i % len(rel)] != 'levels' and r.random() < .3:
                texts.append(g.odd() if r.random() < .5 else t)
                continue
            texts.append(f'L{x} {t}' if r.random() < .8 else f'L{x}')
        lines = g.doc_lines(texts=texts, level_list=lv, hostile=hostile,
                            fences=True)
        # Tags of the levels survive only in the texts generated here.
        o = g.options(no_list_coherence=False)
        yield dict(lines=lines, opts=o.kwargs(), rel=rel[i % len(rel)],
                   eol=r.choice(['\n'] * 6 + ['\r\n', '\r']),
                   seed=r.random())
    if ctx.shard == 0:
        for n in range(1, 10):
            yield dict(lines=['#' * n + ' a', '# b'], rel='seven', eol='\n',
                       opts=dict(no_list_coherence=True), seed=0)


def get(ctx, case, o, text=None, **kw):
    """Lines of a table, or None when there is a refusal."""
    oo = M.Opts(**{**o.kwargs(), **kw})
    r = ctx.toc(case['eol'].join(case['lines']) + case['eol']
                if text is None else text, oo)
    if r.kind == 'timeout':
        raise Skip
    if not r.ok:
        return r
    nl = oo.newline_string
    ctx.require(r.value == '' or r.value.endswith(nl), case,
                'the table does not end a line', got=r.value[-80:])
    return r.value.split(nl)[:-1]


class Skip(Exception):
    pass


def parts(ctx, case, lines):
    out = []
    for ln in lines:
        m = PREFIX.match(ln)
        ctx.require(m is not None, case, 'not an entry', got=ln[:200],
                    opts=case['opts'])
        out.append(m.groups())
    return out


def check(ctx, case):
    o = M.Opts(**case['opts'])
    try:
        RELATIONS[case['rel']](ctx, case, o)
    except Skip:
        return
    ctx.events['relation: ' + NAMES.get(case['rel'], case['rel'])] += 1
    ctx.seen(case['rel'], o.kwargs(), case['lines'])
    ctx.sample(dict(relation=case['rel'], doc=case['lines'][:4]))


def same(ctx, case, what, a, b, o):
    if isinstance(a, rt.Result) or isinstance(b, rt.Result):
        ctx.require(isinstance(a, rt.Result) and isinstance(b, rt.Result) and
                    a == b, case, what, got=brief(a), want=brief(b),
                    doc=case['lines'][:30], opts=o.kwargs())
        raise Skip
    if a != b:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
                 min(len(a), len(b)))
        ctx.violate(case, what, got=a[i:i + 2], want=b[i:i + 2], at=i,
                    lengths=[len(a), len(b)], doc=case['lines'][:30],
                    opts=o.kwargs())


def brief(x):
    return x.brief() if isinstance(x, rt.Result) else x[:5]


def rest(ctx, case, lines):
    return [p[4] for p in parts(ctx, case, lines)]


def ok(*tables):
    if any(isinstance(t, rt.Result) for t in tables):
        raise Skip


def levels(ctx, case, o):
    """Fewer levels: the deeper entries are gone, the others stay."""
    full = get(ctx, case, o, keep_header_levels=6, no_indentation=True,
               ordered=False, constant_ordered_list=False, list_marker='-')
    ok(full)
    mark = re.compile(r'- \[?L([1-6])')
    if not all(mark.match(x) for x in full):
        raise Skip
    for k in range(1, 7):
        t = get(ctx, case, o, keep_header_levels=k, no_indentation=True,
                ordered=False, constant_ordered_list=False, list_marker='-')
        same(ctx, case, f'levels up to {k} are not those entries', t,
             [x for x in full if int(mark.match(x)[1]) <= k], o)


def links(ctx, case, o):
    """Without links: the same entries without links."""
    a = get(ctx, case, o, no_links=False)
    b = get(ctx, case, o, no_links=True)
    ok(a, b)
    pa, pb = parts(ctx, case, a), parts(ctx, case, b)
    same(ctx, case, 'links change indentation or numbers',
         [p[:4] for p in pa], [p[:4] for p in pb], o)
    la = []
    for p in pa:
        m = LINKED.match(p[4])
        ctx.require(m is not None, case, 'an entry without link', got=p[4])
        la.append(m[1].rstrip(' '))
    esc = (lambda s: s) if o.parser == 'redcarpet' else M.escape_brackets
    same(ctx, case, 'links change the text', la,
         [esc(p[4]).rstrip(' ') for p in pb], o)


def indentation(ctx, case, o):
    a = get(ctx, case, o, no_indentation=False)
    b = get(ctx, case, o, no_indentation=True)
    ok(a, b)
    same(ctx, case, 'no indentation changes more than that',
         [x.lstrip(' ') for x in a], b, o)


def marker(ctx, case, o):
    if o.ordered:
        ms = '.' if o.parser == 'redcarpet' else '.)'
    else:
        ms = '-+*'
    kw = dict(ordered=o.ordered, constant_ordered_list=False)
    ts = [get(ctx, case, o, list_marker=m, **kw) for m in ms]
    for m, t in zip(ms, ts):
        if isinstance(t, rt.Result):
            same(ctx, case, 'a marker is refused', t, ts[0], o)
        ps = parts(ctx, case, t)
        ctx.require(all((p[3] if o.ordered else p[1]) == m for p in ps), case,
                    'another marker is used', got=t[:3], marker=m)
        same(ctx, case, 'the marker changes more than itself',
             [(p[0], p[2], p[4]) for p in ps],
             [(p[0], p[2], p[4]) for p in parts(ctx, case, ts[0])], o)


def ordered(ctx, case, o):
    a = get(ctx, case, o, ordered=False, constant_ordered_list=False,
            list_marker='-')
    b = get(ctx, case, o, ordered=True, constant_ordered_list=False,
            list_marker='.')
    c = get(ctx, case, o, ordered=True, constant_ordered_list=True,
            list_marker='.')
    ok(a, b, c)
    same(ctx, case, 'an ordered list has other entries',
         rest(ctx, case, b), rest(ctx, case, a), o)
    same(ctx, case, 'a constant list has other entries',
         rest(ctx, case, c), rest(ctx, case, a), o)


def constant(ctx, case, o):
    a = get(ctx, case, o, ordered=True, constant_ordered_list=True,
            list_marker='.')
    b = get(ctx, case, o, ordered=False, constant_ordered_list=True,
            list_marker='.')
    same(ctx, case, 'constant numbers need the ordered option', b, a, o)
    ctx.require(all(p[2] == '1' for p in parts(ctx, case, a)), case,
                'a constant number is not constant', got=a[:5])


def alias(ctx, case, o):
    if o.parser not in ALIAS:
        o = M.Opts(**{**o.kwargs(), 'parser': ctx.rng.choice(list(ALIAS))})
    a = get(ctx, case, o)
    b = get(ctx, case, o, parser=ALIAS[o.parser])
    same(ctx, case, 'an alias gives something else', b, a, o)


def coherence(ctx, case, o):
    a = get(ctx, case, o, no_list_coherence=False)
    b = get(ctx, case, o, no_list_coherence=True)
    if isinstance(a, rt.Result) and a.value == M.INCOHERENT:
        raise Skip
    same(ctx, case, 'not checking coherence changes the table', b, a, o)


def prose(ctx, case, o):
    """Lines which are not headings may come and go."""
    import random
    rr = random.Random(case['seed'])
    mask = M.code_mask(case['lines'], o.parser)
    out = []
    for ln, code in zip(case['lines'], mask):
        if not code:
            while rr.random() < .4:
                x = rr.choice(FILLER)
                if M.atx(x, o.parser) is None and M.fence_open(x) is None:
                    out.append(x)
        if code or M.atx(ln, o.parser) or rr.random() < .6:
            out.append(ln)
    e = case['eol']
    a = get(ctx, case, o)
    b = get(ctx, case, o, text=e.join(out) + e)
    same(ctx, case, 'other lines change the table', b, a, o)


def concatenation(ctx, case, o):
    """Flat tables without links of two documents, one after the other."""
    mask = M.code_mask(case['lines'], o.parser)
    cut = [i for i in range(1, len(case['lines'])) if not mask[i]
           and not (mask[i - 1] and mask[i])]
    if not cut:
        raise Skip
    i = cut[int(case['seed'] * len(cut))]
    kw = dict(no_links=True, no_indentation=True, ordered=False,
              constant_ordered_list=False, list_marker='-')
    e = case['eol']
    a = get(ctx, case, o, e.join(case['lines'][:i]) + e, **kw)
    b = get(ctx, case, o, e.join(case['lines'][i:]) + e, **kw)
    c = get(ctx, case, o, **kw)
    ok(a, b, c)
    same(ctx, case, 'a document is not the sum of its parts', c, a + b, o)


def shift(ctx, case, o):
    """One more # for everybody: the same list, for the unordered and the
    ordered one."""
    ls, top = [], 1
    mask = M.code_mask(case['lines'], o.parser)
    for ln, code in zip(case['lines'], mask):
        h = None if code else M.atx(ln, o.parser)
        if h:
            top = max(top, h[0])
            i = ln.index('#')
            ln = ln[:i] + '#' + ln[i:]
        ls.append(ln)
    if top > 5 or o.parser == 'redcarpet':
        raise Skip
    e = case['eol']
    a = get(ctx, case, o, keep_header_levels=5)
    b = get(ctx, case, o, e.join(ls) + e, keep_header_levels=6)
    same(ctx, case, 'the first level is not relative', b, a, o)


def newline(ctx, case, o):
    ts = [get(ctx, case, o, newline_string=n) for n in ('\n', '\r\n', '\r')]
    for t in ts[1:]:
        same(ctx, case, 'the newline string changes more than newlines', t,
             ts[0], o)


def alone(ctx, case, o):
    """What is visible does not depend on the lines around."""
    mask = M.code_mask(case['lines'], o.parser)
    ls = [x for x, c in zip(case['lines'], mask) if not c and x]
    if not ls:
        raise Skip
    k = o.keep_header_levels
    whole = rt.call(ctx.api.get_md_header, '\n'.join(ls), {}, k, o.parser,
                    True)
    if not whole.ok:
        raise Skip
    ctx.require(len(whole.value) == len(ls), case,
                'a line has no answer of its own', got=len(whole.value),
                want=len(ls), lines=ls[:20])
    for ln, h in zip(ls, whole.value):
        one = rt.call(ctx.api.get_md_header, ln, {}, k, o.parser, True)
        ctx.require(one.ok and len(one.value) == 1, case,
                    'a line on its own has no answer', line=ln,
                    got=one.brief())
        x = one.value[0]
        a, b = [None if y is None else (y['header_type'], y['visible'],
                                        y['text_original']) for y in (x, h)]
        ctx.require(a == b, case, 'a heading depends on other lines', line=ln,
                    alone=a, together=b, lines=ls[:20], keep=k,
                    parser=o.parser)
        if a is not None:
            ctx.require(a[1] == (a[0] <= k), case, 'visibility is not about '
                        'the level', line=ln, got=a, keep=k)
            ctx.events['headings read on their own'] += 1


def seven(ctx, case, o):
    """Seven # and more are never a heading, whatever the levels kept."""
    n = len(case['lines'][0].split(' ')[0])
    for p in M.CMARK_LIKE:
        for k in range(1, 7):
            t = get(ctx, case, o, parser=p, keep_header_levels=k)
            ok(t)
            ctx.require(len(t) == 1 + (n <= k), case, 'wrong entries',
                        got=t, n=n, keep=k, parser=p)


RELATIONS = dict(levels=levels, links=links, indentation=indentation,
                 marker=marker, ordered=ordered, constant=constant,
                 alias=alias, coherence=coherence, prose=prose,
                 concatenation=concatenation, shift=shift, newline=newline,
                 alone=alone, seven=seven)
NAMES = dict(shift='level shift', seven='case of levels above six')
