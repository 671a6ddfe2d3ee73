"""Emphasis delimiters and inline HTML leave no trace in anchors."""
import itertools
import unicodedata

from .. import diff, model as M, rt

LEVEL = 'exploration'
RULE = ('distinct (dialect, inline text) with at least one delimiter or tag, '
        'whose anchor or emphasis-free form was compared')
MUST_SEE = ['delimiters removed', 'delimiters kept', 'tags removed',
            'near tags kept', 'code spans', 'escapes']
ASSUMPTIONS = [
    'emphasis oracle: rules 1-17 of CommonMark 0.30 (mon/model.py), cross '
    'validated with markdown-it-py during development',
    'texts with active link syntax, tags touching emphasis delimiters, tags '
    'in code spans, CDATA and the raw HTML tags GFM filters are not generated']

TAGS = ['<b>', '</b>', '<B>', '<br>', '<br/>', '<br />', '<a href="x">',
        "<a href='x y'>", '<a href=x>', '</a>', '</a >', '</a  >',
        '<img src="a.png" alt="A b" width=10 />', '<!-- c -->', '<!--c-->',
        '<!---->', '<!-- -->', '<!-- a > b -->', '<!-- a - b -->', '<?php x ?>',
        '<??>', '<?a?>', '<? a > b ?>', '<!DOCTYPE html>', '<!X y>',
        '<span class="x" data-y>', '<x-y z:w="1">', '<h1>', '</h1>',
        '<a  b>', '<a\tb="c">', '<a b = "c">', '<a b= c>', '<a b="x>y">',
        "<a b='x>y' c=\"<d>\">", '<A B="C D">', '<a b="é_ü">', '<kbd>',
        '</kbd>', '<sub>', '<sup>2</sup>'[:5], '<i>', '</i>', '<em>',
        '</em>', '<strong>', '<code>', '</code>', '<p>', '<div id="x">',
        '<custom-element-2>', '<a _b:c.d-e="f">', '<input disabled>',
        '<a b="">', "<a b=''>", '<a id="user-content_x">', '<!-- _a_ *b* -->',
        '<a title="*x* _y_">', '<t1>', '<z>', '<svg/>', '<a b=c/d>',
        '<font color=#fff>', '<details open>', '<a b c d="e" f>']
NEAR = ['<3', '1<2', '<>', '<1>', '< b>', '</>', '<-', '<=', '<a.b>',
        '<b/ >', '<a "x">', '<a =b>', '<_x>', '</1>', '<!>', '< >', 'a<',
        '<a b=c"d>', '<é>', '</ b>', '<a:b c>', '<!-- x -- y -->']


def texts(ctx):
    top = 8 if ctx.thorough else 7
    for al, k in (('*a ', top), ('_a ', top), ('*_a', top), ('*_a .', top - 2),
                  ('*a`\\', top - 1), ('_.é ', top - 1), ('*-a\u00a0', top - 2),
                  ('**_ab', top - 2)):
        for n in range(2, k + 1):
            for p in itertools.product(al, repeat=n):
                s = ''.join(p)
                if '*' in s or '_' in s:
                    yield s


CONTEXTS = ['_{c}a_ b', '_a{c}_ b', 'b _a_{c}', '{c}_a_ b', 'a{c}_b_ c',
            'a_b_{c}d', '*{c}a* b', '*a{c}*b', 'a*{c}b*c', '_a*{c}b_*']


def neighbours(ctx):
    """Characters whose class decides what a delimiter can do."""
    for c in range(0x110000):
        if 0xd800 <= c < 0xe000 or c in (0, 10, 13):
            continue
        k = unicodedata.category(chr(c))
        if k[0] in 'ZP' or k in ('Cc', 'Cf') or (
                (c + ctx.seed) % (2 if ctx.thorough else 12) == 0
                if k[0] in 'S' else
                (c + ctx.seed) % (40 if ctx.thorough else 900) == 0):
            yield chr(c)


def cases(ctx):
    g, r = ctx.gen, ctx.rng
    near = list(neighbours(ctx))
    for i in ctx.mine(range(0, len(near), 40)):
        yield dict(batch=[t.format(c=c) for c in near[i:i + 40]
                          for t in CONTEXTS],
                   parser=M.ALL_PARSERS[(i // 40 + ctx.seed) % 6])
    allt = list(texts(ctx))
    block = 400
    for i in ctx.mine(range(0, len(allt), block)):
        yield dict(batch=allt[i:i + block],
                   parser=M.ALL_PARSERS[(i // block + ctx.seed) % 6])
    frag = ['*', '**', '***', '_', '__', '___', '****', '_____', '`', '``',
            '\\', '\\*', '\\_', '\\\\', 'a', 'B', ' ', '.', '(', ')', '"', 'é',
            '\u00a0', '…', '€', '日', '¿', 'Ā', '!', '-', '&amp;', '~', '<http:'
            '//a_b_c>', '<x@y.z>', '\u2003', '\t', 'ab', '1', '\U0001f600', '“',
            '、', '\x7f', '\u0301', '<b c="*">', '<!-- * -->', '<?*?>', '<'
            ] + [t for t in g.new if '[' not in t and ']' not in t]
    for _ in range(ctx.n(3000)):
        batch = []
        for _ in range(20):
            s = ''.join(r.choice(frag) for _ in range(r.choice(
                [3, 5, 8, 12, 20])))
            batch.append(s)
        yield dict(batch=batch, parser=r.choice(M.ALL_PARSERS))
    # Long runs and deep nesting.
    for n in ctx.mine([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20,
                       31, 32, 33, 40, 64, 80] + [x for x in g.sizes
                                                  if x < 150]):
        b = ['*' * n + 'a' + '*' * n, '_' * n + 'a' + '_' * n,
             '*' * n + 'a' + '*' * (n + 1), '*a' * n, 'a*' * n,
             '*a **b ' * n, '_a*' * n + '*b_' * n, '*a_b' * n + '_c*' * n,
             '`' * n + '*a*' + '`' * n, '`' * n + '*a*' + '`' * (n - 1),
             '\\' * n + '*a*', '*a' + '\\' * n + '*', '**a*b' * n,
             'x' * n + '*y*' + 'z' * n, '*' + 'w ' * n + 'w*',
             ('*a* ' * n).strip(), ('_b_ ' * n).strip(),
             ('**a** __b__ ' * n).strip(), ('`a` ' * n) + '*b*',
             ('\\* ' * n) + '*b*']
        yield dict(batch=b, parser=r.choice(M.ALL_PARSERS))
    # Through whole documents.
    for _ in range(ctx.n(5000)):
        ts = []
        for _ in range(r.choice([1, 3, 6])):
            k = r.random()
            if k < .5:
                ts.append(''.join(r.choice(frag[:40]) for _ in range(
                    r.choice([2, 4, 8, 14]))))
            else:
                ts.append(g.text(.9))
        yield dict(lines=[f'{"#" * r.randint(1, 6)} {t}' for t in ts
                          if '<' not in t],
                   parser=r.choice(M.CMARK_LIKE))
    # HTML, built so that the expected text is known.
    for _ in range(ctx.n(7000)):
        yield dict(html=[html_pieces(ctx) for _ in range(r.choice([1, 2, 4]))],
                   parser=r.choice(M.CMARK_LIKE))
    for t in ctx.mine(TAGS + NEAR):
        for p in M.CMARK_LIKE:
            for a, b in (('w', 'v'), ('', 'v'), ('w', ''), ('w ', ' v'),
                         ('W ', 'V')):
                if a + b:
                    yield dict(html=[[['t', a], ['h' if t in TAGS else 'n', t],
                                      ['t', b]]], parser=p)


def html_pieces(ctx):
    r = ctx.rng
    out = [['t', r.choice(['', 'W', 'w ', 'é '])]]
    for _ in range(r.randint(1, 5)):
        k = r.random()
        if k < .6:
            out.append(['h', r.choice(TAGS)])
        elif k < .75:
            out.append(['n', r.choice(NEAR)])
        else:
            out.append(['t', r.choice([' *e* ', ' _f_ ', ' **g h** ', ' x_y ',
                                       ' _i* '])])
        out.append(['t', r.choice(['', '', 'a', ' b', 'C ', ' d e ', '-', 'É',
                                   '日', '.', ' 1 '])])
    out.append(['t', 'z'])
    return out


def check(ctx, case):
    if 'batch' in case:
        return check_batch(ctx, case)
    if 'html' in case:
        return check_html(ctx, case)
    p = case['parser']
    o = M.Opts(parser=p, keep_header_levels=6, no_list_coherence=True)
    keep = []
    for x in case['lines']:
        h = M.atx(x, p)
        if h and not M.label_is_blank(h[1]) and len(h[1]) < 900:
            keep.append(x)
    doc = ''.join(x + '\n' for x in keep)
    res = diff.expect(ctx, case, doc, o, lambda s: s.anchor,
                      lambda e: e.anchor,
                      'emphasis left in, or text lost from, an anchor')
    if res:
        for e in res[0]:
            ctx.seen(p, e.content)
            ctx.events['anchors compared'] += 1
        if res[0]:
            ctx.sample(dict(heading=res[0][0].content[:60],
                            anchor=res[1][0].anchor[:60]))


def check_batch(ctx, case):
    p = case['parser']
    for s in case['batch']:
        if M.DECL_WIDE.search(s) and not M._DECL.search(s):
            # A declaration for some of the dialects only.
            continue
        want = M.strip_emphasis(s)
        r = rt.call(ctx.api.remove_emphasis, s, p)
        if r.kind == 'timeout':
            continue
        ctx.require(r.ok and r.value == want, dict(batch=[s], parser=p),
                    'emphasis removal differs from CommonMark', text=s,
                    parser=p, got=r.brief(), want=want)
        ctx.events['texts'] += 1
        ctx.events['delimiters removed'] += len(s) - len(want)
        ctx.events['delimiters kept'] += want.count('*') + want.count('_')
        ctx.events['code spans'] += s.count('`') > 1
        ctx.events['escapes'] += '\\' in s
        ctx.seen(s)


def check_html(ctx, case):
    p = case['parser']
    o = M.Opts(parser=p, keep_header_levels=6, no_list_coherence=True)
    lines, want = [], []
    anchors = M.Anchors(p)
    for pieces in case['html']:
        full = ''.join(x for _, x in pieces).strip(' ')
        text = ''.join(x for k, x in pieces if k != 'h').strip(' ')
        if not text or not full:
            continue
        # What is left when the tags are taken out must not be markup again.
        near = [x for k, x in pieces if k == 'n']
        tags = [x for k, x in pieces if k == 'h']
        if any(rx.search(text) for rx in (M._TAG, M._PI, M.DECL_WIDE, M._CDATA,
                                          M._COMMENT, M._URI, M._MAIL)):
            continue
        if sum(len(rx.findall(full)) for rx in (
                M._TAG, M._PI, M.DECL_WIDE)) > len(tags) and near:
            continue
        if any('*' in x or '_' in x for k, x in pieces if k == 'n') and any(
                '*' in x for k, x in pieces if k == 't'):
            continue
        h = M.atx('# ' + full, p)
        if h is None or h[1] != full:
            continue
        lines.append('# ' + full)
        base = M.slug_chars(M.strip_emphasis(html_free(pieces)), p)
        want.append(anchors(base))
        r = rt.call(ctx.api.remove_html_tags, full, p)
        if r.kind != 'timeout':
            w = html_free(pieces)
            ctx.require(r.ok and r.value == w, dict(html=[pieces], parser=p),
                        'HTML removal is wrong', text=full, parser=p,
                        got=r.brief(), want=w)
        ctx.events['tags removed'] += len(tags)
        ctx.events['near tags kept'] += len(near)
        ctx.seen(p, full)
    if not lines:
        return
    doc = ''.join(x + '\n' for x in lines)
    r = ctx.toc(doc, o)
    if r.kind == 'timeout':
        return
    got = diff.observed(r, o)
    got = got and [s.anchor for s in got]
    ctx.require(got == want, case, 'HTML left in, or text lost from, an anchor',
                doc=doc, parser=p, got=got or r.brief(), want=want)
    ctx.sample(dict(heading=lines[0][:100], anchor=want[0][:60]))


def html_free(pieces):
    """The heading text with the tags taken out; the heading itself is
    stripped before that."""
    s = ''.join(x for _, x in pieces)
    out = ''.join(x for k, x in pieces if k != 'h')
    lead = len(s) - len(s.lstrip(' '))
    tail = len(s) - len(s.rstrip(' '))
    out = out[lead:]
    return out[:len(out) - tail] if tail else out
