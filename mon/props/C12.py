"""Whatever the text, an answer comes: a table or a documented refusal."""
import html.entities
import itertools

from .. import model as M, rt
from ..gen import MARKUP, PUNCT, UNI_WORDS, WS

LEVEL = 'exploration'
RULE = 'distinct (dialect, options, outcome, input) of observed calls'
MUST_SEE = ['build_toc:ok', 'build_toc:raise', 'direct calls', 'pumped lines',
            'inline HTML', 'entities']
ASSUMPTIONS = ['lines of up to some ten thousand characters; a call is taken for hung '
               'after 20 s of CPU time (the slowest observed takes well under '
               '2 s), twice']

CM = M.CMARK_LIKE
ALLOWED = {M.EMPTY, M.OVERFLOW, M.INCOHERENT,
           'GithubOverflowOrderedListMarker'}
HTML = ['<', '>', '</', '/>', '<b>', '</b>', '<a href="', '">', "='", '<!--',
        '-->', '--', '<![CDATA[', ']]>', '<?', '?>', '<!X', '<a b=c ',
        '<http://', '<x@', '<a b', '<a\t', '&#x41;', '&#', '&amp', '&#0;',
        '&#9999999999;', '&#1', '&#65', '&#65;', '&#1;', '&#x1', '&#xA', '&#xd800;',
        '&#1114112;', '&lt;b&gt;', '&copy;', '&Aacute;', '&;', '&x;']
BITS = MARKUP + PUNCT + WS + HTML + UNI_WORDS + ['\x00', 'a', '1', '\u0100',
                                                 '\ufffd', '](u "t")', '](<',
                                                 '][', ']:', '![', '[^']
PUMP = ['*', '_', '`', '[', ']', '<', '>', '\\', '#', '!', '&', ' ', '\t',
        '*a', 'a*', '_a', '**a ', '*a_', '[a', '](', '[a](', '[]', '![', '<a',
        '<a ', '<a b', '<a b=', '<a b="', "<a b='c' ", '<!--', '<!-', '--',
        '<?', '?', '<![CDATA[', ']]', '&#', '&a', '&a;', '`a', '``', '\\[',
        '\\\\', '[[', ']]', '[]()', '<http:', 'a@', '<a@b', 'a.', 'é', '日',
        '# ', ' #', '#a', '*_', '_*', '**_', '`*', '[*', '*]', '](*', '<b>*',
        '- ', '1. ', '[x]: y ', '](a) ', '"', "'", '([)', '!\\[', '\u00a0',
        '*\u2003', '~', '-', '- -', '\x0b', '\x0c', '\x01', '</a', '</a ',
        '<!X', '<!X ', 'a ', '( ', ')', '](#', '[\\]', '\\]']

# Where a run may be, what it is made of and how it ends.
INSIDE = ['', '<', '<a', '<a ', '<a b', '<a b=', '<a b = ', '<a b="', "<a b='",
          '<a b=c ', '<a b="c"', '</', '</a', '</a ', '<!', '<!X', '<!X ',
          '<?', '<!--', '<!-- a', '<![CDATA[', '&', '&#', '&#x', '[a](',
          '[a](<', '[a](b "', "[a](b '", '[a](b (', '[a][', '[', '![', '`',
          '*', '**', '_', '<http:', '<http://', '<x@', 'x@', '[a]: ', '\\']
RUN = ['a', 'aB', 'b ', ' ', '\t', ' b', ' b=c', ' b="c"', " b='c'", ' b = c',
       '=', '"', "'", '-', '--', '->', '- ', '.', ':', '/', '1', '>', '<', '?',
       ']', ')', '(', 'a.', '.a', 'a-', '_', 'a_', '*', '\\', ';', '\x0b',
       'é', '\u3000']
STOP = ['', '!', '>', '<', '=', '"', "'", ';', ' x', ')', '\\', '*', '/>',
        '-->', '`', ']']

NUMS = [0, 1, 9, 10, 13, 32, 38, 42, 46, 65, 91, 93, 95, 97, 127, 128, 159,
        160, 255, 256, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdfff, 0xe000,
        0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x110000, 999999, 1000000,
        9999999, 10000000, 0xffffff, 0x1000000, 2 ** 31, 2 ** 32 + 65]


def cases(ctx):
    g, r = ctx.gen, ctx.rng
    bits = BITS + g.new
    pumps = PUMP + g.new
    # Short strings over the characters that drive the parsers.
    al = '[]()!\\`*_<>&a '
    short = [''.join(p) for k in range(1, 5 if ctx.thorough else 4)
             for p in itertools.product(al, repeat=k)]
    for i in ctx.mine(range(0, len(short), 60)):
        for nl in (True, False):
            yield dict(lines=['# x' + s for s in short[i:i + 60]],
                       opts=dict(parser=M.ALL_PARSERS[(i // 60) % 6],
                                 no_links=nl, no_list_coherence=True,
                                 keep_header_levels=6))
    for _ in range(ctx.n(12000)):
        o = g.options(no_links=r.random() < .5)
        lines = []
        for _ in range(r.choice([1, 1, 2, 4])):
            t = ''.join(r.choice(bits) for _ in range(
                r.choice([0, 1, 2, 4, 8, 16, 40])))
            lines.append(r.choice(['# ', '## ', '#', '# ', '   ### ', '']) + t)
        if r.random() < .2:
            lines.append(g.fence_line())
        yield dict(lines=lines, opts={**o.kwargs(), 'skip_lines': r.choice(
            [0, 0, 0, 1, 5, 100])}, eol=r.choice(['\n', '\n', '\r\n', '\r',
                                                  '\n\r', '']))
    n = 4000 if ctx.thorough else 1200
    for a in ctx.mine([(x, '', '') for x in pumps] +
                      [(x, p, s) for x in pumps for p, s in
                       (('*', '*'), ('[', '](b)'), ('`', '`'), ('<a ', '>'),
                        ('a', 'a'), ('\\', '\\'))][ctx.seed % 3::3]):
        x, p, s = a
        k = max(1, n // len(x))
        for nl in (True, False):
            m = max(k, 3000 // len(x)) if nl else min(
                k, 990 // len(x))
            yield dict(lines=['# ' + p + x * m + s], pump=True, opts=dict(
                parser=r.choice(M.ALL_PARSERS), no_links=nl))
    for _ in range(ctx.n(400)):
        x, y = r.choice(pumps), r.choice(pumps)
        k = r.choice([50, 200, n // (len(x) + len(y))])
        yield dict(lines=['# ' + x * k + y * k, '# ' + (x + y) * k],
                   pump=True, opts=dict(parser=r.choice(M.ALL_PARSERS),
                                        no_links=True))
    # Runs inside constructs, ended in all sorts of ways.
    runs = [(a, b, c) for a in INSIDE for b in RUN for c in STOP]
    for i in ctx.mine(range(0, len(runs), 16)):
        k = r.choice([30, 45, 300])
        yield dict(lines=['# ' + a + b * min(k, 900 // len(b)) + c
                          for a, b, c in runs[i:i + 16]], pump=True,
                   opts=dict(parser=r.choice(CM), no_links=r.random() < .5))
    fns = ['remove_emphasis', 'remove_html_tags', 'build_anchor_link',
           'get_atx_heading', 'is_opening_code_fence', 'is_closing_code_fence']
    for _ in range(ctx.n(6000)):
        yield dict(fn=r.choice(fns), parser=r.choice(M.ALL_PARSERS),
                   texts=[''.join(r.choice(bits) for _ in range(
                       r.choice([0, 1, 2, 3, 5, 9, 20]))) for _ in range(8)])
    # Entities: all names, names cut short, numbers around the limits, at the
    # end of the line and inside.
    ents = [f'&#{n}{e}' for n in NUMS for e in (';', '', 'x', ';;', ' ')]
    ents += [f'&#{x}{n:{f}}{e}' for n in NUMS for e in (';', '', 'g')
             for x, f in (('x', 'x'), ('X', 'X'), ('x', '08x'))]
    ents += ['&#' + '9' * k + e for k in range(1, 40) for e in ('', ';')]
    ents += ['&#x' + 'f' * k + e for k in range(0, 40) for e in ('', ';')]
    ents += ['&' + 'a' * k + e for k in range(0, 60) for e in ('', ';')]
    names = sorted(html.entities.html5)
    ents += ['&' + x for x in names[ctx.seed % 3::1 if ctx.thorough else 3]]
    ents += ['&' + x[:-1] + y for x in names[ctx.seed % 7::7]
             for y in ('', 'q;', ' ;')]
    ents += ['&#\u0661;', '&#\u0661\u0662', '&#x\u0661;', '&#\u00b2;', '&\u00e9;',
             '&\u0661;', '&#;', '&#x;', '&#X;', '&#-1;', '&#+1;', '&# 1;',
             '&#1 ;', '&#0;', '&#x0;', '&#00065;', '&;', '&', '&&', '&#&#',
             '&amp&#', '&#x&#x41;', '&_;', '&1;', '&a1;', '&a_;']
    for i in ctx.mine(range(0, len(ents), 12)):
        e = ents[i:i + 12]
        for w in ('{}', 'x {}', '*{}*', '{}*a*', '[a]({})', '[a](b "{}")',
                  '<http://a/{}>', '`{}`', '[{}]: {}', '![{}]({} {})',
                  'x _a{}b_ {}'):
            yield dict(lines=['# ' + w.format(*[x] * 3) for x in e],
                       ent=True, opts=dict(parser=r.choice(M.ALL_PARSERS),
                                           no_links=r.random() < .5))
    # Shapes of whole files.
    shapes = ['', '\n', '\r', '\r\n', '#', '# ', '# a', '\n' * 5000,
              '# a\n' * 3000, '```\n' * 2001, '#\n', '\ufeff# a\n', '\x00',
              '# \x00\n', '-\n' * 3000, ('a' * 200 + '\n') * 2000, 'a' * 300000,
              '#' * 200000, '`' * 100001 + '\n# a', ' ' * 100000 + '# a\n',
              '# ' + ' ' * 50000 + 'a' + ' ' * 50000 + '\n',
              '# a ' + '#' * 50000 + '\n', '\r\r\n\n\r# a\r\n\r',
              '~' * 60000 + '\n' + '~' * 59999 + '\n# a\n']
    for s in ctx.mine(shapes):
        for p in M.ALL_PARSERS:
            for sk in (0, 1, 10 ** 9):
                yield dict(doc=s, opts=dict(parser=p, skip_lines=sk,
                                            no_list_coherence=True))


def check(ctx, case):
    if 'fn' in case:
        f = getattr(ctx.api, case['fn'])
        for t in case['texts']:
            a = [t]
            ok = set()
            if case['fn'] == 'build_anchor_link':
                a.append({})
                ok = {'StringCannotContainNewlines'}
            elif case['fn'] == 'get_atx_heading':
                a.append(3)
                ok = ALLOWED
            elif case['fn'] == 'is_closing_code_fence':
                a += ['```', False]
                t = a[0] = t.replace('\n', '')
            r = rt.call(f, *a, parser=case['parser'])
            ctx.events['direct calls'] += 1
            ctx.require(r.ok or (r.kind == 'raise' and r.value in ok), case,
                        'crash or hang', fn=case['fn'], text=t,
                        parser=case['parser'], got=r.brief(), exc=r.exc)
            ctx.seen(case['fn'], case['parser'], t)
        return
    o = M.Opts(**case['opts'])
    if 'doc' in case:
        doc = case['doc']
    else:
        e = case.get('eol', '\n')
        doc = (e or '\n').join(case['lines']) + e
    r = ctx.toc(doc, o)
    fine = (r.ok and isinstance(r.value, str)) or (
        r.kind == 'raise' and r.value in ALLOWED)
    ctx.require(fine, case, 'hang' if r.kind == 'timeout' else 'crash',
                doc=doc[:1500], size=len(doc), opts=o.kwargs(), got=r.brief(),
                exc=r.exc)
    if case.get('pump'):
        ctx.events['pumped lines'] += 1
    ctx.events['entities'] += 'ent' in case
    ctx.events['inline HTML'] += '<' in doc
    ctx.seen(o.parser, o.no_links, r.kind, doc[:400])
    if not case.get('pump') and len(doc) < 200:
        ctx.sample(dict(doc=doc, opts=o.kwargs(), outcome=r.kind))
