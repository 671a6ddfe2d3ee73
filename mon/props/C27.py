"""The building blocks of the API give, together, what the whole gives."""
import copy

from .. import model as M, rt

LEVEL = 'exploration'
RULE = ('distinct (dialect, options, building block, input) of observed '
        'results')
MUST_SEE = ['tables from building blocks', 'several lines at once',
            'opening fences', 'closing fences', 'hidden headings',
            'refusals alike', 'lines with terminators', 'lists of files',
            'punctuation filtered', 'ranges filtered', 'lines split']
ASSUMPTIONS = ['the building blocks are called the way their documentation '
               'and build_toc do: one counter and one log per document']
CM = M.CMARK_LIKE
EOL = ['\n', '\n', '\r\n', '\r', '']


def cases(ctx):
    r, g = ctx.rng, ctx.gen
    for _ in range(ctx.n(7000)):
        o = g.options()
        top = r.choice([3, 6, 6])
        lines = g.doc_lines(r.choice([1, 2, 4, 8, 15]),
                            o.no_list_coherence is False or r.random() < .5,
                            fences=r.choice([True, 'wild', False]),
                            hostile=r.choice([0, .4, .8]), top=top,
                            safe_label=r.random() < .9)
        if r.random() < .15:
            lines.insert(r.randrange(len(lines) + 1), '# ' + r.choice(
                ['<b>x</b> y', 'a <!-- b --> c', '&amp; x', '<http://x.y>',
                 'a<b', '<i>a</i>', '`<b>`', '<a href="x">y</a>']))
        yield dict(lines=lines, opts=o.kwargs(), final=r.random() < .8)
    for _ in range(ctx.n(5000)):
        k = r.choice([1, 2, 3, 3, 5])
        lines = [r.choice(['', ' ', 'text', g.heading(
            r.randint(1, 6), g.text(.5)), g.heading(
                r.randint(1, 6), g.plain()), g.heading(2, 'same'),
            g.fence_line()]) for _ in range(k)]
        eols = [r.choice(['\n', '\n', '\r\n', '\r']) for _ in range(k - 1)]
        yield dict(chunk=lines, eols=eols, lead=r.choice(['', '', '', '\n',
                                                          '\r\n', '\n\n']),
                   tail=r.choice(['', '', '\n', '\n', '\r', '\r\n', '\n\n']),
                   parser=r.choice(M.ALL_PARSERS), no_links=r.random() < .3,
                   keep=r.randint(1, 6))
    for _ in range(ctx.n(6000)):
        a, b = g.fence_line(), g.fence_line()
        if r.random() < .5:
            b = a.strip(' ')[:r.choice([3, 4, 99])] + r.choice(
                ['', '', '`', '~', ' ', '\t', 'x', '\u00a0'])
            b = ' ' * r.choice([0, 0, 1, 3, 4]) + b
        if r.random() < .1:
            a = r.choice(['', 'x', '# a', '``', '~~', '`', ' ', '\t```',
                          '````` ~', '``` `', '~~~ `', '-'])
        yield dict(fences=(a, b), parser=r.choice(M.ALL_PARSERS))
    for _ in range(ctx.n(600)):
        yield dict(text=''.join(r.choice([g.codepoint(), g.word(), ' ', '-',
                                          '_', '.', '\\', '*', '\u00a0'])
                                for _ in range(r.randint(0, 12))),
                   parser=r.choice(CM), seed=r.random())
    for _ in range(ctx.n(400)):
        o = g.options()
        yield dict(docs=[''.join(x + '\n' for x in g.doc_lines(
            r.choice([0, 1, 4]), True, hostile=.3)) for _ in range(
                r.choice([1, 2, 3, 5]))], opts=o.kwargs())


def assemble(A, lines, o):
    """The table, made of the building blocks one by one."""
    p = o.parser
    log = A.init_indentation_log(p, o.marker)
    counter, numbers = {}, {}
    fence = None
    first = prev = 0
    out = []
    hidden = 0
    for ln in lines:
        if fence is not None:
            if A.is_closing_code_fence(ln, fence, False, p):
                fence = None
            continue
        fence = A.is_opening_code_fence(ln, p)
        if fence is not None:
            continue
        got = A.get_md_header(ln, counter, o.keep_header_levels, p,
                              o.no_links)
        assert len(got) == 1, got
        h = got[0]
        if h is None:
            continue
        if not h['visible']:
            hidden += 1
            continue
        lv = h['header_type']
        index = 1
        if o.ordered and not o.constant_ordered_list:
            A.increase_index_ordered_list(numbers, prev, lv, p)
            index = numbers[f'h{lv}']
        spaces = 0
        if not o.no_indentation:
            if not o.no_list_coherence:
                first = first or lv
                prev = prev or lv
                if lv < first or lv > prev + 1:
                    raise RuntimeError(M.INCOHERENT)
            A.compute_toc_line_indentation_spaces(
                lv, prev, p, o.numbered, o.marker, log, index)
            spaces = log[lv]['indentation_spaces']
        line = A.build_toc_line_without_indentation(
            h, o.numbered, o.no_links, index, p, o.marker)
        out.append(A.build_toc_line(line, spaces) + o.newline_string)
        prev = lv
    return ''.join(out), hidden


def check(ctx, case):
    for k in ('lines', 'chunk', 'fences', 'text', 'docs'):
        if k in case:
            return globals()['check_' + k](ctx, case)


def check_lines(ctx, case):
    o = M.Opts(**case['opts'])
    doc = ''.join(x + '\n' for x in case['lines'])
    if not case['final']:
        doc = doc[:-1]
    whole = ctx.toc(doc, o)
    if whole.kind == 'timeout':
        return
    for e in ('', '\n'):
        r = rt.call(assemble, ctx.api, [x + e for x in case['lines']], o)
        if r.kind == 'timeout':
            return
        got = r.value[0] if r.ok else r.value
        if r.kind == 'raise' and r.value == 'RuntimeError':
            got = M.INCOHERENT
        ctx.require((r.kind, got) == (whole.kind, whole.value), case,
                    'the building blocks do not make up the table', doc=doc,
                    opts=o.kwargs(), got=[r.kind, got], exc=r.exc,
                    want=whole.brief(), terminator=e)
        ctx.events['tables from building blocks'] += 1
        ctx.events['lines with terminators'] += e != ''
        if r.ok:
            ctx.events['hidden headings'] += r.value[1] > 0
        else:
            ctx.events['refusals alike'] += 1
    ctx.seen('table', o.parser, o.numbered, o.no_links, o.no_indentation, doc)
    ctx.sample(dict(doc=doc[:150], opts=o.kwargs(), outcome=whole.kind))


def check_chunk(ctx, case):
    """Lines in one string are the lines one after another; blank lines at
    both ends do not count."""
    A, p = ctx.api, case['parser']
    text = case['lead']
    for ln, e in zip(case['chunk'], case['eols'] + [case['tail']]):
        text += ln + e
    # The lines, as the documentation of the function has them.
    body = text.replace('\r\n', '\n').replace('\r', '\n').strip('\n')
    lines = body.split('\n')
    ctx.require(rt.call(A.replace_and_split_newlines, text).value == lines,
                case, 'lines are split in another way', text=text,
                want=lines)
    ctx.events['lines split'] += 1
    kw = dict(keep_header_levels=case['keep'], parser=p,
              no_links=case['no_links'])
    want, err, anchors = [], None, M.Anchors(p)
    for ln in lines:
        h = M.atx(ln, p)
        if h is None:
            want.append(None)
            continue
        lv, t = h
        if p != 'redcarpet' and not case['no_links']:
            if M.label_is_blank(t):
                err = M.EMPTY
            elif len(t) + t.endswith('\\') > M.MAX_LABEL:
                err = M.OVERFLOW
            if err:
                break
        want.append((lv, lv <= case['keep'], t))
    one = rt.call(A.get_atx_heading, text, **kw)
    two = rt.call(A.get_md_header, text, {}, **kw)
    if 'timeout' in (one.kind, two.kind):
        return
    info = dict(text=text, **kw)
    if err:
        for r in (one, two):
            ctx.require((r.kind, r.value) == ('raise', err), case,
                        'a refusal is missing', got=r.brief(), want=err,
                        **info)
        ctx.events['refusals alike'] += 1
        return
    ctx.require(one.ok and two.ok and len(one.value) == len(two.value) ==
                len(want), case, 'not one result per line',
                got=[one.brief(), two.brief()], want=len(want), **info)
    counter = {}
    for ln, w, x, y in zip(lines, want, one.value, two.value):
        single = rt.call(A.get_md_header, ln, counter, **kw)
        ctx.require(single.ok and single.value == [y], case, 'a line among '
                    'others gives something else than alone', line=ln,
                    got=repr(y), want=single.brief(), **info)
        if w is None:
            ctx.require(y is None and x['header_type'] is None and
                        x['header_text_trimmed'] is None and
                        not x['visible'], case, 'a heading where there is '
                        'none', line=ln, got=repr([x, y]), **info)
            continue
        ctx.require(y is not None, case, 'a heading is missing', line=ln,
                    **info)
        ctx.require(
            (x['header_type'], bool(x['visible'])) == w[:2] ==
            (y['header_type'], bool(y['visible'])) and
            x['header_text_trimmed'] == y['text_original'], case,
            'level, visibility or text differ', line=ln, want=w,
            got=repr([x, y]), **info)
        text_ = w[2] if case['no_links'] else M.label(w[2], p)
        # Redcarpet: the space after a trailing backslash is as it comes.
        ctx.require(text_ == y['text_original'] or p == 'redcarpet' and
                    text_.rstrip(' ') == y['text_original'], case,
                    'the text is not the one of the heading', line=ln,
                    want=text_, got=y['text_original'], **info)
        ctx.events['hidden headings'] += not w[1]
        if '<' not in w[2] and '&' not in w[2] and (
                p != 'redcarpet' or w[2].isascii()):
            a = anchors(M.slug(w[2], p))
            ctx.require(a == y['text_anchor_link'], case, 'the anchor is not '
                        'the one of the heading', line=ln, want=a,
                        got=y['text_anchor_link'], **info)
        else:
            # An anchor of its own in the model as well.
            anchors(y['text_anchor_link'])
            return
    ctx.events['several lines at once'] += len(lines) > 1
    ctx.seen('chunk', p, case['no_links'], case['keep'], text)


def check_fences(ctx, case):
    A, p = ctx.api, case['parser']
    a, b = case['fences']
    for e in EOL[:1] + ['']:
        r = rt.call(A.is_opening_code_fence, a + e, p)
        w = M.fence_open(a) if p in CM else None
        ctx.require(r.ok and r.value == (w and w[0] * w[1]), case,
                    'an opening fence', line=a + e, parser=p, got=r.brief(),
                    want=w)
        ctx.events['opening fences'] += w is not None
        if w is None:
            continue
        c = rt.call(A.is_closing_code_fence, b + e, r.value, False, p)
        cw = M.fence_close(b, w[0], w[1], p)
        ctx.require(c.ok and bool(c.value) == cw, case, 'a closing fence',
                    line=b + e, fence=r.value, parser=p, got=c.brief(),
                    want=cw)
        d = rt.call(A.is_closing_code_fence, b + e, r.value, parser=p)
        ctx.require(d == c, case, 'the default is not the documented one',
                    line=b + e, fence=r.value, got=d.brief())
        ctx.events['closing fences'] += cw
    ctx.seen('fences', a, b, p)


def check_text(ctx, case):
    import random
    A, t = ctx.api, case['text']
    r = rt.call(A.anchor_link_punctuation_filter, t, case['parser'])
    want = ''.join(c for c in t if c in ' -_' or c.isalnum())
    ctx.require(r.ok and r.value == want, case, 'the wrong characters are '
                'filtered', text=t, got=r.brief(), want=want)
    ctx.events['punctuation filtered'] += 1
    rr = random.Random(case['seed'])
    ranges = []
    for _ in range(rr.randint(0, 4)):
        a = rr.randint(0, len(t))
        ranges.append(range(a, min(len(t), a + rr.randint(0, 3))))
    gone = {i for x in ranges for i in x}
    kept = copy.deepcopy(ranges)
    r = rt.call(A.filter_indices_from_line, t, ranges)
    want = ''.join(c for i, c in enumerate(t) if i not in gone)
    ctx.require(r.ok and r.value == want and ranges == kept, case,
                'the wrong indices are filtered', text=t, got=r.brief(),
                want=want, ranges=repr(ranges))
    ctx.events['ranges filtered'] += bool(gone)
    ctx.seen('text', t, case['parser'])


def check_docs(ctx, case):
    """Many files are the files one by one."""
    o = M.Opts(**case['opts'])
    names = [ctx.write(d, ctx.path(f'c27-{i}.md'))
             for i, d in enumerate(case['docs'])]
    single = [rt.call(ctx.api.build_toc, n, **o.kwargs()) for n in names]
    r = rt.call(ctx.api.build_multiple_tocs, names, **o.kwargs())
    bad = [x.value for x in single if x.kind == 'raise']
    if any(x.kind == 'timeout' for x in single + [r]):
        return
    if bad:
        ctx.require(r.kind == 'raise' and r.value in bad, case,
                    'many files are not the files one by one', got=r.brief(),
                    want=bad)
        return
    ctx.require(r.ok and r.value == [x.value for x in single], case,
                'many files are not the files one by one', got=r.brief(),
                want=[x.value for x in single], docs=case['docs'])
    # Writing likewise: file by file.
    texts = [d + '\n<!--TOC-->\nend\n' for d in case['docs']]
    for n, t in zip(names, texts):
        ctx.write(t, n)
    a = rt.call(ctx.api.write_strings_on_files_between_markers, names,
                list(r.value), '<!--TOC-->', '\n')
    got = [ctx.read(n) for n in names]
    same = True
    for n, t, s in zip(names, texts, r.value):
        ctx.write(t, n)
        x = rt.call(ctx.api.write_string_on_file_between_markers, n, s,
                    '<!--TOC-->', '\n')
        same = same and x.ok and bool(x.value)
    ctx.require(a.ok and bool(a.value) == same and got == [
        ctx.read(n) for n in names], case,
        'many files are not written like the files one by one',
        got=a.brief(), docs=case['docs'])
    ctx.events['lists of files'] += len(names) > 1
    ctx.seen('docs', o.parser, case['docs'])
