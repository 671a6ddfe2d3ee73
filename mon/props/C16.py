"""The comparison with the table in the file is exact, and only a comparison."""
import unicodedata

from .. import inplace as I, model as M, rt

LEVEL = 'exploration'
RULE = ('distinct (kind of difference, entry point, options, number of files) '
        'of comparisons made')
MUST_SEE = ['equal verdicts', 'different verdicts', 'exit status 128',
            'exit status 0', 'runs over many files', 'verdicts of writes']
ASSUMPTIONS = ['white space at the two ends of a table does not count; files '
               'without a region compared with an empty table are not '
               'generated']
MARKER = '<!--TOC-->'

EDITS = ['none', 'none', 'none', 'char', 'case', 'drop', 'add', 'swap',
         'indent', 'anchor', 'marker', 'join', 'blank line', 'trailing',
         'number', 'no region', 'single marker', 'other order', 'two spaces',
         'other space', 'compose', 'separator', 'empty region',
         'append', 'append', 'prepend', 'cut', 'twice']

ODD = ['a\u00a0b', 'caf\u00e9 x', 'cafe\u0301 x', '\ufb01n', 'x\u2028y',
       'x\x0cy z', 'a  b', 'a\tb', '\u3000wide x', 'x \u200b y', '\u0130 I',
       '\u212b ngstrom', 'a\x85b', '\U0001f389 x', '\ufeffx y', 'a\x1cb',
       'x&nbsp;y', '`a  b`', 'A b C', '\u00df ss', 'x\u00ady', '\x00 x y',
       'trail\u00a0', 'a\\']


def cases(ctx):
    r, g = ctx.rng, ctx.gen
    for _ in range(ctx.n(7000)):
        n = r.choice([1, 1, 1, 2, 3, 5])
        o = g.options(no_list_coherence=True,
                      newline_string=r.choice(['\n'] * 5 + ['\r\n', '\r']))
        if o.no_indentation:
            o.no_list_coherence = False
        files = []
        for _ in range(n):
            files.append(dict(
                edit='none' if n > 1 and r.random() < .6 else
                r.choice(EDITS),
                lines=[f'{"#" * r.choice([1, 1, 2, 3])} '
                       f'{r.choice([g.plain(), g.plain(), "é " + g.plain(), "*e* x", "a [b]", r.choice(ODD), r.choice(ODD)])}'
                       for _ in range(r.choice([1, 2, 3, 6, 12]))],
                pre=I.prose(ctx, r.choice([0, 1, 3]), MARKER, headings=False),
                eol=r.choice(['\n'] * 4 + ['\r\n', '\r']), at=r.random(),
                pick=r.random()))
        yield dict(files=files, opts=o.kwargs(),
                   how=r.choice(['equal', 'write', 'diff', 'diff', 'diff -p']))
    sizes = [50, 300, 1000] + [min(x, 3000) for x in g.sizes]
    for n in ctx.mine(sizes):
        for e in EDITS[2:]:
            yield dict(files=[dict(edit=e, lines=[f'# h{i}' for i in range(n)],
                                   pre=[], eol='\n', at=r.choice([0, .5,
                                                                  .99999]),
                                   pick=.5)],
                       opts=dict(parser='github'),
                       how=r.choice(['equal', 'diff']))


def edit(table, how, at, pick):
    """(lines of the table in the file, still the same table)."""
    t = list(table)
    i = min(len(t) - 1, int(at * len(t)))
    ln = t[i]
    body = len(ln) - len(ln.lstrip(' '))
    if how == 'char':
        k = body + 2 + int(pick * max(1, len(ln) - body - 3))
        k = min(k, len(ln) - 1)
        t[i] = ln[:k] + ('q' if ln[k] != 'q' else 'w') + ln[k + 1:]
    elif how == 'case':
        t[i] = ln.swapcase()
    elif how == 'drop':
        if len(t) < 2:
            return t, True
        del t[i]
    elif how == 'add':
        t.insert(i, '- [extra](#extra)')
    elif how == 'append':
        # Something after all that is the same.
        t += ([ln], [t[-1]], ['- [extra](#extra)'], ['x'], ['', 'x'],
              ['', '- y'], ['  - [z](#z)'], ['.'], ['<!-- -->'],
              t[:1] * 30)[int(pick * 10)]
    elif how == 'prepend':
        t = t[:1] * (1 + int(pick * 3)) + t
    elif how == 'cut':
        # Only a part of the last line, or of the lines, is there.
        if pick < .5:
            t[-1] = t[-1][:max(body + 3, int(at * len(t[-1])))]
        else:
            t = t[:max(1, i)]
    elif how == 'twice':
        t = t + t
    elif how == 'swap':
        j = (i + 1) % len(t)
        t[i], t[j] = t[j], t[i]
    elif how == 'indent':
        if i == 0:
            return t, True
        t[i] = ' ' + ln
    elif how == 'anchor':
        t[i] = ln + 'x' if not ln.endswith(')') else ln[:-1] + '-1)'
    elif how == 'marker':
        t[i] = ln[:body] + {'-': '+', '+': '*', '*': '-'}.get(
            ln[body], '7') + ln[body + 1:]
    elif how == 'join':
        if len(t) < 2:
            return t, True
        t[i:i + 2] = [' '.join(t[i:i + 2])]
        if i == len(table) - 1:
            return t, True
    elif how == 'blank line':
        if i == 0:
            return t, True
        t.insert(i, '')
    elif how == 'trailing':
        if i == len(t) - 1:
            return t, True
        t[i] = ln + ' '
    elif how == 'number':
        t[i] = ln + ' 2'
    elif how == 'two spaces':
        t[i] = ln[:body + 3] + ln[body + 3:].replace(' ', '  ', 1)
    elif how == 'other space':
        t[i] = ln[:body + 3] + ln[body + 3:].translate(
            {0x20: 0xa0, 0xa0: 0x20, 9: 0x20, 0x3000: 0x20})
    elif how == 'compose':
        for form in ('NFC', 'NFD', 'NFKC'):
            if unicodedata.normalize(form, ln) != ln:
                t[i] = unicodedata.normalize(form, ln)
    elif how == 'separator':
        t[i] = ln.replace('\u2028', ' ').replace('\x0c', ' ').replace(
            '\x85', ' ').replace('\u200b', '').replace('\ufeff', '').replace(
                '\x00', '').replace('\u00ad', '')
    elif how == 'other order':
        t.reverse()
    return t, t == list(table)


def check(ctx, case):
    o = M.Opts(**case['opts'])
    paths, same, texts, tocs = [], [], [], []
    for k, f in enumerate(case['files']):
        doc = ''.join(x + '\n' for x in f['pre'] + f['lines'])
        want = M.toc(doc, o)
        bare = f['edit'] == 'empty region'
        if bare and f['at'] < .6:
            # No headings: the table is empty, and so is the region.
            doc = ''.join(x + '\n' for x in f['pre'])
            f = dict(f, lines=[])
            want = M.toc(doc, o)
            if want != ('ok', ''):
                return
        elif want[0] != 'ok' or not want[1].strip() or not I.recognised(
                want[1]):
            ctx.events['skipped: refused or unrecognised'] += 1
            return
        table = I.normal(want[1]).rstrip('\n').split('\n')
        if not bare and table[-1] != table[-1].rstrip() or table[0] != table[0].lstrip():
            return
        if f['edit'] in ('no region', 'single marker'):
            t, eq = None, False
            region = [MARKER] if f['edit'] == 'single marker' else []
        elif bare:
            eq = not f['lines']
            region = [MARKER] + ([], [''], ['', ' '], ['', '', '\t', ''])[
                int(f['pick'] * 4)] + [MARKER]
        else:
            t, eq = edit(table, f['edit'], f['at'], f['pick'])
            if not t or not I.recognised('\n'.join(t)):
                return
            # The first and the last line are compared without outer space.
            eq = '\n'.join(t).strip() == '\n'.join(table).strip()
            region = [MARKER, ''] + t + ['', MARKER]
        text = f['eol'].join(f['pre'] + region + f['lines']) + f['eol']
        # The table itself must not change the headings.
        if M.toc(text, o) != want:
            return
        p = ctx.path(f'c16-{k}.md')
        ctx.write(text, p)
        paths.append(p)
        same.append(eq)
        texts.append(text.encode())
        tocs.append(want[1])
    how = case['how']
    info = dict(edits=[f['edit'] for f in case['files']], opts=o.kwargs(),
                text=texts[0].decode()[:1200], same=same, how=how)
    if how == 'equal':
        for p, t, eq in zip(paths, tocs, same):
            r = rt.call(ctx.api.tocs_equal, t, p, MARKER)
            if r.kind == 'timeout':
                return
            ctx.require(r.ok and r.value is eq, case, 'wrong verdict',
                        got=r.brief(), want=eq, **info)
            ctx.events['equal verdicts' if eq else 'different verdicts'] += 1
    elif how == 'write':
        r = rt.call(ctx.api.write_strings_on_files_between_markers, paths,
                    tocs, MARKER, o.newline_string)
        if r.kind == 'timeout':
            return
        ctx.require(r.ok and bool(r.value) is all(same), case,
                    'wrong verdict of a write', got=r.brief(),
                    want=all(same), **info)
        ctx.events['verdicts of writes'] += 1
    else:
        args = I.cli_args(o, None, in_place=how == 'diff -p', diff=True)
        code, out, err, r = ctx.cli(args + paths)
        want = 0 if all(same) else 128
        if r.kind == 'timeout':
            return
        ctx.require(code == want, case, 'wrong exit status', got=code,
                    want=want, err=err[-300:], **info)
        ctx.events[f'exit status {code}'] += 1
        ctx.events['equal verdicts' if all(same) else
                   'different verdicts'] += 1
        if how == 'diff':
            ctx.require(out.decode() == ''.join(tocs), case,
                        'the tables are not printed', got=out[:600], **info)
    if how in ('equal', 'diff'):
        for p, t in zip(paths, texts):
            ctx.require(ctx.read(p) == t, case, 'a comparison wrote a file',
                        **info)
    ctx.events['runs over many files'] += len(paths) > 1
    ctx.seen(info['edits'], how, o.kwargs(), len(tocs[0]))
    ctx.sample(dict(edits=info['edits'], how=how, same=same))
