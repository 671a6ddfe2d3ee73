"""An argument left out means its documented default."""
import copy
import random

from .. import model as M, rt

LEVEL = 'exploration'
RULE = 'distinct (function, arguments given, way of giving them, input)'
MUST_SEE = ['tables', 'many tables', 'headings', 'lines', 'counters', 'logs',
            'fences', 'texts', 'files written', 'by position', 'by name',
            'all left out', 'the default made a difference']
ASSUMPTIONS = ['newline_string defaults to the line terminator of the '
               'platform, which is a line feed here']
CM = M.CMARK_LIKE

# The documented order and the documented defaults of what comes after the
# arguments that have to be given.
TABLE = [('ordered', False), ('no_links', False), ('no_indentation', False),
         ('no_list_coherence', False), ('keep_header_levels', 3),
         ('parser', 'github'), ('list_marker', '-'), ('skip_lines', 0),
         ('constant_ordered_list', False), ('newline_string', '\n')]
PARSER = [('parser', 'github')]
DOC = dict(
    build_toc=TABLE,
    build_multiple_tocs=TABLE,
    get_md_header=[('keep_header_levels', 3)] + PARSER + [
        ('no_links', False)],
    get_atx_heading=[('keep_header_levels', 3)] + PARSER + [
        ('no_links', False)],
    build_anchor_link=PARSER,
    anchor_link_punctuation_filter=PARSER,
    remove_emphasis=PARSER,
    remove_html_tags=PARSER,
    build_toc_line=[('no_of_indentation_spaces', 0)],
    build_toc_line_without_indentation=[
        ('ordered', False), ('no_links', False), ('index', 1)] + PARSER + [
            ('list_marker', '-')],
    compute_toc_line_indentation_spaces=[
        ('header_type_curr', 1), ('header_type_prev', 0)] + PARSER + [
            ('ordered', False), ('list_marker', '-'),
            ('indentation_log', None), ('index', 1)],
    init_indentation_log=PARSER + [('list_marker', '-')],
    increase_index_ordered_list=PARSER,
    is_opening_code_fence=PARSER,
    is_closing_code_fence=[('is_document_end', False)] + PARSER,
    write_string_on_file_between_markers=[('newline_string', '\n')],
    write_strings_on_files_between_markers=[('newline_string', '\n')],
)
EVENT = dict(build_toc='tables', build_multiple_tocs='many tables',
             get_md_header='headings', get_atx_heading='headings',
             build_toc_line='lines', build_toc_line_without_indentation='lines',
             increase_index_ordered_list='counters',
             init_indentation_log='logs',
             compute_toc_line_indentation_spaces='logs',
             is_opening_code_fence='fences', is_closing_code_fence='fences',
             write_string_on_file_between_markers='files written',
             write_strings_on_files_between_markers='files written')


def cases(ctx):
    r, g = ctx.rng, ctx.gen
    names = list(DOC) + ['build_toc'] * 12 + ['build_multiple_tocs'] * 3
    for name in ctx.mine(sorted(DOC)):
        # Nothing but what has to be given.
        for _ in range(40):
            yield dict(fn=name, text=text(ctx, name), given={},
                       how='name', seed=r.random())
    for _ in range(ctx.n(9000)):
        name = r.choice(names)
        o = g.options(no_links=r.random() < .4, no_indentation=r.random() < .3,
                      no_list_coherence=r.random() < .3,
                      skip_lines=r.choice([0, 1, 3]),
                      newline_string=r.choice(['\n', '\r\n', '\r']))
        val = dict(o.kwargs(), no_of_indentation_spaces=r.choice([0, 1, 4]),
                   index=r.randint(1, 12), header_type_curr=r.randint(1, 6),
                   header_type_prev=r.randint(0, 6), indentation_log=None,
                   is_document_end=r.random() < .5)
        if name == 'anchor_link_punctuation_filter':
            val['parser'] = r.choice(CM)
        spec = [k for k, _ in DOC[name]]
        how = r.choice(['position', 'name', 'name'])
        k = r.choice([0, 1, 1, 2, 3, len(spec)])
        k = min(k, len(spec))
        # By position: a prefix.
        sel = spec[:k] if how == 'position' else r.sample(spec, k)
        yield dict(fn=name, text=text(ctx, name), how=how,
                   given={x: val[x] for x in sel}, seed=r.random())


def text(ctx, name):
    r, g = ctx.rng, ctx.gen
    if name in ('build_toc', 'build_multiple_tocs'):
        lines = g.doc_lines(r.choice([2, 5, 12]), r.random() < .7, hostile=.2,
                            top=6)
        if r.random() < .3:
            lines = ['# ' + g.plain(), '## ' + g.plain(), '#### ' + g.plain()
                     ] + lines
        return ''.join(x + '\n' for x in lines)
    if name in ('is_opening_code_fence', 'is_closing_code_fence'):
        return r.choice([g.fence_line(), '```', '~~~~', '```\t', '    ```'])
    if name in ('get_md_header', 'get_atx_heading'):
        return g.heading(r.randint(1, 6), g.text(.5)) if r.random() < .8 \
            else r.choice(['#', '#x', ' # a_b_ [c', '#\ta', '#### \\', '## '])
    if name == 'remove_html_tags':
        return r.choice(['<b>a</b> b', 'a <!-- x --> b', 'a', '`<b>` <i>'])
    return g.text(.5)


def others(rr, case, spec, full):
    """What has to be given: a function making it anew, and what to look at
    afterwards."""
    name, t = case['fn'], case['text']
    if name == 'get_md_header':
        return lambda: [t, {}]
    if name == 'build_anchor_link':
        return lambda: [t, {'a': 1, 'foo': 2}]
    if name == 'build_toc_line_without_indentation':
        h = dict(header_type=rr.randint(1, 6), text_original=t,
                 text_anchor_link='x', visible=True)
        return lambda: [dict(h)]
    if name == 'increase_index_ordered_list':
        s = {f'h{i}': rr.choice([1, 9, 999999998, 999999999])
             for i in range(1, rr.randint(2, 7))}
        a, b = rr.randint(0, 6), rr.randint(1, 6)
        return lambda: [dict(s), a, b]
    if name == 'is_closing_code_fence':
        f = rr.choice(['```', '~~~', '````'])
        return lambda: [t, f]
    if name in ('init_indentation_log',
                'compute_toc_line_indentation_spaces'):
        return lambda: []
    return lambda: [t]


def check(ctx, case):
    A, name = ctx.api, case['fn']
    rr = random.Random(case['seed'])
    spec = DOC[name]
    given = dict(case['given'])
    full = {k: given.get(k, v) for k, v in spec}
    fn = getattr(A, name)
    if name.startswith('write_string'):
        return check_write(ctx, case, fn, full)
    if name in ('build_toc', 'build_multiple_tocs'):
        return check_table(ctx, case, fn, full)
    make = others(rr, case, spec, full)
    log = None
    if name == 'compute_toc_line_indentation_spaces':
        log = A.init_indentation_log(
            given.get('parser', 'github'), given.get('list_marker', '-'))
        for lv in log:
            log[lv]['index'] = rr.choice([1, 9, 10, 150])
            log[lv]['indentation_spaces'] = rr.choice([0, 2, 5])

    def run(kw, positional):
        a = make()
        # The log is what there is to look at: always given.
        st = copy.deepcopy(log)
        kw = dict(kw)
        if log is not None:
            kw['indentation_log'] = st
        if positional:
            vals = list(kw.values())
            r = rt.call(fn, *a, *vals)
        else:
            r = rt.call(fn, *a, **kw)
        return r.kind, r.value, a, st
    if log is not None and case['how'] == 'position':
        n = len(given)
        pos = n if n <= 5 else len(spec)
        order = [k for k, _ in spec][:pos]
        a = run({k: full[k] for k in order}, False)
        b = run(full, True)
        if len(order) < len(spec):
            ctx.events['all left out'] += not given
    else:
        a = run(given, case['how'] == 'position')
        b = run(full, False)
    if 'timeout' in (a[0], b[0]):
        return
    ctx.require(a == b, case, 'an argument left out is not its documented '
                'default', function=name, given=repr(given), got=repr(a)[:600],
                want=repr(b)[:600])
    # The same arguments by position and by name.
    c = run(full, True)
    if c[0] != 'timeout':
        ctx.require(c == b, case, 'the arguments are not in the documented '
                    'order', function=name, arguments=repr(full),
                    got=repr(c)[:600], want=repr(b)[:600])
    ctx.events[EVENT.get(name, 'texts')] += 1
    note(ctx, case, given, spec)
    ctx.seen(name, sorted(given), case['how'], case['text'])


def note(ctx, case, given, spec):
    ctx.events['by ' + case['how']] += bool(given)
    ctx.events['all left out'] += not given


def check_table(ctx, case, fn, full):
    name, given = case['fn'], case['given']
    o = M.Opts(**full)
    path = ctx.write(case['text'], ctx.path('c28.md'))
    many = name == 'build_multiple_tocs'
    arg = [path, path] if many else path
    a = rt.call(fn, arg, *given.values()) if case['how'] == 'position' \
        else rt.call(fn, arg, **given)
    b = rt.call(fn, arg, **full)
    c = rt.call(fn, arg, *[full[k] for k, _ in TABLE])
    if 'timeout' in (a.kind, b.kind, c.kind):
        return
    info = dict(function=name, given=repr(given), doc=case['text'][:1500])
    ctx.require((a.kind, a.value) == (b.kind, b.value), case, 'an argument '
                'left out is not its documented default', got=a.brief(),
                want=b.brief(), **info)
    ctx.require((c.kind, c.value) == (b.kind, b.value), case, 'the arguments '
                'are not in the documented order', got=c.brief(),
                want=b.brief(), **info)
    want = M.toc(case['text'], o)
    if not o.numbered and o.list_marker not in '-+*':
        # Not a bullet: refused.
        want = ('refused', None)
    if o.parser == 'redcarpet' and '\\' in case['text']:
        # Padding of entries is not the subject here.
        want = ('unknown', None)
    if want[0] == 'ok':
        w = [want[1]] * 2 if many else want[1]
        ctx.require(b.ok and b.value == w, case, 'the table is not the one '
                    'the options ask for', got=b.brief(), want=repr(w)[:1500],
                    **info)
    # Would another default show?
    k, v = random.Random(case['seed']).choice(TABLE)
    if k not in given and want[0] == 'ok':
        other = dict(ordered=True, no_links=True, no_indentation=True,
                     no_list_coherence=True, keep_header_levels=6,
                     parser='redcarpet', list_marker='+', skip_lines=1,
                     constant_ordered_list=True, newline_string='\r\n')[k]
        ctx.events['the default made a difference'] += M.toc(
            case['text'], M.Opts(**dict(full, **{k: other}))) != want
    ctx.events[EVENT[name]] += 1
    note(ctx, case, given, TABLE)
    ctx.seen(name, sorted(given), case['how'], case['text'])


def check_write(ctx, case, fn, full):
    given = case['given']
    many = case['fn'].startswith('write_strings')
    doc = 'a\n<!--TOC-->\n' + '\n# z\n'
    toc = '- [z](#z)\n'
    got = []
    for kw, positional in ((given, case['how'] == 'position'), (full, False),
                           (full, True)):
        path = ctx.write(doc, ctx.path('c28w.md'))
        a = [[path], [toc], '<!--TOC-->'] if many else [
            path, toc, '<!--TOC-->']
        r = rt.call(fn, *a, *kw.values()) if positional else rt.call(
            fn, *a, **kw)
        got.append((r.kind, r.value, ctx.read(path)))
    ctx.require(got[0] == got[1] == got[2], case, 'an argument left out is '
                'not its documented default', function=case['fn'],
                given=repr(given), got=repr(got)[:900])
    n = full['newline_string'].encode()
    ctx.require(got[0][2].replace(n, b'\n').count(b'\r') == 0, case,
                'another line terminator', got=repr(got[0]))
    ctx.events['files written'] += 1
    note(ctx, case, given, ())
    ctx.seen(case['fn'], sorted(given), case['how'], case['text'])
