"""P35: program settings survive a restart."""
import os

from vlib import gen
from vlib.core import Part, expect, expect_eq

ID = 'P35'
LEVEL = 'exploration'
RULE = ('Histories of writing settings and options, starting new instances with the same, fewer or more names and reading the file are generated for arbitrary single-line values, and files from elsewhere (missing, empty, binary, '
        'without sections, with broken lines, edited by hand) are read. Values are compared with a dictionary as model. Non-trivial: a value with a special character, and names that are missing in the file.')
ASSUMPTIONS = ['single-line values without surrounding white space', 'names are distinct ignoring case and are not preceded by white space, and contain no = or : and do not begin with # ; or [']
FOREIGN = {'missing': None, 'empty': b'', 'binary': bytes(range(128, 256)), 'no section': b'a = 1\nb = 2\n', 'broken': b'[SETTINGS]\na\n= x\n', 'open': b'[SETTINGS\na = 1\n', 'twice': b'[SETTINGS]\na = 1\na = 2\n',
           'sections twice': b'[SETTINGS]\na = 1\n[SETTINGS]\na = 2\n', 'others': b'[FOO]\na = 1\n[BAR]\nb = x\n', 'html': b'<html>\n<body>a = b</body>', 'half': '[OPTIONS]\nä'.encode('utf-16'), 'directory': None,
           'crlf': b'[FOO]\r\na = 1\r\n'}
WORDS = {True: ['Yes', 'yes', 'on', 'TRUE', '1'], False: ['No', 'no', 'off', 'False', '0']}


def same(c, settings, options, what):
    expect_eq(c.settings, settings, f'{what}: settings')
    expect_eq(c.options, options, f'{what}: options')
    expect(all(type(v) is bool for v in c.options.values()), f'{what}: an option is not a truth value', c.options)


def check(case, ctx):
    from pywriter.config.configuration import Configuration
    path = ctx.path('p.ini')
    fileset, fileopt = {}, {}       # what the file holds, by lower-case name
    missing = False
    for n, (op, names, values, flags, more) in enumerate(case['steps']):
        what = f'step {n}: {op}'
        settings = {case['names'][i % len(case['names'])]: values[k % len(values)] for k, i in enumerate(names)}
        options = {case['flags'][i % len(case['flags'])]: flags[k % len(flags)] for k, i in enumerate(more)}
        if op == 'write':
            given = (dict(settings), dict(options))
            c = Configuration(settings, options)
            c.write(path)
            same(c, *given, what)
            fileset = {k.lower(): v for k, v in settings.items()}
            fileopt = {k.lower(): v for k, v in options.items()}
            r = Configuration({k: 'default' for k in settings}, {k: not v for k, v in options.items()})
            r.read(path)
            same(r, settings, options, what + ', read again')
        elif op == 'read':
            defaults, flagdefaults = dict(settings), dict(options)
            c = Configuration(settings, options)
            c.read(path)
            missing |= any(k.lower() not in fileset for k in settings) and bool(fileset)
            same(c, {k: fileset.get(k.lower(), v) for k, v in settings.items()}, {k: fileopt.get(k.lower(), v) for k, v in options.items()}, what)
            expect_eq(settings, defaults, f'{what}: the dictionary of the caller changed')
            expect_eq(options, flagdefaults, f'{what}: the dictionary of the caller changed')
            c.write(path)
            fileset = {k.lower(): v for k, v in c.settings.items()}
            fileopt = {k.lower(): v for k, v in c.options.items()}
        elif op == 'set':
            c = Configuration({'x': 'y'}, {'z': True})
            c.set(settings)
            same(c, settings, {'z': True}, what)
            c.set(options=options)
            same(c, settings, options, what)
            c.read(path)
            same(c, {k: fileset.get(k.lower(), v) for k, v in settings.items()}, {k: fileopt.get(k.lower(), v) for k, v in options.items()}, what)
        elif op == 'edit' and os.path.isfile(path):
            # the user edits the file: comments, blank lines, other words for truth values, other separators
            lines = ['# edited']
            for label, d in (('SETTINGS', fileset), ('OPTIONS', fileopt)):
                if d:
                    lines += ['', f'[{label}]']
                    for k, v in d.items():
                        sep = ' = ' if not flags[0] else '='
                        lines += [k + sep + (v if isinstance(v, str) else WORDS[v][len(k) % 5]), '; comment']
            with open(path, 'w', encoding='utf-8') as f:
                f.write('\n'.join(lines) + '\n')
        ctx.label(op)
    c, d = Configuration(), Configuration()
    c.settings['only here'] = 'x'
    expect_eq(d.settings, {}, 'instances share their settings')
    expect_eq(Configuration().settings, {}, 'a new instance has settings of another one')
    c.options['only here'] = True
    expect_eq(d.options, {}, 'instances share their options')
    expect_eq(Configuration().options, {}, 'a new instance has options of another one')
    special = any(c in v for __, __, vs, __, __ in case['steps'] for v in vs for c in '%=:;#$[]"\\{}') or any(v == '' for s in case['steps'] for v in s[2])
    ctx.nontrivial(special and missing)
    ctx.label('special', special)
    ctx.label('missing', missing)


def strategy():
    from hypothesis import strategies as st
    names = st.lists(st.sampled_from(['yw_last_open', 'Root', 'window size', 'a', 'B', 'größe', 'x.y', 'color-bg', '%name', 'tab\\x', 'default', 'SETTINGS']), unique_by=lambda x: x.lower(), min_size=2, max_size=8)
    value = st.one_of(st.sampled_from(['', 'x', '100%', '%(a)s', '%%', 'a = b', 'a: b', '# no comment', '; x', 'x ; y', 'x # y', '[OPTIONS]', '"quoted"', 'C:\\Users\\me', '${a}', 'Yes', 'ä€😀', '/home/me/My Novel.yw7', '=', 'a  b', 'None']),
                      gen.line(5)).map(lambda s: s.strip())
    step = st.tuples(st.sampled_from(['write', 'write', 'read', 'read', 'read', 'set', 'edit']), st.lists(st.integers(0, 8), max_size=7), st.lists(value, min_size=1, max_size=6), st.lists(gen.BOOL, min_size=1, max_size=4),
                     st.lists(st.integers(0, 8), max_size=5)).map(list)
    return st.fixed_dictionaries(dict(names=names, flags=names, steps=st.lists(step, min_size=2, max_size=8)))


def foreign(case, ctx):
    from pywriter.config.configuration import Configuration
    path = ctx.path('p.ini')
    kind = case['kind']
    if kind == 'directory':
        os.mkdir(path)
    elif kind == 'option':
        with open(path, 'w', encoding='utf-8') as f:
            f.write('[OPTIONS]\na = ' + case['word'] + '\nb = no\n[SETTINGS]\na = kept\n')
    elif FOREIGN[kind] is not None:
        with open(path, 'wb') as f:
            f.write(FOREIGN[kind])
    before = os.path.isfile(path) and open(path, 'rb').read()
    settings, options = {k: v for k, v in case['settings']}, {k: v for k, v in case['options']}
    c = Configuration(settings, options)
    c.read(path)
    if kind == 'option':
        truth = {w.lower(): b for b, ws in WORDS.items() for w in ws}
        want = dict(options)
        if 'a' in want:
            want['a'] = truth.get(case['word'].lower(), options['a'])
        if 'b' in want:
            want['b'] = False
        same(c, {k: 'kept' if k == 'a' else v for k, v in settings.items()}, want, f'option {case["word"]!r}')
    else:
        same(c, settings, options, f'{kind} file')
    expect_eq(os.path.isfile(path) and open(path, 'rb').read(), before, 'reading changed the file')
    ctx.nontrivial()
    ctx.label(kind)


def foreign_strategy():
    from hypothesis import strategies as st
    name = st.sampled_from(['a', 'b', 'c'])
    return st.fixed_dictionaries(dict(kind=st.one_of(st.sampled_from(list(FOREIGN)), st.just('option')), settings=st.lists(st.tuples(name, gen.line(3)), max_size=3), options=st.lists(st.tuples(name, gen.BOOL), max_size=3),
                                      word=st.sampled_from(['yes', 'On', 'maybe', '', '2', 'ja', 'FALSE', '1'])))


PARTS = [Part('histories', strategy, check, quick=1500, thorough=40000), Part('foreign files', foreign_strategy, foreign, quick=400, thorough=3000)]
