"""P48: results do not depend on the default text encoding and the line ends of the system."""
import builtins
import io
import os
import shutil
import sys

from checks import p37, p39, p43
from vlib import child, conv, core, gen, markup, model, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P48'
LEVEL = 'exploration'
RULE = ('A history of exports, imports, new projects, changes of the project and failing conversions, an export of data files, and the writing and reading of a configuration are carried out in two processes: as they are, and on a simulated system on which '
        'text files that are opened without an encoding are read and written in cp1252, cp1251, cp932, GBK or ASCII, and lines of text files that are opened without a line end convention end with CR LF. '
        'Oracle: the same messages, questions, warnings, results and files (line ends apart) after each step. Non-trivial: at least one import that succeeds, and texts that the default encoding cannot represent or represents differently.')
ASSUMPTIONS = ['the system encodes file names in UTF-8', 'time stamps and line ends are not compared']
ENCODINGS = ('cp1252', 'cp1251', 'cp932', 'gbk', 'ascii')


def simulate(encoding, crlf):
    """Replace the functions that open text files, except for the calls of the harness."""
    original = io.open

    def system(file, mode='r', buffering=-1, encoding_=None, errors=None, newline=None, closefd=True, opener=None, **kw):
        encoding_ = kw.get('encoding', encoding_)
        if 'b' not in mode and not sys._getframe(1).f_code.co_filename.startswith(core.VERIF + os.sep):
            if encoding_ in (None, 'locale'):
                encoding_ = encoding
            if newline is None and crlf and not set(mode).isdisjoint('wax+'):
                newline = '\r\n'
        return original(file, mode, buffering, encoding_, errors, newline, closefd, opener)

    builtins.open = io.open = system
    if crlf:
        os.linesep = '\r\n'


def files(base):
    r = {}
    for k, v in p39.contents(base).items():
        if isinstance(v, dict):
            r[k] = {n: x[0].decode('utf-8', 'backslashreplace').replace('\r\n', '\n') for n, x in v.items()}
        else:
            r[k] = v.decode('utf-8', 'backslashreplace').replace('\r\n', '\n')
    return r


def work(case, base, app):
    log = p43.history(case, base, app)
    for step in log:
        step['files'] = {k: {n: x.replace('\r\n', '\n') for n, x in v.items()} if isinstance(v, dict) else v.replace('\r\n', '\n') for k, v in step['files'].items()}
    # data files
    c, cls = p37.converter('_data')
    path = os.path.join(base, 'q.yw7')
    yw7.write(path, case['novels'][1])
    c.ui = conv.recorder()
    c.run(path, suffix='_data')
    log.append(dict(what='data files', messages=c.ui.messages, files=files(base)))
    # configuration
    from pywriter.config.configuration import Configuration
    values = dict(case['settings'])
    ini = os.path.join(base, 'c.ini')
    k = Configuration(dict(values), {'option': True})
    k.write(ini)
    k = Configuration({n: '' for n in values}, {'option': False})
    k.read(ini)
    log.append(dict(what='configuration', settings=sorted(k.settings.items()), options=k.options, files=files(base)))
    return log


def check(case, ctx):
    app = ctx.path('app')
    base = ctx.path('work')
    results = []

    def there():
        simulate(case['encoding'], case['crlf'])
        return work(case, base, app)

    for fn in (lambda: work(case, base, app), there):
        os.mkdir(base)
        value, error = child.run(fn)
        expect(error is None, f'the conversions {"on the simulated system " if results else ""}fail', error)
        results.append(value)
        shutil.rmtree(base)
    want, got = results
    steps = [f'{s[0]} {s[1]}' for s in case['steps'] if s[0] != 'edit'] + ['data files', 'configuration']
    imports = 0
    for what, w, g in zip(steps, want, got):
        for k in w:
            d = model.diff(g[k], w[k])
            expect(d is None, f'{what}: {k} on a system with {case["encoding"]}{" and CR LF" if case["crlf"] else ""}: {d}')
        imports += what.startswith(('import', 'new')) and not w['messages'][-1].startswith('!')
        ctx.label(what.split()[0])
    text = str(want[-2]['files'].get('q.yw7'))
    try:
        differs = text.encode(case['encoding']) != text.encode('utf-8')
    except UnicodeEncodeError:
        differs = True
    expect_eq(len(got), len(want), 'number of steps')
    ctx.label('CR LF', case['crlf'])
    ctx.label('other encoding matters', differs)
    ctx.nontrivial(imports > 0 and differs)


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def make(draw):
        case = draw(p43.strategy())
        case.update(shipped=False, locale='en_US', encoding=draw(gen.sampled(*ENCODINGS)), crlf=draw(gen.BOOL),
                    settings=[[f's{i}', draw(gen.sampled('x', 'Größe', '章节', 'Описание', "l'été", '€ “a”', '😀', 'a = b; c', '100 %'))] for i in range(draw(st.integers(1, 3)))])
        return case
    return make()


PARTS = [Part('systems', strategy, check, quick=240, thorough=5000)]
