"""P39: a single-script application does the same as one that uses the package."""
import ast
import builtins
import contextlib
import io
import os
import re
import shutil
import sys
import types
import zipfile

from checks import p38
from vlib import conv, core, gen, markup, model, yw7
from vlib.core import Part, Violation, expect, expect_eq

ID = 'P39'
LEVEL = 'exploration'
RULE = ('Applications are generated: scripts that import a subset of the modules of the package in some order, with comments, docstrings and multi-line strings of their own. Each is run once with the package, and once as the single '
        'script made from it, with the package out of reach, on a generated project; messages, written files and the constants of all imported classes must be the same. '
        'Non-trivial: the application converts a project with at least one scene.')
ASSUMPTIONS = ['the conventions of the project: multi-line strings in single quotes, imports of the package at the beginning of a line and one class each', 'time stamps in documents are not compared']
STAMP = re.compile(rb'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?')
_index = {}


def index():
    """Module name -> names of its classes and functions."""
    if not _index:
        base = os.path.join(core.REPO, 'src')
        for where, dirs, files in sorted(os.walk(os.path.join(base, 'pywriter'))):
            dirs.sort()
            for name in sorted(files):
                path = os.path.join(where, name)
                module = os.path.relpath(path, base)[:-3].replace('/', '.')
                if not name.endswith('.py') or name == '__init__.py' or module.startswith(('pywriter.test', 'pywriter.ui.')) and module != 'pywriter.ui.ui' and module != 'pywriter.ui.ui_cmd':
                    continue
                with open(path, encoding='utf-8') as f:
                    tree = ast.parse(f.read())
                names = [n.name for n in tree.body if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and not n.name.startswith('_')]
                if names and module != 'pywriter.pywriter_globals':
                    _index[module] = names
    return _index


BODY = '''
TEXT = \'\'\'several lines
# not a comment, at least not in Python
   text
\'\'\'.replace('# not a comment, at least not in Python\\n', '')


class Window:
    # comment
    title = 'Window'

    def show(self, text):
        # another comment
        return f'{self.title}: {text}'


def convert(ui, path, suffix):
    c = Yw7Converter()
    c.ui = ui
    c.run(path, suffix=suffix)
    return c.newFile


def facts():
    return [TEXT, Window().show('x'), string_to_list('a;b;a'), norm_path('a/../b'), _('Cannot write file'), Error.__name__]
'''


IMPORTS = [['import sys', 'import os'], ['import os', 'import sys', 'import os as system'], ['import os as system', 'import sys', 'import os', 'import re'], ['import zipfile as z', 'import sys', 'from os import path as ospath', 'import os'],
           ['import sys', 'import xml.etree.ElementTree as ET', 'import os', 'from datetime import datetime'], ['import os.path', 'import sys', 'import locale', 'import os']]


def script(modules, shebang, docstring, star, imports=0):
    lines = ['#!/usr/bin/python3'] if shebang else []
    if docstring == 1:
        lines.append('"""An application."""')
    elif docstring == 2:
        lines += ['"""An application.', '', 'Usage: import files.', '"""']
    lines += IMPORTS[imports]
    if star:
        lines.append('from pywriter.pywriter_globals import *')
    for m in modules:
        names = index()[m]
        lines.append(f'from {m} import {names[0]}' if len(names) == 1 or m == 'pywriter.pywriter_globals' else f'from {m} import {", ".join(names)}')
    if not star:
        lines.append('from pywriter.pywriter_globals import *')
    extra = {1: ['system.sep'], 2: ['system.sep', "re.sub('a', 'b', 'aa')"], 3: ['z.ZIP_STORED', "ospath.join('a', 'b')"], 4: ["ET.fromstring('<a/>').tag", 'datetime(2020, 1, 2).day'], 5: ["os.path.basename('a/b')", 'len(locale.getlocale())']}.get(imports, [])
    return '\n'.join(lines) + '\n' + BODY.replace('Error.__name__]', ', '.join(['Error.__name__'] + extra) + ']') + "\n\nif __name__ == '__main__':\n    convert(Ui(''), sys.argv[1], '')\n"


def run_script(path, name, package):
    """Execute a script as a module; without the package, if wanted."""
    with open(path, encoding='utf-8') as f:
        text = f.read()
    m = types.ModuleType(name)
    m.__file__ = path
    if not package:
        def out_of_reach(n, *args, **kw):
            if n.split('.')[0] == 'pywriter':
                raise ImportError(f'No module named {n!r}')
            return builtins.__import__(n, *args, **kw)
        m.__dict__['__builtins__'] = {**vars(builtins), '__import__': out_of_reach}
    sys.modules[name] = m
    try:
        exec(compile(text, path, 'exec'), m.__dict__)
    except Exception as ex:
        if package:
            raise
        raise Violation(f'the single script cannot be executed: {ex!r}')
    return m


def constants(cls):
    r = {}
    for k, v in vars(cls).items():
        if k in ('__doc__', '__module__', '__dict__', '__weakref__', '__firstlineno__', '__static_attributes__', '__annotations__'):
            continue
        r[k] = plain(v)
    return r


def plain(v):
    if isinstance(v, type):
        return f'class {v.__name__}'
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (str, int, float, bool, type(None), bytes)):
        return v
    return type(v).__name__


def contents(base):
    r = {}
    for where, __, files in os.walk(base):
        for name in files:
            path = os.path.join(where, name)
            if zipfile.is_zipfile(path):
                with zipfile.ZipFile(path) as z:
                    value = {i.filename: (STAMP.sub(b'', z.read(i)), i.compress_type) for i in z.infolist()}
            else:
                with open(path, 'rb') as f:
                    value = STAMP.sub(b'', f.read())
            r[os.path.relpath(path, base)] = value
    return r


def work(module, spec, steps, base, ui_class):
    """What the application does with a project: messages and files."""
    os.mkdir(base)
    path = os.path.join(base, 'p.yw7')
    yw7.write(path, spec)
    log = []
    try:
        for suffix, back in steps:
            name, suffix = (path, suffix) if not back else (os.path.join(base, 'p' + suffix + conv.DOCS[suffix]), None)
            ui = conv.recorder()
            with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                new = module.convert(ui, name, suffix)
            log.append((suffix, back, ui.messages, ui.questions, new))
        return log, contents(base)
    finally:
        shutil.rmtree(base)


def check(case, ctx):
    inliner = p38.tool('inliner')
    modules = [m for m in case['modules'] if m in index()]
    for need in ('pywriter.converter.yw7_converter', 'pywriter.ui.ui'):
        if need not in modules:
            modules.insert(case['where'] % (len(modules) + 1), need)
    os.mkdir(ctx.path('app'))
    source, target = ctx.path('app', 'app_.py'), ctx.path('app', 'app.pyw')
    with open(source, 'w', encoding='utf-8') as f:
        f.write(script(modules, case['shebang'], case['docstring'], case['star'], case.get('imports', 0)))
    before = open(source, 'rb').read()
    library = os.path.join(core.REPO, 'src', '')
    copied = case['copy']
    if copied:
        # the directory structure for building an application
        os.makedirs(ctx.path('PyWriter'))
        shutil.copytree(os.path.join(core.REPO, 'src', 'pywriter'), ctx.path('PyWriter', 'src', 'pywriter'), ignore=shutil.ignore_patterns('__pycache__', 'test'))
        library = ctx.path('app', '..', 'PyWriter', 'src', '')
        library = ctx.path('app') + '/../PyWriter/src/'
        os.makedirs(ctx.path('app', 'src', 'pywriter', 'model'))
        with open(ctx.path('app', 'src', 'pywriter', 'model', 'chapter.py'), 'w') as f:
            f.write('# changed by the developer\n')
    p38.quiet(inliner.run, source, target, 'pywriter', library, copied)
    expect_eq(open(source, 'rb').read(), before, 'the source of the application')
    if copied:
        seen = set()
        for where, __, files in os.walk(ctx.path('app', 'src', 'pywriter')):
            for name in files:
                rel = os.path.relpath(os.path.join(where, name), ctx.path('app', 'src'))
                seen.add(rel[:-3].replace('/', '.'))
                same = open(os.path.join(where, name), 'rb').read() == open(os.path.join(core.REPO, 'src', rel), 'rb').read()
                expect(same == (rel != 'pywriter/model/chapter.py'), f'copy of {rel}')
        expect(set(modules) <= seen, 'modules that are not copied', set(modules) - seen)
    a, b = None, None
    try:
        a = run_script(source, 'vapp_package', True)
        b = run_script(target, 'vapp_single', False)
        expect_eq(b.facts(), a.facts(), 'what the application says')
        for m in modules:
            for name in index()[m]:
                x, y = getattr(a, name), b.__dict__.get(name)
                expect(y is not None, f'{name} is missing in the single script')
                if isinstance(x, type):
                    d = model.diff(constants(y), constants(x))
                    expect(d is None, f'{name}: {d}')
                    expect_eq([c.__name__ for c in y.__mro__], [c.__name__ for c in x.__mro__], f'{name}: base classes')
        base = ctx.path('work')
        want = work(a, case['novel'], case['steps'], base, None)
        got = work(b, case['novel'], case['steps'], base, None)
        expect_eq(got[0], want[0], 'messages')
        d = model.diff(got[1], want[1])
        expect(d is None, f'files: {d}')
        done = [log for log in got[0] if log[2] and not log[2][-1].startswith('!')]
        ctx.nontrivial(bool(case['novel']['scenes'] and done))
        ctx.label('imported again', any(log[1] for log in done))
        ctx.label('copied', copied)
        ctx.label('imports with an alias', case.get('imports', 0) in (1, 2, 3, 4))
    finally:
        sys.modules.pop('vapp_package', None)
        sys.modules.pop('vapp_single', None)


def strategy():
    from hypothesis import strategies as st
    names = list(index())
    content = markup.content(langs=('de-DE',), raw=False).map(markup.render)
    step = st.tuples(st.sampled_from([s for s in conv.DOCS if s != '']), st.booleans()).map(list)

    @st.composite
    def make(draw):
        steps = []
        for suffix, back in draw(st.lists(step, min_size=1, max_size=3)):
            steps.append([suffix, False])
            if back:
                steps.append([suffix, True])
        return dict(modules=draw(st.lists(st.sampled_from(names), unique=True, max_size=8)), where=draw(st.integers(0, 8)), shebang=draw(gen.BOOL), docstring=draw(st.integers(0, 2)), imports=draw(st.integers(0, 5)), star=draw(gen.BOOL),
                    copy=draw(st.sampled_from([True, False, False, False])), novel=draw(gen.novel(orphans=True, max_ch=2, max_sc=3, max_w=2, min_ch=1, min_sc=1, content=content)), steps=steps)
    return make()


PARTS = [Part('applications', strategy, check, quick=160, thorough=3000)]
