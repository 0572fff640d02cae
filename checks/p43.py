"""P43: translated messages do not change what conversions do."""
import ast
import contextlib
import io
import locale
import os
import shutil
import struct
import sys

from checks import p39
from vlib import child, conv, core, gen, lo, markup, model, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P43'
LEVEL = 'exploration'
RULE = ('A history of exports, imports, new projects, changes of the project and failing conversions is carried out in a fresh process without and with a catalogue of translations in the place where applications look for it: '
        'generated catalogues with non-ASCII words for all or some messages of the sources (oracle: after replacing each translation by its message, all messages and all files are the same), and the shipped German catalogue '
        '(oracle: the same files are written, the same conversions succeed). Non-trivial: a generated catalogue, and at least one import that succeeds.')
ASSUMPTIONS = ['translations keep the placeholders and contain no markup characters', 'the locale is what locale.getlocale() says', 'time stamps are not compared']
_messages = []
WORDS = ['Größe', "l'été", '章节', 'Überschrift Ä', 'שלום', 'Emoji 😀', 'x', 'Описание', 'a; b', '100 %', '#1', '(!)', 'a, b: c/d', 'İi']


def messages():
    """All messages of the package that are marked for translation."""
    if not _messages:
        for where, dirs, files in sorted(os.walk(os.path.join(core.REPO, 'src', 'pywriter'))):
            dirs.sort()
            for name in sorted(files):
                if name.endswith('.py') and os.sep + 'test' not in where:
                    with open(os.path.join(where, name), encoding='utf-8') as f:
                        tree = ast.parse(f.read())
                    for n in ast.walk(tree):
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == '_' and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value not in _messages:
                            _messages.append(n.args[0].value)
    return _messages


def chunks(message):
    """The text between placeholders, and the placeholders."""
    import re
    return re.split(r'(\{\d*\})', message)


def catalogue(case):
    """message -> translation; the pairs of pieces, the longest first."""
    full, pieces = {}, {}
    for i, m in enumerate(messages()):
        if (i * 7919 + case['seed']) % 10 >= case['part']:
            continue
        r = ''
        for k, c in enumerate(chunks(m)):
            if k % 2 or not c.strip():
                r += c
                continue
            t = f'{WORDS[(i + k + case["seed"]) % len(WORDS)]}⟦{i}.{k}⟧'
            if c == 'New Scene':
                t = f'⟦{i}.{k}⟧'.rjust(len(c), 'ä')        # titles of split scenes are cut off after a number of characters
            pieces[t] = pieces[t.replace("'", '&apos;')] = c
            r += t
        full[m] = r
    return full, pieces


def write_mo(path, pairs):
    pairs = sorted({'': 'Content-Type: text/plain; charset=UTF-8\nLanguage: de\n', **pairs}.items(), key=lambda p: p[0].encode('utf-8'))
    n = len(pairs)
    ids = texts = b''
    a, b = [], []
    for k, v in pairs:
        k, v = k.encode('utf-8'), v.encode('utf-8')
        a.append((len(k), len(ids)))
        b.append((len(v), len(texts)))
        ids += k + b'\0'
        texts += v + b'\0'
    start = 28 + 16 * n
    out = struct.pack('<7I', 0x950412de, 0, n, 28, 28 + 8 * n, 0, 0)
    out += b''.join(struct.pack('<2I', l, start + o) for l, o in a) + b''.join(struct.pack('<2I', l, start + len(ids) + o) for l, o in b) + ids + texts
    os.makedirs(os.path.dirname(path))
    with open(path, 'wb') as f:
        f.write(out)


def history(case, base, app):
    """In a process of its own: messages and files after each step."""
    for m in [m for m in sys.modules if m.split('.')[0] == 'pywriter']:
        del sys.modules[m]
    code = case['locale']
    locale.getlocale = locale.getdefaultlocale = lambda *a, **kw: (code, 'UTF-8')
    sys.argv = [os.path.join(app, 'app.py')]
    project = os.path.join(base, 'p.yw7')
    yw7.write(project, case['novels'][0])
    log = []
    from pywriter.ui.ui_cmd import UiCmd
    for kind, value, answer in case['steps']:
        suffix = None
        path = project
        lock = os.path.join(base, 'p.yw7.lock')
        if kind == 'edit':
            yw7.write(project, case['novels'][value])
            continue
        if kind == 'export':
            suffix = value
        elif kind == 'locked':
            open(lock, 'w').close()
            suffix = value
        elif kind == 'import':
            path = os.path.join(base, 'p' + value + conv.DOCS[value])
        elif kind == 'damaged':
            path = os.path.join(base, 'd.yw7')
            with open(path, 'w') as f:
                f.write('<YWRITER7>' + value)
            suffix = ''
        elif kind == 'new':
            path = os.path.join(base, value + '.odt')
            if not os.path.exists(path):
                d = lo.Document(7, ('en', 'US'), value, 'me', None, True)
                if value == 'outline':
                    d.heading(3, 'Scene')
                d.heading(2, 'One')
                d.body.append('<text:p text:style-name="Text_20_body">first</text:p><text:p text:style-name="Heading_20_4">* * *</text:p><text:p text:style-name="Text_20_body">second</text:p>')
                d.save(path)
        else:
            path = os.path.join(base, value)
        c, ui = conv.convert(path, suffix, answer=answer)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            UiCmd('x').set_info_how(ui.messages[-1])
        if os.path.exists(lock):
            os.unlink(lock)
        files = {}
        for k, v in p39.contents(base).items():
            files[k] = {n: x[0].decode('utf-8', 'replace') for n, x in v.items()} if isinstance(v, dict) else v.decode('utf-8', 'replace')
        log.append(dict(messages=ui.messages, questions=ui.questions, warnings=ui.warnings, what=ui.infoWhatText, said=out.getvalue(), files=files))
    return log


def untranslate(x, pairs):
    if isinstance(x, dict):
        return {k: untranslate(v, pairs) for k, v in x.items()}
    if isinstance(x, list):
        return [untranslate(v, pairs) for v in x]
    for t, m in pairs:
        if t in x:
            x = x.replace(t, m)
    return x


def check(case, ctx):
    app = ctx.path('app')
    base = ctx.path('work')
    full, pieces = catalogue(case)
    results = []
    for translated in (False, True):
        os.mkdir(base)
        if translated:
            mo = os.path.join(app, 'locale', case['locale'][:2], 'LC_MESSAGES', 'pywriter.mo')
            if case['shipped']:
                os.makedirs(os.path.dirname(mo))
                shutil.copy(os.path.join(core.REPO, 'src', 'sample', 'locale', 'de', 'LC_MESSAGES', 'pywriter.mo'), mo)
            else:
                write_mo(mo, full)
        value, error = child.run(lambda: history(case, base, app))
        expect(error is None, f'the conversions {"with" if translated else "without"} translations fail', error)
        results.append(value)
        shutil.rmtree(base)
    want, got = results
    pairs = sorted(pieces.items(), key=lambda p: (-len(p[0]), p[0]))
    imports = 0
    n = 0
    for kind, value, answer in case['steps']:
        if kind == 'edit':
            continue
        what = f'{kind} {value}'
        w, g = want[n], got[n]
        n += 1
        failed = w['messages'][-1].startswith('!')
        expect_eq(g['messages'][-1].startswith('!'), failed, f'{what}: failure with translations ({g["messages"]}, {w["messages"]})')
        expect_eq(sorted(g['files']), sorted(w['files']), f'{what}: files')
        expect_eq((len(g['questions']), len(g['warnings'])), (len(w['questions']), len(w['warnings'])), f'{what}: questions and warnings')
        if not case['shipped']:
            back = untranslate(g, pairs)
            for k in ('messages', 'questions', 'warnings', 'what', 'said', 'files'):
                d = model.diff(back[k], w[k])
                expect(d is None, f'{what}: {k} with translations: {d}')
            if case['part'] == 10:
                # messages of the library are shown in the language of the user
                for k, texts in dict(messages=[] if failed else g['messages'][-1:], questions=g['questions'], warnings=g['warnings'], what=[g['what']] if not failed else []).items():
                    expect(all('⟦' in t for t in texts), f'{what}: {k} not translated', texts)
            ctx.label('translated text in a message', '⟦' in ''.join(g['messages']))
            ctx.label('translated text in a file', '⟦' in str(g['files']))
        elif not failed:
            expect(g['messages'][-1] != w['messages'][-1], f'{what}: not translated', g['messages'])
        ctx.label(kind)
        ctx.label('failure', failed)
        ctx.label('warning', w['warnings'])
        imports += kind in ('import', 'new') and not failed
    ctx.label('shipped', case['shipped'])
    ctx.nontrivial(not case['shipped'] and imports > 0)


def strategy():
    from hypothesis import strategies as st
    content = st.one_of(markup.content(langs=('de-DE',), raw=False).map(markup.render), st.sampled_from(['a\n### \nb', '## \nx', 'a\n# Part\nb\n### Scene|desc\nc', '# \n## \n### \ny']))
    importable = conv.IMPORTABLE

    @st.composite
    def make(draw):
        steps = []
        for i in range(draw(st.integers(2, 5))):
            kind = draw(st.sampled_from(['export', 'pair', 'pair', 'pair', 'new', 'odd', 'edit', 'locked', 'damaged']))
            answer = draw(st.sampled_from([True, True, True, False]))
            if kind == 'export':
                steps.append(['export', draw(st.sampled_from(sorted(conv.DOCS))), answer])
            elif kind == 'pair':
                a = draw(st.sampled_from(importable))
                steps.append(['export', a, True])
                if draw(gen.BOOL):
                    steps.append(['edit', draw(st.integers(0, 1)), True])
                steps.append(['import', a, answer])
            elif kind == 'new':
                steps.append(['new', draw(st.sampled_from(['wip', 'outline'])), answer])
            elif kind == 'odd':
                steps.append(['odd', draw(st.sampled_from(['missing.yw7', 'missing_proof.odt', 'p.txt', 'p_xref.odt', 'other_scenes.odt'])), answer])
            elif kind == 'damaged':
                steps.append(['damaged', draw(st.sampled_from(['', '<PROJECT>', '</YWRITER7>'])), answer])
            elif kind == 'locked':
                steps.append(['locked', draw(st.sampled_from(sorted(conv.DOCS))), answer])
            else:
                steps.append(['edit', draw(st.integers(0, 1)), True])
        shipped = draw(st.integers(0, 9)) == 0
        novels = [draw(gen.novel(max_ch=2, max_sc=3, max_w=2, min_ch=1, min_sc=1, content=content)) for i in range(2)]
        return dict(steps=steps, novels=novels, shipped=shipped, locale='de_DE' if shipped else draw(st.sampled_from(['de_DE', 'en_US', 'fr_CH', 'zh_CN'])), seed=draw(st.integers(0, 10 ** 4)), part=draw(st.sampled_from([10, 10, 10, 5, 1])))
    return make()


PARTS = [Part('translations', strategy, check, quick=260, thorough=5000)]
