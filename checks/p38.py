"""P38: translations survive extraction, update and compilation."""
import ast
import contextlib
import gettext
import io
import json
import os
import re

from vlib import core, faults, gen
from vlib.core import Part, expect, expect_eq

ID = 'P38'
LEVEL = 'exploration'
RULE = ('Catalogues, sources and dictionaries are generated from messages with quotes, backslashes, line breaks, tabs and non-ASCII characters, in the forms that Python programmers and PO editors write. The compiled catalogue is read '
        'by the gettext module of Python, template and translation files by an independent parser; extraction, update and compilation are also run one after the other. '
        'Non-trivial: at least two messages, one of them with a character to escape.')
ASSUMPTIONS = ['messages are string literals in the parentheses of _(), on one line, and do not contain such calls', 'the first plural form is translated if any is', 'files of an editor are UTF-8 and have a header, or an encoding that the header declares']


def tool(name):
    import importlib
    import sys
    src = os.path.join(core.REPO, 'src')
    if src not in sys.path:
        sys.path.insert(0, src)
    return importlib.import_module(name)


def quiet(fn, *args, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            return fn(*args, **kw)
        except SystemExit as ex:
            raise core.Violation(f'the tool terminates: {ex} {out.getvalue()[-300:]}')


CONTEXT = 'a "menu"'


def escape(s):
    return s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t')


def quoted(s, form):
    """A string of a translation file on one line, or as editors wrap it."""
    if form == 0:
        return f'"{escape(s)}"'
    parts = s.splitlines(True) if form == 1 else [s[i:i + 7] for i in range(0, len(s), 7)]
    return '\n'.join(['""'] + [f'"{escape(p)}"' for p in parts])


def header(charset='UTF-8'):
    return f'msgid ""\nmsgstr ""\n"Project-Id-Version: x\\n"\n"POT-Creation-Date: 2022-08-12\\n"\n"Language: de\\n"\n"MIME-Version: 1.0\\n"\n"Content-Type: text/plain; charset={charset}\\n"\n"Content-Transfer-Encoding: 8bit\\n"\n\n'


def entries(path):
    """Independent reader: list of (message, translation) without the header; checks that strings are well-formed."""
    r, field = [], None
    with open(path, encoding='utf-8', newline='') as f:
        lines = f.read().split('\n')
    for line in lines:
        line = line.strip()
        if line.startswith('#') or not line:
            continue
        if line.startswith('msgid '):
            r.append(['', ''])
            field, line = 0, line[6:]
        elif line.startswith('msgstr '):
            field, line = 1, line[7:]
        try:
            expect(line[0] == '"' and line[-1] == '"', 'a string is not enclosed in double quotes', line)
            value = ast.literal_eval(line)
        except (SyntaxError, ValueError):
            raise core.Violation(f'{os.path.basename(path)} has a malformed string: {line}')
        r[-1][field] += value
    return [tuple(e) for e in r if e[0]], [e[1] for e in r if not e[0]]


def po(pairs, rng, charset='UTF-8', header_first=True):
    out = '# comment\n#\n' + header(charset)
    for message, translation, form, note in pairs:
        if note == 'comment':
            out += '# a comment with "quotes"\n#: file.py:3\n#, python-format\n'
        if note == 'fuzzy':
            out += '#, fuzzy\n'
        if note == 'obsolete':
            out += '#~ msgid "old"\n#~ msgstr "alt"\n\n'
        if note == 'context':
            out += f'msgctxt {quoted(CONTEXT, form)}\n'
        out += f'msgid {quoted(message, form)}\nmsgstr {quoted(translation, form)}\n\n'
    return out


def po_plural(entries):
    out = ''
    for message, plural, forms, form in entries:
        out += f'msgid {quoted(message, form)}\nmsgid_plural {quoted(plural, form)}\n' + ''.join(f'msgstr[{i}] {quoted(t, form)}\n' for i, t in enumerate(forms)) + '\n'
    return out


def is_special(messages):
    return len(messages) > 1 and any(c in m for m in messages for c in '"\\\n\t\'')


# ------------------------------------------------------------- compilation

def compile_check(case, ctx):
    msgfmt = tool('msgfmt')
    for n, pairs in enumerate(case['files']):
        path = ctx.path(f'm{n}.po')
        charset = case['charset']
        plurals = [p for p in case['plurals'] if p[0] not in {q[0] for q in pairs}] if n == 0 else []
        text = po(pairs, None, charset) + po_plural(plurals)
        try:
            data = text.encode(charset)
        except UnicodeEncodeError:
            charset = 'UTF-8'
            data = (po(pairs, None) + po_plural(plurals)).encode()
        if case['crlf']:
            data = data.replace(b'\n', b'\r\n')
        with open(path, 'wb') as f:
            f.write(data)
        target = ctx.path('sub', f'out{n}.mo') if case['explicit'] else None
        if target:
            os.makedirs(os.path.dirname(target), exist_ok=True)
        quiet(msgfmt.make, path if case['extension'] else path[:-3], target)
        with open(target or ctx.path(f'm{n}.mo'), 'rb') as f:
            t = gettext.GNUTranslations(f)
        want = {f'{CONTEXT}\x04{m}' if note == 'context' else m: s for m, s, __, note in pairs if note != 'fuzzy' and s}
        for m, __, forms, __ in plurals:
            if any(forms):
                want.update({(m, i): x for i, x in enumerate(forms)})
            ctx.label('plural forms', any(forms))
            ctx.label('plural forms without translation', any(forms) and '' in forms)
        have = {k: v for k, v in t._catalog.items() if k}
        expect_eq(have, want, f'catalogue {n}')
        for m, *__ in pairs:
            expect_eq(t.gettext(m), want.get(m, m), f'catalogue {n}: translation of {m!r}')
        expect_eq(t.info().get('content-type'), f'text/plain; charset={charset}', 'header of the catalogue')
    messages = [p[0] for pairs in case['files'] for p in pairs]
    ctx.nontrivial(is_special(messages))
    ctx.label('several lines', any(p[2] for pairs in case['files'] for p in pairs))
    ctx.label('second catalogue', len(case['files']) > 1)
    ctx.label('other encoding', case['charset'] != 'UTF-8')


DAMAGES = ['msgid "x"\nmsgstr[0] "y"\n', 'msgid "x"\nmsgid_plural "xs"\nmsgstr "y"\n', 'msgid "x"\nmsgstr "y"\nmsgid_plural "xs"\nmsgstr[0] "y"\n']


def command_check(case, ctx):
    """The compiler called with several files, an unusable one among them or not."""
    import sys
    msgfmt = tool('msgfmt')
    args, bad = [], None
    for n, entries_ in enumerate(case['files']):
        path = ctx.path(f'm{n}.po')
        text = po(entries_, None)
        if n == case['bad']:
            bad = n
            if case['damage'] == len(DAMAGES):
                text = '"text before the first entry"\n' + text
            elif case['damage'] < len(DAMAGES):
                text += DAMAGES[case['damage']]
        if n != bad or case['damage'] <= len(DAMAGES):
            with open(path, 'w', encoding='utf-8') as f:
                f.write(text)
        if case['old']:
            with open(path[:-3] + '.mo', 'wb') as f:
                f.write(b'old')
        args.append(path if case['extension'] else path[:-3])
    out = io.StringIO()
    status = 0
    argv = sys.argv
    single = len(args) == 1 and case['output']
    target = ctx.path('other.mo') if single else None
    sys.argv = ['msgfmt.py', *([['-o', target], [f'--output-file={target}']][case['output'] - 1] if single else []), *args]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            msgfmt.main()
    except SystemExit as ex:
        status = ex.code
    finally:
        sys.argv = argv
    expect(bad is None or status, f'file {bad} is unusable, and no error is reported', out.getvalue())
    expect(bad is not None or not status, 'a usable file is refused', out.getvalue())
    for n, entries_ in enumerate(case['files']):
        mo = target if single else ctx.path(f'm{n}.mo')
        if n == bad:
            expect((open(mo, 'rb').read() == b'old') if case['old'] and not single else not os.path.exists(mo), f'file {n} is unusable, and there is a new catalogue')
            continue
        if bad is not None and n > bad:
            continue        # may be processed or not
        with open(mo, 'rb') as f:
            t = gettext.GNUTranslations(f)
        want = {f'{CONTEXT}\x04{m}' if note == 'context' else m: s for m, s, __, note in entries_ if note != 'fuzzy' and s}
        expect_eq({k: v for k, v in t._catalog.items() if k}, want, f'catalogue {n}')
    ctx.nontrivial(len(case['files']) > 1)
    ctx.label('unusable file', bad is not None)
    ctx.label('output file', single)
    ctx.label('several files', len(args) > 1)


def command_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(files=st.lists(pairs(), min_size=1, max_size=4), bad=st.sampled_from([None, None, 0, 1, 2]), damage=st.integers(0, len(DAMAGES) + 1), old=gen.BOOL, extension=gen.BOOL, output=st.integers(0, 2)))


def message():
    from hypothesis import strategies as st
    piece = st.one_of(st.sampled_from(['"', "'", '\\', '\\n', '\n', '\t', ' ', 'ä', '€', '😀', '{}', '{0}', '%s', '%', '(', ')', '_("x")', 'msgid "', '#', '$x', ':', '")', "')", '\\\\', '&amp;', '_', 'File', 'Can not write', 'word ']), gen.line(2))
    return st.lists(piece, min_size=1, max_size=6).map(''.join).filter(lambda s: s.strip() and not any(c in s for c in '\r\x00\x04\x1c\x1d\x1e\x0b\x0c'))


def pairs(forms=(0, 0, 1, 2), notes=(None, None, 'comment', 'fuzzy', 'obsolete', 'context')):
    from hypothesis import strategies as st
    return st.lists(st.tuples(message(), st.one_of(st.just(''), message(), message()), st.sampled_from(forms), st.sampled_from(notes)).map(list), min_size=1, max_size=6, unique_by=lambda p: p[0])


def compile_strategy():
    from hypothesis import strategies as st
    plural = st.tuples(message(), message(), st.lists(st.one_of(st.just(''), message()), min_size=1, max_size=4).map(lambda l: l if l[0] else [''] * len(l)), st.sampled_from([0, 0, 1, 2])).map(list)
    return st.fixed_dictionaries(dict(files=st.lists(pairs(), min_size=1, max_size=3), plurals=st.lists(plural, max_size=2, unique_by=lambda p: p[0]), charset=st.sampled_from(['UTF-8', 'UTF-8', 'ISO-8859-1', 'cp1252']), crlf=gen.BOOL, explicit=gen.BOOL, extension=gen.BOOL))


# --------------------------------------------------------------- extraction

def literal(s, quote):
    out = ''
    for c in s:
        if c in (quote, '\\'):
            out += '\\' + c
        elif c == '\n':
            out += '\\n'
        elif c == '\t':
            out += '\\t'
        else:
            out += c
    return quote + out + quote


FRAMES = ['x = _({})', 'f = f\'{{x}} {{1}}\' + _({}) + "text"', 'raise Error(f\'{{_({})}}: "x".\')', '    return _({}).format(1, (2))', "D = {{'a': _({}), 'b': None}}", 'DESCRIPTION = _({})      # comment', 'a(_({}), b("y"), c(\'z\'))',
          'if x:\n    print(_({}))']
DECOYS = ['# comment', 'x = "text"', "y = 'It is'", 'z = _(variable)', 'print("(text)")', "call('a', \"b\")", 'f = f"{x}"', 'def _(message):\n    return message', '', 's = \'\'\'text\ntext\'\'\'']


def source(items):
    out = '"""Docstring."""\n'
    for kind, a, b in items:
        if kind == 'message':
            message, (quote, frame) = a, b
            if frame == 2:      # within an f-string with single quotes
                quote = '"'
            out += FRAMES[frame].format(literal(message, quote)) + '\n'
        else:
            out += DECOYS[a] + '\n'
    return out


def messages_in(items):
    return [a for kind, a, __ in items if kind == 'message']


def extract_check(case, ctx):
    pg = tool('pgettext')
    base = ctx.path('src')
    want = set()
    for n, (where, items) in enumerate(case['files']):
        path = os.path.join(base, *where.split('/')[:-1], f'{n}{where.split("/")[-1]}')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        text = source(items)
        with open(path, 'w', encoding='utf-8') as f:
            f.write(text)
        if path.endswith('.py'):
            want |= set(messages_in(items))
    os.makedirs(os.path.join(base, 'dir.py'), exist_ok=True)
    before = snapshot(base)
    pot = ctx.path('messages.pot')
    p = pg.PotFile(pot, app='App', appVersion='1.0')
    quiet(p.scan_dir, base)
    quiet(p.write_pot)
    got, heads = entries(pot)
    expect_eq(sorted(m for m, __ in got), sorted(want), 'messages in the template')
    expect(all(not t for __, t in got), 'the template has translations', got)
    expect_eq(len(heads), 1, 'number of headers')
    expect('charset=UTF-8' in heads[0], 'header of the template', heads[0])
    expect_eq(snapshot(base), before, 'source files')
    ctx.nontrivial(is_special(list(want)))
    ctx.label('several files', len(case['files']) > 1)


def snapshot(base):
    return {os.path.join(b, f): open(os.path.join(b, f), 'rb').read() for b, __, fs in os.walk(base) for f in fs}


def items():
    from hypothesis import strategies as st
    m = st.tuples(st.just('message'), message().filter(lambda s: not re.search(r'_\([\'"]', s)), st.tuples(st.sampled_from('\'\'"'), st.integers(0, len(FRAMES) - 1))).map(list)
    d = st.tuples(st.just('decoy'), st.integers(0, len(DECOYS) - 1), st.none()).map(list)
    return st.lists(st.one_of(m, m, d), min_size=1, max_size=7)


def extract_strategy():
    from hypothesis import strategies as st
    where = st.sampled_from(['.py', 'a/.py', 'a/b/c.py', 'x.py', '.txt', 'a/y.pyc', 'b/z.md', 'b/.py'])
    return st.fixed_dictionaries(dict(files=st.lists(st.tuples(where, items()).map(list), min_size=1, max_size=4)))


# ------------------------------------------------------------------- update

def update_check(case, ctx):
    tr = tool('translations')
    old = os.getcwd()
    paths = tr.POT_PATH, tr.JSON_PATH
    os.makedirs(ctx.path('app', 'i18n'))
    os.makedirs(ctx.path('lib'))
    pot, po_file, json_file = ctx.path('app', 'i18n', 'messages.pot'), ctx.path('app', 'i18n', 'de.po'), ctx.path('lib', 'de.json')
    known = {m: t for m, t, __, __ in case['po'] if t}
    # messages of the template: some new, some with a translation, not all of those that were translated
    messages = [m for m in case['new'] if m not in dict(case['known'])] + [p[0] for i, p in enumerate(case['po']) if i not in case['removed']] + [m for m, __ in case['known'][:3]]
    messages = list(dict.fromkeys(messages))
    with open(pot, 'w', encoding='utf-8') as f:
        f.write('# x\n' + header() + ''.join(f'\nmsgid {quoted(m, case["potform"])}\nmsgstr ""\n' for m in messages))
    if case['existing']:
        with open(po_file, 'w', encoding='utf-8') as f:
            f.write(po(case['po'], None))
    else:
        known = {}
    dictionary = None
    if case['json']:
        # the dictionary holds the texts as they are written in translation files
        dictionary = {escape(m): escape(t) for m, t in case['known']}
        if case['dict']:
            with open(json_file, 'w', encoding='utf-8') as f:
                json.dump(dictionary, f)
        else:
            dictionary = {}
    try:
        tr.POT_PATH, tr.JSON_PATH = ctx.path('app', 'i18n'), ctx.path('lib')
        have = {**{m: t for m, t in (case['known'] if dictionary else []) if t}, **known}
        want = {m: have.get(m, '') for m in messages}
        for n in range(2):
            result = quiet(tr.main, 'de', app='App', appVersion='1', json=case['json'])
            got, heads = entries(po_file)
            expect_eq(len({m for m, __ in got}), len(got), f'update {n}: a message occurs twice')
            expect_eq(dict(got), want, f'update {n}: translations')
            expect_eq(len(heads), 1, f'update {n}: number of headers')
            expect_eq(bool(result), all(want.values()), f'update {n}: result')
            if case['json']:
                with open(json_file, encoding='utf-8') as f:
                    d = json.load(f)
                expect_eq(d, {escape(m): escape(t) for m, t in have.items()}, f'update {n}: dictionary')
            else:
                expect(not os.path.exists(json_file), 'a dictionary is written that was not asked for')
        msgfmt = tool('msgfmt')
        quiet(msgfmt.make, po_file, ctx.path('x.mo'))
        with open(ctx.path('x.mo'), 'rb') as f:
            t = gettext.GNUTranslations(f)
        expect_eq({k: v for k, v in t._catalog.items() if k}, {m: s for m, s in want.items() if s}, 'catalogue made from the updated file')
    finally:
        tr.POT_PATH, tr.JSON_PATH = paths
        os.chdir(old)
    ctx.nontrivial(is_special(messages) and any(want.values()))
    ctx.label('missing translations', not all(want.values()))
    ctx.label('from the dictionary', bool(dictionary) and any(m in dict(case['known']) for m in messages))
    ctx.label('several lines', any(p[2] for p in case['po']))


def update_strategy():
    from hypothesis import strategies as st
    known = st.lists(st.tuples(message(), message()).map(list), max_size=4, unique_by=lambda p: p[0])
    return st.fixed_dictionaries(dict(po=pairs(notes=(None, None, 'comment', 'obsolete')), new=st.lists(message(), max_size=4), known=known, removed=st.lists(st.integers(0, 4), max_size=2), potform=st.sampled_from([0, 0, 0, 1, 2]),
                                      existing=st.sampled_from([True, True, True, False]), json=gen.BOOL, dict=st.sampled_from([True, True, False])))


# ----------------------------------------------------------------- together

def chain(case, ctx):
    """From the source to the program that shows translated messages."""
    pg, tr, msgfmt = tool('pgettext'), tool('translations'), tool('msgfmt')
    base = ctx.path('src')
    os.makedirs(base)
    os.makedirs(ctx.path('i18n'))
    with open(os.path.join(base, 'a.py'), 'w', encoding='utf-8') as f:
        f.write(source(case['items']))
    messages = list(dict.fromkeys(messages_in(case['items'])))
    paths = tr.POT_PATH, tr.JSON_PATH
    try:
        tr.POT_PATH = tr.JSON_PATH = ctx.path('i18n')
        p = pg.PotFile(ctx.path('i18n', 'messages.pot'))
        quiet(p.scan_dir, base)
        quiet(p.write_pot)
        quiet(tr.main, 'de')
        got, __ = entries(ctx.path('i18n', 'de.po'))
        expect_eq(sorted(m for m, __ in got), sorted(messages), 'messages to translate')
        # the translator edits the file
        done = {m: t for m, t in zip(messages, case['translations'])}
        with open(ctx.path('i18n', 'de.po'), 'w', encoding='utf-8') as f:
            f.write(po([[m, done.get(m, ''), case['form'], None] for m in messages], None))
        result = quiet(tr.main, 'de')
        expect_eq(bool(result), all(done.get(m) for m in messages), 'result of the update')
        quiet(msgfmt.make, ctx.path('i18n', 'de.po'), ctx.path('pywriter.mo'))
        with open(ctx.path('pywriter.mo'), 'rb') as f:
            t = gettext.GNUTranslations(f)
        for m in messages:
            expect_eq(t.gettext(m), done.get(m) or m, f'translation of {m!r}')
    finally:
        tr.POT_PATH, tr.JSON_PATH = paths
    ctx.nontrivial(is_special(messages))


def chain_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(items=items(), translations=st.lists(message(), max_size=7), form=st.sampled_from([0, 1, 2])))


# ----------------------------------------------------------------- faults

def fault_check(case, ctx):
    """An error or the end of the process while translation files are updated."""
    tr = tool('translations')
    paths = tr.POT_PATH, tr.JSON_PATH
    os.makedirs(ctx.path('i18n'))
    os.makedirs(ctx.path('lib'))
    pot, po_file, json_file = ctx.path('i18n', 'messages.pot'), ctx.path('i18n', 'de.po'), ctx.path('lib', 'de.json')
    with open(pot, 'w', encoding='utf-8') as f:
        f.write('# x\n' + header() + ''.join(f'\nmsgid {quoted(p[0], 0)}\nmsgstr ""\n' for p in case['po']))
    with open(po_file, 'w', encoding='utf-8') as f:
        f.write(po(case['po'], None))
    with open(json_file, 'w', encoding='utf-8') as f:
        json.dump({escape(m): escape(t) for m, t in case['known']}, f)
    old = {p: open(p, 'rb').read() for p in (po_file, json_file)}
    known = {m: t for m, t, __, __ in case['po'] if t}
    have = {**{m: t for m, t in case['known'] if t}, **known}
    want = {p[0]: have.get(p[0], '') for p in case['po']}

    def complete(path):
        try:
            if path == po_file:
                return dict(entries(path)[0]) == want
            with open(path, encoding='utf-8') as f:
                return json.load(f) == {escape(m): escape(t) for m, t in have.items()}
        except Exception:
            return False

    def same(path, data):
        return os.path.isfile(path) and open(path, 'rb').read() == data

    result = 'raised'
    try:
        tr.POT_PATH, tr.JSON_PATH = ctx.path('i18n'), ctx.path('lib')

        def run():
            with faults.fault(case['fault'], kill=case['kill']) as h:
                r = quiet(tr.main, 'de', app='App', appVersion='1', json=True)
            return [r, h.fired]

        if case['kill']:
            status = faults.in_child(run)
            happened = status != 0
            result = status == 0
        else:
            happened = True
            try:
                result, fired = run()
                happened = bool(fired) or not result
            except Exception:
                pass
    finally:
        tr.POT_PATH, tr.JSON_PATH = paths
    what = f'fault {case["fault"]}{" (process ends)" if case["kill"] else ""}'
    if result is True and not case['kill']:
        expect(complete(po_file), f'{what}: the update claims success', open(po_file, 'rb').read()[-300:] if os.path.isfile(po_file) else None)
    for path in (po_file, json_file):
        name = os.path.basename(path)
        if case['kill']:
            expect(same(path, old[path]) or same(path + '.bak', old[path]) or complete(path), f'{what}: the translations in {name} are lost')
        elif not complete(path):
            # a read error of the dictionary is reported, and the update goes on without it
            expect(same(path, old[path]) or same(path + '.bak', old[path]) and os.path.isfile(path), f'{what}: {name} is neither old nor new', open(path, 'rb').read()[-300:] if os.path.isfile(path) else None)
            expect(os.path.isfile(path), f'{what}: {name} is missing')
            if case['fault'][0] == 'fsize':
                expect(same(path, old[path]), f'{what}: {name} is damaged')
    ctx.nontrivial(happened)
    ctx.label(f'{case["fault"][0]}{" kill" if case["kill"] else ""}', happened)


def fault_strategy():
    from hypothesis import strategies as st
    known = st.lists(st.tuples(message(), message()).map(list), min_size=1, max_size=4, unique_by=lambda p: p[0])
    fault = st.one_of(st.tuples(st.just('event'), st.integers(0, 9)), st.tuples(st.just('event'), st.integers(0, 9)), st.tuples(st.just('fsize'), st.integers(0, 1500))).map(list)
    return st.fixed_dictionaries(dict(po=pairs(forms=(0,), notes=(None,)).filter(len), known=known, fault=fault, kill=gen.BOOL))


def template_check(case, ctx):
    """The main function of the extraction, undisturbed or with a fault."""
    pg = tool('pgettext')
    base = ctx.path('src')
    os.mkdir(base)
    for n, items in enumerate(case['files']):
        with open(os.path.join(base, f'{n}.py'), 'w', encoding='utf-8') as f:
            f.write(source(items))
    if case['fault'] == 'encoding':
        # a source file that is not valid UTF-8
        with open(os.path.join(base, 'z.py'), 'wb') as f:
            f.write(b'_("gr\xfcn")\n')
    want = {m for items in case['files'] for m in messages_in(items)}
    pot = ctx.path('messages.pot')
    old = None
    if case['old']:
        old = b'# old\nmsgid ""\nmsgstr ""\n\nmsgid "Old message"\nmsgstr ""\n'
        with open(pot, 'wb') as f:
            f.write(old)
    saved = pg.POT_FILE
    fault = faults.fault(case['fault'] if isinstance(case['fault'], list) else None, kill=case['kill'])

    def run():
        with fault:
            quiet(pg.main, base)

    pg.POT_FILE = pot
    try:
        if case['kill']:
            happened = faults.in_child(run) != 0
        else:
            happened = case['fault'] == 'encoding'
            try:
                run()
            except Exception:
                happened = True
    finally:
        pg.POT_FILE = saved

    def read(path):
        return open(path, 'rb').read() if os.path.isfile(path) else None

    def new():
        try:
            return {m for m, __ in entries(pot)[0]} == want
        except Exception:
            return False

    happened = happened or bool(fault.fired)
    what = f'fault {case["fault"]}{" (process ends)" if case["kill"] else ""}'
    if case['kill'] and happened:
        expect(read(pot) == old or read(pot + '.bak') == old or new(), f'{what}: the template is lost')
    elif case['fault'] == 'encoding':
        # there may be an incomplete new template or none if there was none before
        expect(old is None or read(pot) == old, f'{what}: the template is not restored', read(pot))
    elif not new():
        # an error is reported on the console
        expect(happened or isinstance(case['fault'], list) and case['fault'][0] == 'fsize', 'the template is not written')
        happened = True
        expect(old is None or read(pot) == old, f'{what}: the template is neither old nor new', read(pot))
    else:
        expect(old is None or read(pot + '.bak') == old or read(pot) == old, f'{what}: the previous template is lost')
    ctx.nontrivial(happened)
    ctx.label(str(case['fault'][0] if isinstance(case['fault'], list) else case['fault']) + (' kill' if case['kill'] else ''), happened or case['fault'] is None)
    ctx.label('old template', case['old'])


def template_strategy():
    from hypothesis import strategies as st
    fault = st.one_of(st.none(), st.just('encoding'), st.tuples(st.just('event'), st.integers(0, 4)).map(list), st.tuples(st.just('event'), st.integers(0, 2)).map(list), st.tuples(st.just('fsize'), st.integers(0, 800)).map(list))
    return st.fixed_dictionaries(dict(files=st.lists(items(), min_size=1, max_size=3), fault=fault, kill=gen.BOOL, old=st.sampled_from([True, True, False])))


PARTS = [Part('compilation', compile_strategy, compile_check, quick=500, thorough=12000), Part('command', command_strategy, command_check, quick=300, thorough=6000), Part('extraction', extract_strategy, extract_check, quick=400, thorough=8000),
         Part('update', update_strategy, update_check, quick=500, thorough=10000), Part('chain', chain_strategy, chain, quick=300, thorough=6000), Part('faults', fault_strategy, fault_check, quick=300, thorough=6000),
         Part('template', template_strategy, template_check, quick=300, thorough=6000)]
