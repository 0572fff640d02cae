"""P44: opening the result opens exactly that file."""
import contextlib
import io
import os
import time

from vlib import child, conv, gen, yw7
from vlib.core import Part, expect, expect_eq, uncontained

ID = 'P44'
LEVEL = 'exploration'
RULE = ('Files with generated names (blanks, quotes, shell and wildcard characters, non-ASCII, relative and absolute paths, paths with ..) are opened in a child process in which the programs of the desktop are recorders: '
        'os.startfile, xdg-open, open, or none of them. Exactly one program must be started, once, with the path of the file as its only argument. In the second part a converter converts a project and opens its result. '
        'Non-trivial: a name with a character that is special to a shell.')
ASSUMPTIONS = ['programs are found by PATH', 'a backslash in the path of a project separates directories, as on Windows', 'the order of preference is: os.startfile, xdg-open, open']
SPECIAL = set('"\'$`\\!;&|<>()*?[]{}~# ')

RECORDER = '''#!/bin/sh
for a in "$0" "$@"; do printf '%s\\0' "$a"; done >> {log}
printf '\\1' >> {log}
'''


def desktop(ctx, programs, call):
    """Call a function where only the recorders can be started; return what was recorded and raised.

    The harness refuses to start programs elsewhere. Here PATH contains nothing but the recorders, and the generated names are harmless if a shell executes parts of them.
    """
    bin = ctx.path('bin')
    os.mkdir(bin)
    log = ctx.path('log')
    for p in programs:
        if p == 'startfile':
            continue
        path = os.path.join(bin, p)
        with open(path, 'w') as f:
            f.write(RECORDER.format(log=log))
        os.chmod(path, 0o700)

    def run():
        os.environ['PATH'] = bin
        os.environ['HOME'] = ctx.dir
        started = []
        if 'startfile' in programs:
            os.startfile = lambda p, *a: started.append(['startfile', [os.path.abspath(p)]])
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            try:
                r = call()
            except SystemExit as ex:
                r = ['exit', ex.code]
        return [started, r]

    value, error = child.run(run)
    expect(error is None, 'opening a file fails', error)
    started, result = value
    end = time.monotonic() + (3 if programs and not started else 0)
    while not (os.path.exists(log) and open(log, 'rb').read().endswith(b'\1')) and time.monotonic() < end:
        # a program may be started without waiting for its end
        time.sleep(.01)
    if os.path.exists(log):
        with open(log, 'rb') as f:
            for record in f.read().split(b'\1')[:-1]:
                program, *args = [os.fsdecode(x) for x in record.split(b'\0')[:-1]]
                started.append([os.path.basename(program), [os.path.abspath(os.path.join(ctx.path('work'), a)) for a in args]])
    return started, result


def check(case, ctx):
    os.makedirs(ctx.path('work', 'sub'))
    work = ctx.path('work')
    name = case['name']
    path = os.path.join(work, 'sub', name)
    with open(path, 'w') as f:
        f.write('x')
    given = dict(absolute=path, relative=os.path.join('sub', name), dots=os.path.join(work, 'sub', '..', 'sub', name))[case['how']]
    before = conv.snapshot(ctx.dir)

    def call():
        os.chdir(work)
        from pywriter.file.doc_open import open_document
        with uncontained():
            open_document(given)

    started, __ = desktop(ctx, case['programs'], call)
    want = next(([[p, [path]]] for p in ('startfile', 'xdg-open', 'open') if p in case['programs']), [])
    expect_eq(started, want, f'programs started for {given!r} where there is {case["programs"]}')
    extra = [k for k in conv.changed(before, conv.snapshot(ctx.dir)) if not k.startswith('bin') and k != 'log']
    expect(not extra, 'files appear', extra)
    ctx.nontrivial(bool(SPECIAL & set(name)))
    for p in case['programs']:
        ctx.label(p)
    ctx.label('no program', not case['programs'])
    ctx.label('shell characters', bool(set('"$`') & set(name)))


def name_strategy():
    from hypothesis import strategies as st
    piece = st.sampled_from(['a', 'b', 'Roman', ' ', '  ', '"', "'", '$', '$HOME', '$$', '`', '`echo b`', '$(echo c)', '\\', '\\n', '!', ';', '; echo d', '&', '|', '(', ')', '*', '?', '[a]', '{a,b}', '~', '#', '%s', '%', '%20', '%41', 'ü', '章', '😀', '.', '-'])
    return st.lists(piece, min_size=1, max_size=5).map(lambda x: 'p' + ''.join(x))


def strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(name=name_strategy().map(lambda n: n + '.odt'), how=st.sampled_from(['absolute', 'absolute', 'relative', 'dots']),
                                      programs=st.sampled_from([['xdg-open'], ['xdg-open'], ['xdg-open', 'open'], ['open'], [], ['startfile'], ['startfile', 'xdg-open', 'open']])))


def result(case, ctx):
    os.mkdir(ctx.path('work'))
    path = ctx.path('work', case['name'] + '.yw7')
    yw7.write(path, case['novel'])
    suffix = case['suffix']
    doc = ctx.path('work', case['name'] + suffix + conv.DOCS[suffix])

    def call():
        c, ui = conv.convert(path, suffix)
        if case['back']:
            c, ui = conv.convert(doc)
        with uncontained():
            c._open_newFile()
        return 'returned'

    from pywriter.converter.yw7_converter import Yw7Converter
    if not hasattr(Yw7Converter, '_open_newFile'):
        return
    started, end = desktop(ctx, ['xdg-open'], call)
    expect_eq(started, [['xdg-open', [path if case['back'] else doc]]], 'programs started')
    expect_eq(end, ['exit', 0], 'after opening the result')
    ctx.nontrivial(bool(SPECIAL & set(case['name'])))
    ctx.label('imported', case['back'])


def result_strategy():
    from hypothesis import strategies as st

    @st.composite
    def make(draw):
        suffix = draw(st.sampled_from(sorted(conv.DOCS)))
        return dict(name=draw(name_strategy()).replace('\\', ''), suffix=suffix, back=suffix in conv.IMPORTABLE and draw(gen.BOOL), novel=draw(gen.novel(max_ch=2, max_sc=2, max_w=1, min_ch=1, min_sc=1, content=gen.line(3), field=gen.line(2))))
    return make()


PARTS = [Part('open', strategy, check, quick=500, thorough=8000), Part('result', result_strategy, result, quick=150, thorough=2500)]
