"""P09: a failed document export restores the previous document."""
import gc
import os
import resource
import tempfile

from vlib import conv, core, faults, gen, model, yw7
from vlib.core import Part, expect, expect_eq
from vlib.docs import parts, same

ID = 'P09'
LEVEL = 'fault_enumeration'
RULE = ('A generated project is exported as one of the 17 document types over an existing document (an older export or other bytes) while an error (input/output, permission, or memory) is injected at the n-th file '
        'operation of the process (reads included), or a file size limit at a fraction of the size of the parts or of the archive (medium full) is active, through the converter or with a document object '
        'that is used again afterwards. The directory, the working directory, and the temporary directory are compared with snapshots. Non-trivial: a fault took effect.')
ASSUMPTIONS = ['one fault per export', 'the temporary directory is looked at after the document object was released']


class LateLimit:
    """The medium is full as soon as the archive itself is written."""

    def __init__(self, name, size):
        self.name = name
        self.size = size
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        self.fired = None

    def __call__(self, event, args):
        if event == 'open-w' and isinstance(args[0], str) and os.path.basename(args[0]) == self.name and self.fired is None:
            self.fired = 'late limit'
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.size, self.old[1]))

    def __enter__(self):
        core.fault_hook[0] = self
        return self

    def __exit__(self, *a):
        core.fault_hook[0] = None
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


def sweep(case, ctx):
    """Every file operation of the export fails once."""
    k = 0
    while run(case, ctx, ['event', k, case['exc']], str(k)):
        k += 1
        expect(k < 500, 'the export does not come to an end')
    ctx.label(f'sweep of {k // 10 * 10}+ operations')


def check(case, ctx):
    run(case, ctx, case['fault'], '')


def run(case, ctx, fault, n):
    suffix = case['suffix']
    d = ctx.path('d' + n)
    os.mkdir(d)
    path = os.path.join(d, 'p.yw7')
    name = 'p' + suffix + conv.DOCS[suffix]
    doc = os.path.join(d, name)
    if case['previous'] == 'export':
        yw7.write(path, dict(case['novel'], title='The old one'))
        conv.convert(path, suffix)
        with open(doc, 'rb') as f:
            previous = f.read()
        os.remove(doc)
    yw7.write(path, case['novel'])
    c, ui = conv.convert(path, suffix)
    expect(not conv.failed(ui), 'unfaulted export failed', ui.messages)
    want = parts(doc)
    size = os.path.getsize(doc)
    os.remove(doc)
    if case['previous'] == 'export':
        expect(previous, 'no previous document')
    elif case['previous'] == 'none':
        previous = None
    else:
        previous = case['previous'].encode()
    if previous is not None:
        with open(doc, 'wb') as f:
            f.write(previous)
    if case['bak']:
        with open(doc + '.bak', 'w') as f:
            f.write('older')
    kind, v = fault[:2]
    if kind == 'fsize':
        fault = faults.fault(['fsize', int(max(len(x) for x in want.values()) * v / 100)])
    elif kind == 'late':
        fault = LateLimit(name, int(size * v / 100))
    else:
        fault = faults.fault(fault)
    del c, ui
    gc.collect()
    tmp0 = sorted(os.listdir(tempfile.tempdir))
    cwd = ctx.path('cwd' + n)
    os.mkdir(cwd)
    os.chdir(cwd)
    before = conv.snapshot(d)
    error = None
    what = f'{suffix or "export"}, fault {kind} {v}'
    target = None
    if case['direct']:
        __, novel = model.load(path)
        if case.get('relative'):
            os.chdir(d)
        with fault:
            try:
                target = conv.export_classes()[suffix](name if case.get('relative') else doc)
                target.novel = novel
                target.write()
                ok = True
            except Exception as ex:
                ok = False
                error = repr(ex)
    else:
        if case.get('relative'):
            os.chdir(d)
        with fault:
            try:
                c, ui = conv.convert('p.yw7' if case.get('relative') else path, suffix)
                ok = conv.failed(ui) is False
                error = ui.messages[-1:]
            except Exception as ex:
                expect(False, f'{what}: exception instead of a message', repr(ex))
    took = (getattr(fault, 'fired', None) and kind == 'event') or (kind != 'event' and not ok)
    ctx.nontrivial(took)
    ctx.label(f'{kind} took effect', took)
    ctx.label(f'fault at {fault.fired}', kind == 'event' and took)
    ctx.label('fault, but success', took and ok)
    expect(ok or took, f'{what}: failed without a fault', error)
    ctx.label('relative path', case.get('relative') and took)
    expect_eq(os.getcwd(), d if case.get('relative') else cwd, f'{what}: the working directory of the process changed')
    after = conv.snapshot(d)
    diff = [x for x in conv.changed(before, after) if x not in (name, name + '.bak')]
    expect(not diff, f'{what}: other files changed', diff)
    if ok:
        same(parts(doc), want, f'{what}: reported as written, but the document is not complete')
        if previous is not None:
            expect_eq(after.get(name + '.bak'), previous, f'{what}: the backup does not hold the previous document')
    else:
        if previous is not None:
            expect(after.get(name) == previous, f'{what}: the previous document is not back in place (backup: {after.get(name + ".bak") == previous})', sorted(after), error)
        if not case['direct']:
            expect(c.newFile is None, f'{what}: failed, but a new file is announced', c.newFile)
    if target is not None and not ok:
        # the same object can be used again
        try:
            target.write()
        except Exception as ex:
            expect(False, f'{what}: a later export with the same object fails', repr(ex))
        same(parts(doc), want, f'{what}: a later export with the same object gives another document')
        expect_eq(os.path.abspath(target.filePath), doc, f'{what}: the object refers to another file')
    c = ui = target = None
    gc.collect()
    os.chdir(ctx.dir)
    expect_eq(sorted(os.listdir(tempfile.tempdir)), tmp0, f'{what}: temporary files are left behind')
    return took


def strategy(all_operations):
    def make():
        from hypothesis import strategies as st
        exc = st.sampled_from(['error', 'error', 'memory', 'denied'])
        fault = st.one_of(st.tuples(st.just('event'), st.sampled_from(range(36)), exc).map(list), st.tuples(st.just('fsize'), st.sampled_from(range(0, 104, 3))).map(list),
                          st.tuples(st.just('late'), st.sampled_from(range(0, 104, 3))).map(list))
        d = dict(novel=gen.novel(orphans=True, max_ch=2, max_sc=3, max_w=2, field=gen.text(4)), suffix=st.sampled_from(sorted(conv.DOCS)),
                 previous=st.sampled_from(['export', 'export', 'other bytes', '', 'none']), bak=gen.BOOL, direct=gen.BOOL, relative=st.sampled_from([False, False, True]))
        if not all_operations:
            d['fault'] = fault
        else:
            d['exc'] = exc
        return st.fixed_dictionaries(d)
    return make


PARTS = [Part('faults', strategy(False), check, quick=240, thorough=8000),
         Part('sweeps', strategy(True), sweep, quick=24, thorough=800)]
