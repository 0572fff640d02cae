"""P37: XML data files carry all characters, locations and items."""
import os
import xml.etree.ElementTree as ET

from vlib import conv, core, faults, gen, model, yw7
from vlib.core import Part, Violation, expect, expect_eq

ID = 'P37'
LEVEL = 'exploration'
RULE = ('Random story worlds are exported as data files, written directly or by the converter with a suffix as the sample application does, over existing data files or not; each file is parsed by an independent decoder and compared '
        'with the project, which must not change. In a second part, an input/output error occurs at a generated point, or a directory is in the way. '
        'Non-trivial: at least two elements, one of them with an XML-special character.')
ASSUMPTIONS = ['as P02']
FILES = dict(characters='Characters', locations='Locations', items='Items')


def converter(suffix):
    from pywriter.converter.yw7_exporter import Yw7Exporter
    from pywriter.yw.data_files import DataFiles
    cls = type('Data', (DataFiles,), dict(SUFFIX=suffix))
    return type('Application', (Yw7Exporter,), dict(EXPORT_TARGET_CLASSES=[*Yw7Exporter.EXPORT_TARGET_CLASSES, cls]))(), cls


def check(case, ctx):
    spec = case['novel']
    suffix = case['suffix']
    path = ctx.path(case['name'] + '.yw7')
    model.save(path, model.to_novel(spec))
    c, cls = converter(suffix)
    base = ctx.path(case['name'] + suffix)
    if case['old']:
        for name in FILES.values():
            with open(f'{base}_{name}.xml', 'w') as f:
                f.write('<OLD>' + 'x' * 5000 + '</OLD>')
    before = conv.snapshot(ctx.dir)
    novel = model.load(path)[1]
    if case['direct']:
        f = cls(base + '.xml')
        f.novel = novel
        was = model.from_novel(novel)
        f.write()
        now = model.from_novel(novel)
        for s in (was, now):
            for k in ('languages', 'languageCode', 'countryCode'):
                s.pop(k)
        d = model.diff(now, was)
        expect(d is None, f'writing data files changes the project in memory: {d}')
    else:
        __, ui = conv.convert(path, suffix, converter=c)
        expect(conv.failed(ui) is False, 'the export of data files fails', ui.messages)
    after = conv.snapshot(ctx.dir)
    names = {f'{case["name"]}{suffix}_{n}.xml' for n in FILES.values()}
    expect_eq({k for k in after if after[k] != before.get(k)} - {k + '.bak' for k in names}, names, 'files written')
    want = model.norm_spec(spec)
    for key, name in FILES.items():
        with open(f'{base}_{name}.xml', 'rb') as f:
            data = f.read()
        expect(data.startswith(b'<?xml version="1.0" encoding="utf-8"?>'), f'{name}: no XML declaration', data[:60])
        try:
            root = ET.fromstring(data)
            bad = yw7.cdata_report(data)
        except Exception as ex:
            raise Violation(f'{name} cannot be parsed: {ex!r}\n{data.decode("utf-8", "replace")[:1000]}')
        expect_eq(root.tag, name.upper(), 'name of the root element')
        expect(not bad, f'{name}: text outside CDATA in', bad)
        srt = 'srt' + name
        got = yw7.decode_world(root, key == 'characters')
        expect_eq(list(got), spec[srt], f'{name}: elements')
        full = {**yw_blank(), key: got, srt: list(got)}
        d = model.diff(model.norm_spec(full)[key], want[key])
        expect(d is None, f'{name}: {d}')
        ctx.label(key, spec[srt])
    n = sum(len(spec['srt' + x]) for x in FILES.values())
    ctx.nontrivial(n > 1 and any(ch in str([spec[k] for k in FILES]) for ch in '&<>'))
    ctx.label('nothing to write', n == 0)


def yw_blank():
    return gen.blank_novel({})


def strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(novel=gen.novel(orphans=True, max_ch=2, max_sc=2, max_w=5), suffix=st.sampled_from(['', '_data']), name=st.sampled_from(['p', 'My.Novel', 'R&D äö', 'x_data', 'p.xml', 'x.xml.old', 'p.yw7.xml copy']), old=gen.BOOL, direct=gen.BOOL)).map(fit)


def fit(case):
    """The converter needs a suffix that no other export has."""
    if not case['direct']:
        case['suffix'] = '_data'
    return case


def fault(case, ctx):
    spec = case['novel']
    path = ctx.path('p.yw7')
    model.save(path, model.to_novel(spec))
    c, cls = converter('_data')
    before = conv.snapshot(ctx.dir)
    if case['kind'] == 'directory':
        os.mkdir(ctx.path(f'p_data_{list(FILES.values())[case["index"] % 3]}.xml'))
        __, ui = conv.convert(path, '_data', converter=c)
        happened = True
        expect(conv.failed(ui), 'a directory is in the way of a data file, and the export claims success', ui.messages)
    elif case['kind'] == 'denied':
        # one of the files is write protected, or locked for a moment (the user root may write such files: the refusal is injected)
        name = f'p_data_{list(FILES.values())[case["index"] % 3]}.xml'
        with open(ctx.path(name), 'w') as f:
            f.write('<OLD/>')

        refused = []

        def refuse(event, args):
            if event in faults.MUTATING and str(args[0]).endswith(name) and not (refused and case['index'] > 2):
                refused.append(event)
                raise PermissionError(13, 'injected: permission denied', str(args[0]))
        core.fault_hook[0] = refuse
        try:
            __, ui = conv.convert(path, '_data', converter=c)
        finally:
            core.fault_hook[0] = None
        happened = True
        expect(conv.failed(ui), 'a data file is write protected, and the export claims success', ui.messages)
        with open(ctx.path(name)) as f:
            expect('<OLD' in f.read(), 'the write-protected file changed')
    else:
        novel = model.load(path)[1]
        f = cls(ctx.path('p_data.xml'))
        f.novel = novel
        with faults.fault([case['kind'], case['index']]) as h:
            try:
                f.write()
                reported = False
            except Exception:
                reported = True
        happened = bool(h.fired) or reported
        if not reported:
            for key, name in FILES.items():
                try:
                    root = ET.parse(ctx.path(f'p_data_{name}.xml')).getroot()
                except Exception as ex:
                    raise Violation(f'an error occurs ({h.fired}), none is reported, and {name} cannot be parsed: {ex!r}')
                expect_eq(list(yw7.decode_world(root, key == 'characters')), spec['srt' + name], f'an error occurs ({h.fired}), none is reported: {name}')
    after = conv.snapshot(ctx.dir)
    expect_eq(after['p.yw7'], before['p.yw7'], 'the project file')
    ctx.nontrivial(happened)
    ctx.label(case['kind'], happened)


def fault_strategy():
    from hypothesis import strategies as st
    kind = st.one_of(st.tuples(st.just('directory'), st.integers(0, 2)), st.tuples(st.just('denied'), st.integers(0, 5)), st.tuples(st.just('event'), st.integers(0, 14)), st.tuples(st.just('fsize'), st.integers(0, 3000)))
    return st.builds(lambda n, k: dict(novel=n, kind=k[0], index=k[1]), gen.novel(orphans=True, max_ch=1, max_sc=1, max_w=4), kind)


PARTS = [Part('export', strategy, check, quick=500, thorough=10000), Part('faults', fault_strategy, fault, quick=200, thorough=3000)]
