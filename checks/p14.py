"""P14: exported documents are valid and carry the project's metadata."""
import os

from vlib import conv, gen, model, odf, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P14'
LEVEL = 'exploration'
RULE = ('Generated projects whose every text may contain XML specials, entity and template look-alikes and unbalanced or interleaved yWriter markup, in generated directories under generated names, are exported to generated '
        'document types. Each archive is read by an independent reader: media type entry, compression, manifest, well-formedness of all parts, element structure, defined styles, title, author and summary. '
        'Non-trivial: the project has a scene with markup or XML specials.')
ASSUMPTIONS = ['the structure of the contents is checked against the part of the OpenDocument schema that the documents use (elements, nesting, required attributes, typed cells); styles are checked for being defined and well-formed']
MARKUP = ('[i]', '[/i]', '[b]', '[/b]', '[lang=de-DE]', '[/lang=de-DE]', '/*', '*/', '/*@fn ', '/*@en ', '/*@fn* ', '[c]', '<HTM ', ' /HTM>', '\n> ', '[lang=xx]', '[/lang=xx]', '[u]', '[h2]',
          '[lang=', '[/lang]', '<RTFBRK>', '>\n', '\n\n', '[ScID:1]', '<TEX>', '<HTML>', '~', '/*~', '~*/', '[lang="&<]', '[lang=$x]')


def check(case, ctx):
    d = ctx.path(case['dir'])
    os.makedirs(d, exist_ok=True)
    name = case['name']
    path = os.path.join(d, name + '.yw7')
    spec = case['novel']
    yw7.write(path, spec)
    classes = conv.export_classes()
    for suffix in case['docs']:
        doc = os.path.join(d, name + suffix + conv.DOCS[suffix])
        if case['converter']:
            __, ui = conv.convert(path, suffix)
            expect(conv.failed(ui) is False, f'export {suffix} failed', ui.messages)
        else:
            __, novel = model.load(path)
            conv.export(novel, classes[suffix], doc)
        if doc.endswith('.odt'):
            document = odf.Doc(doc)
            roots = document.roots
            root = roots['content.xml']
            ids = [e.get(odf.q('text:id')) for e in root.iter(odf.q('text:note'))]
            expect_eq(len(ids), len(set(ids)), f'{suffix}: note identifiers are not unique')
            for tag in ('text:p', 'text:h'):
                for e in root.iter(odf.q(tag)):
                    for c in e.iter():
                        expect(c is e or c.tag not in (odf.q('text:p'), odf.q('text:h')) or inside_note(e, c), f'{suffix}: paragraph inside a paragraph')
        else:
            rows, roots = odf.sheet(doc)
        # the apostrophe before each scene of the final manuscript is a known finding of its own
        odf.validate(roots['content.xml'], stray="'" if suffix == '' and not case.get('strict') else '')
        meta = odf.metadata(roots)
        expect_eq(meta['title'], spec['title'] or '', f'{suffix}: title in the metadata')
        expect_eq(meta['author'], spec['authorName'] or '', f'{suffix}: author in the metadata')
        expect_eq(meta['summary'], spec['desc'] or '', f'{suffix}: summary in the metadata')
        ctx.label(suffix or 'export')
    text = ''.join(s['sceneContent'] or '' for s in spec['scenes'].values())
    ctx.nontrivial('[' in text or '<' in text or '&' in text)
    ctx.label('comment marks', '/*' in text)
    ctx.label('special directory or file name', any(c in case['dir'] + name for c in '&<>"\'%#$'))


def inside_note(p, c):
    """c lies in a note or an annotation of p."""
    for tag in ('text:note', 'office:annotation'):
        for n in p.iter(odf.q(tag)):
            if any(x is c for x in n.iter()):
                return True
    return False


def strategy():
    from hypothesis import strategies as st
    text = gen.text(10, extra=MARKUP)
    names = st.lists(st.sampled_from(['a', 'Novel', ' ', '&', "'", '"', '%', '#', '$', '{', '<', '>', 'ü', '日', '.', '$ID', '%20', '_', '(', '[']), min_size=1, max_size=4).map(''.join).map(
        lambda s: 'p' + s.strip(' .'))
    return st.fixed_dictionaries(dict(
        novel=gen.novel(orphans=True, max_ch=3, max_sc=4, max_w=2, min_ch=1, min_sc=1, content=text, field=st.one_of(gen.text(), text), ttl=gen.line(5, extra=MARKUP)),
        dir=names, name=names, converter=gen.BOOL, docs=st.lists(st.sampled_from(sorted(conv.DOCS)), min_size=1, max_size=4, unique=True)))


PARTS = [Part('documents', strategy, check, quick=1500, thorough=30000), Part('strict', strategy, check, quick=0, thorough=0)]
