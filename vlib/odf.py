"""Independent reader for OpenDocument text documents and spreadsheets; shares no code with the library."""
import re
import zipfile
import xml.etree.ElementTree as ET

from vlib.core import expect, expect_eq

NS = dict(office='urn:oasis:names:tc:opendocument:xmlns:office:1.0', style='urn:oasis:names:tc:opendocument:xmlns:style:1.0',
          text='urn:oasis:names:tc:opendocument:xmlns:text:1.0', table='urn:oasis:names:tc:opendocument:xmlns:table:1.0',
          fo='urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0', dc='http://purl.org/dc/elements/1.1/',
          meta='urn:oasis:names:tc:opendocument:xmlns:meta:1.0', xlink='http://www.w3.org/1999/xlink',
          manifest='urn:oasis:names:tc:opendocument:xmlns:manifest:1.0')
MIME = {'.odt': b'application/vnd.oasis.opendocument.text', '.ods': b'application/vnd.oasis.opendocument.spreadsheet'}
WS = ' \t\r\n'


def q(name):
    p, n = name.split(':')
    return f'{{{NS[p]}}}{n}'


def archive(path):
    """Check the package; return its parts."""
    with zipfile.ZipFile(path) as z:
        infos = z.infolist()
        names = [i.filename for i in infos]
        expect_eq(len(names), len(set(names)), 'duplicate parts in the archive')
        expect(z.testzip() is None, 'damaged archive')
        expect(names and names[0] == 'mimetype', 'the media type is not the first entry', names)
        expect_eq(infos[0].compress_type, zipfile.ZIP_STORED, 'compression of the media type entry')
        parts = {n: z.read(n) for n in names if not n.endswith('/')}
    expect_eq(parts['mimetype'], MIME[path[-4:]], 'media type')
    for n in ('content.xml', 'styles.xml', 'meta.xml', 'settings.xml', 'META-INF/manifest.xml'):
        expect(n in parts, f'missing part {n}')
    roots = {}
    for n, data in parts.items():
        if n.endswith(('.xml', '.rdf')):
            try:
                roots[n] = ET.fromstring(data)
            except ET.ParseError as ex:
                k = ex.position
                lines = data.decode('utf-8', 'replace').split('\n')
                near = lines[k[0] - 1][max(0, k[1] - 80):k[1] + 80] if k[0] <= len(lines) else ''
                expect(False, f'{n} is not well-formed: {ex}', near)
    man = {e.get(q('manifest:full-path')): e.get(q('manifest:media-type')) for e in roots['META-INF/manifest.xml']}
    expect_eq(man.get('/'), MIME[path[-4:]].decode(), 'media type of the package in the manifest')
    listed = {k for k in man if k and not k.endswith('/')}
    want = {n for n in parts if n not in ('mimetype', 'META-INF/manifest.xml')}
    expect(want <= listed, 'parts not in the manifest', sorted(want - listed))
    missing = {n for n in listed if n not in parts}
    expect(not {n for n in missing if n.endswith(('.xml', '.rdf'))}, 'manifest lists missing parts', sorted(missing))
    return parts, roots



INLINE = ('text:span', 'text:a', 'text:s', 'text:tab', 'text:line-break', 'text:note', 'office:annotation', 'text:bookmark')
# element -> permitted children, in the parts of the OpenDocument schema the documents use
CHILDREN = {
    'office:document-content': ('office:scripts', 'office:font-face-decls', 'office:automatic-styles', 'office:body'),
    'office:body': ('office:text', 'office:spreadsheet'),
    'office:text': ('text:sequence-decls', 'text:p', 'text:h', 'text:section', 'text:list'),
    'text:section': ('text:p', 'text:h', 'text:section', 'text:list'),
    'text:p': INLINE, 'text:h': INLINE, 'text:span': INLINE, 'text:a': INLINE,
    'text:s': (), 'text:tab': (), 'text:line-break': (),
    'text:note': ('text:note-citation', 'text:note-body'), 'text:note-citation': (), 'text:note-body': ('text:p',),
    'office:annotation': ('dc:creator', 'dc:date', 'text:p'), 'dc:creator': (), 'dc:date': (),
    'office:spreadsheet': ('table:table',), 'table:table': ('table:table-column', 'table:table-row'), 'table:table-column': (), 'table:table-row': ('table:table-cell',),
    'table:table-cell': ('text:p',),
    'office:scripts': (), 'office:font-face-decls': ('style:font-face',), 'style:font-face': (), 'office:automatic-styles': ('style:style',),
    'style:style': ('style:text-properties', 'style:paragraph-properties', 'style:table-properties', 'style:table-row-properties', 'style:table-column-properties', 'style:table-cell-properties', 'style:section-properties'),
    'style:section-properties': ('style:columns',), 'style:columns': (),
}
for _n in ('text', 'paragraph', 'table', 'table-row', 'table-column', 'table-cell'):
    CHILDREN.setdefault(f'style:{_n}-properties', ())
MIXED = ('text:p', 'text:h', 'text:span', 'text:a', 'text:note-citation', 'dc:creator', 'dc:date')
REQUIRED = {'text:section': ['text:name'], 'text:h': ['text:outline-level'], 'text:span': ['text:style-name'], 'text:a': ['xlink:href'], 'text:note': ['text:note-class'], 'style:style': ['style:name', 'style:family'],
            'table:table': ['table:name']}


def validate(root, stray=''):
    """Check content.xml against the part of the schema that the documents use. stray: characters tolerated between paragraphs of the text."""
    short = {}
    for p, uri in NS.items():
        short['{' + uri + '}'] = p + ':'

    def name(tag):
        u, __, n = tag.rpartition('}')
        return short.get(u + '}', u + '}') + n

    def walk(e, path):
        n = name(e.tag)
        here = f'{path}/{n}'
        expect(n in CHILDREN, f'unexpected element {here}')
        for a in REQUIRED.get(n, ()):
            expect(e.get(q(a)) is not None, f'{here} without {a}')
        chars = (e.text or '') + ''.join(c.tail or '' for c in e)
        if n not in MIXED:
            if n in ('office:text', 'text:section'):
                chars = chars.replace(stray, '') if stray else chars
            expect(not chars.strip(), f'text outside paragraphs in {here}', chars.strip()[:100])
        kids = [name(c.tag) for c in e]
        for k in kids:
            expect(k in CHILDREN[n], f'{k} is not permitted in {here}')
        if n == 'office:body':
            expect_eq(len(kids), 1, f'{here}: number of bodies')
        if n == 'text:note':
            expect_eq(kids, ['text:note-citation', 'text:note-body'], f'{here}: structure of a note')
            expect(e.get(q('text:note-class')) in ('footnote', 'endnote'), f'{here}: class of a note', e.get(q('text:note-class')))
        if n == 'office:annotation':
            expect([k for k in kids if k != 'text:p'] in (['dc:creator', 'dc:date'], ['dc:creator']) and 'text:p' in kids, f'{here}: structure of an annotation', kids)
            expect('dc:date' not in kids or re.fullmatch(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?', e.find(q('dc:date')).text or ''), f'{here}: time of an annotation')
        if n == 'text:h':
            expect((e.get(q('text:outline-level')) or '') in '123456789', f'{here}: outline level', e.get(q('text:outline-level')))
        if n == 'table:table':
            rows = [c for c in e if c.tag == q('table:table-row')]
            width = sum(int(c.get(q('table:number-columns-repeated')) or 1) for c in e if c.tag == q('table:table-column'))
            expect(kids == sorted(kids, key=lambda k: k != 'table:table-column'), f'{here}: columns after rows')
            for i, r in enumerate(rows):
                have = 0
                for k, c in enumerate(r):
                    if any(len(x) or x.text for x in r[k:]):
                        have += int(c.get(q('table:number-columns-repeated')) or 1)
                expect(have <= width, f'{here}: row {i + 1} has more cells with contents than there are columns', have, width)
        if n == 'table:table-cell':
            t = e.get(q('office:value-type'))
            if t == 'float':
                expect(re.fullmatch(r'-?\d+(\.\d+)?', e.get(q('office:value')) or '') or e.get(q('office:value')) == ''.join(e.itertext()).strip() == '', f'{here}: value of a number', e.get(q('office:value')))
            elif t == 'date':
                expect(re.fullmatch(r'\d{4}-\d\d-\d\d', e.get(q('office:date-value')) or ''), f'{here}: value of a date', e.get(q('office:date-value')))
            elif t == 'time':
                expect(re.fullmatch(r'PT\d\dH\d\dM\d\dS', e.get(q('office:time-value')) or ''), f'{here}: value of a time', e.get(q('office:time-value')))
            else:
                expect(t in (None, 'string'), f'{here}: value type', t)
        for c in e:
            walk(c, here)
    walk(root, '')
    sections = [s.get(q('text:name')) for s in root.iter(q('text:section'))]
    expect_eq(len(sections), len(set(sections)), 'section names are not unique')


def metadata(roots):
    m = roots['meta.xml'].find(q('office:meta'))

    def get(tag):
        e = m.find(q(tag))
        return None if e is None else (e.text or '')
    return dict(title=get('dc:title'), summary=get('dc:description'), author=get('meta:initial-creator'), creator=get('dc:creator'))


class Doc:
    """A text document.

    blocks: list of dict(kind='p'|'h', level, style, items, sections=tuple of section names, links)
    items of a paragraph: ['c', char, styles], ['comment', author, paragraphs], ['note', class, label, paragraphs]
    """

    def __init__(self, path):
        self.parts, self.roots = archive(path)
        self.styles = {}
        root = self.roots['content.xml']
        auto = root.find(q('office:automatic-styles'))
        self.style_names = []
        for s in (auto if auto is not None else ()):
            if s.get(q('style:family')) == 'text':
                name = s.get(q('style:name'))
                self.style_names.append(name)
                p = s.find(q('style:text-properties'))
                r = set()
                if p is not None:
                    if p.get(q('fo:font-style')) == 'italic':
                        r.add('i')
                    if p.get(q('fo:font-weight')) == 'bold':
                        r.add('b')
                    if p.get(q('fo:language')):
                        r.add(('lang', p.get(q('fo:language')), p.get(q('fo:country')) or 'none'))
                self.styles[name] = r
        expect_eq(len(self.style_names), len(set(self.style_names)), 'automatic styles of the same name')
        self.defined = {s.get(q('style:name')) for s in self.roots['styles.xml'].iter(q('style:style'))} | {
            s.get(q('style:name')) for s in root.iter(q('style:style'))}
        self.blocks = []
        self.section_names = []
        self.note_ids = []
        body = root.find(q('office:body')).find(q('office:text'))
        expect(body is not None, 'no text in the document')
        self._walk(body, ())

    def _walk(self, e, sections):
        for c in e:
            if c.tag == q('text:section'):
                name = c.get(q('text:name'))
                self.section_names.append(name)
                self._walk(c, sections + (name,))
            elif c.tag in (q('text:p'), q('text:h')):
                self.blocks.append(self._block(c, sections))
            elif c.tag in (q('text:sequence-decls'), q('office:forms')):
                pass
            else:
                self._walk(c, sections)

    def _block(self, c, sections=()):
        style = c.get(q('text:style-name'))
        expect(style is None or style in self.defined or style in ('Footnote', 'Endnote'),     # built into the consumers
               f'undefined paragraph style {style}')
        b = dict(kind='h' if c.tag == q('text:h') else 'p', level=int(c.get(q('text:outline-level')) or 0) if c.tag == q('text:h') else 0,
                 style=style, sections=sections, links=[], items=[])
        self._inline(c, frozenset(), b)
        b['items'] = normal(b['items'])
        return b

    def _inline(self, e, styles, b):
        items = b['items']
        for ch in e.text or '':
            items.append(['c', ch, styles])
        for c in e:
            t = c.tag
            if t == q('text:span'):
                name = c.get(q('text:style-name'))
                expect(name in self.defined, f'undefined text style {name}')
                if name == 'Emphasis':
                    add = {'i'}
                elif name == 'Strong_20_Emphasis':
                    add = {'b'}
                else:
                    add = self.styles.get(name, set())
                new = set(styles)
                for a in add:
                    if isinstance(a, tuple):
                        new = {x for x in new if not isinstance(x, tuple)}
                    new.add(a)
                self._inline(c, frozenset(new), b)
            elif t == q('office:annotation'):
                a = c.find(q('dc:creator'))
                items.append(['comment', (a.text or '') if a is not None else None, [self._block(p) for p in c.iter(q('text:p'))]])
            elif t == q('text:note'):
                self.note_ids.append(c.get(q('text:id')))
                items.append(['note', c.get(q('text:note-class')), c.find(q('text:note-citation')).get(q('text:label')),
                              [self._block(p) for p in c.find(q('text:note-body')).iter(q('text:p'))]])
            elif t == q('text:s'):
                items.extend(['x', ' ', styles] for __ in range(int(c.get(q('text:c')) or 1)))
            elif t == q('text:tab'):
                items.append(['x', '\t', styles])
            elif t == q('text:line-break'):
                items.append(['x', '\n', styles])
            elif t == q('text:a'):
                b['links'].append(c.get(q('xlink:href')))
                self._inline(c, styles, b)
            else:
                self._inline(c, styles, b)
            for ch in c.tail or '':
                items.append(['c', ch, styles])

    def language(self):
        """Default language and country, from styles.xml."""
        r = set()
        for s in self.roots['styles.xml'].iter(q('style:default-style')):
            p = s.find(q('style:text-properties'))
            if p is not None and p.get(q('fo:language')) is not None:
                r.add((p.get(q('fo:language')), p.get(q('fo:country'))))
        return r


def normal(items):
    """White space as an OpenDocument consumer shows it: sequences collapsed, none at the ends of a paragraph."""
    r = []
    space = True
    for it in items:
        if it[0] == 'c' and it[1] in WS:
            if not space:
                r.append(['c', ' ', None])
                space = True
        elif it[0] in ('c', 'x'):
            r.append(['c', it[1], it[2]])
            space = False
        else:
            r.append(it)
    while r and r[-1][0] == 'c' and r[-1][1] == ' ' and r[-1][2] is None:
        r.pop()
    # blanks around objects: the consumer's rule is not defined; remove the blanks next to them
    return r


def plain(items):
    return ''.join(i[1] for i in items if i[0] == 'c')


def show(items):
    """A readable rendering of normalised items."""
    out = []
    last = frozenset()
    for it in items:
        if it[0] == 'c':
            st = last if it[2] is None else it[2]
            if st != last:
                out.append('{' + ','.join(sorted(s if isinstance(s, str) else '-'.join(s[1:]) for s in st)) + '}')
                last = st
            out.append(it[1])
        elif it[0] == 'comment':
            out.append('/*' + '¶'.join(show(b['items']) for b in it[2]) + '*/')
        else:
            out.append(f'<{it[1]} {it[2]}:' + '¶'.join(show(b['items']) for b in it[3]) + '>')
    return ''.join(out)


def sheet(path):
    """Rows of cells of the first table; a cell is (paragraphs, type, value, links)."""
    parts, roots = archive(path)
    body = roots['content.xml'].find(q('office:body')).find(q('office:spreadsheet'))
    tables = body.findall(q('table:table'))
    expect(tables, 'no table')
    rows = []
    for row in tables[0].iter(q('table:table-row')):
        cells = []
        for c in row.findall(q('table:table-cell')):
            pars = [''.join(p.itertext()) for p in c.findall(q('text:p'))]
            links = [a.get(q('xlink:href')) for a in c.iter(q('text:a'))]
            cell = (pars, c.get(q('office:value-type')), c.get(q('office:value')) or c.get(q('office:date-value')), links, c.get(q('table:formula')))
            cells += [cell] * int(c.get(q('table:number-columns-repeated')) or 1)
        rows.append(cells)
    return rows, roots
