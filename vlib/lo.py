"""Documents as a word processor saves them: editing exported documents, and building new ones."""
import random
import re
import xml.etree.ElementTree as ET
import zipfile
from xml.sax.saxutils import escape, quoteattr

from vlib import odf
from vlib.odf import q

NS = dict(office='urn:oasis:names:tc:opendocument:xmlns:office:1.0', style='urn:oasis:names:tc:opendocument:xmlns:style:1.0', text='urn:oasis:names:tc:opendocument:xmlns:text:1.0',
          table='urn:oasis:names:tc:opendocument:xmlns:table:1.0', fo='urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0', xlink='http://www.w3.org/1999/xlink',
          dc='http://purl.org/dc/elements/1.1/', meta='urn:oasis:names:tc:opendocument:xmlns:meta:1.0', officeooo='http://openoffice.org/2009/office',
          loext='urn:org:documentfoundation:names:experimental:office:xmlns:loext:1.0', svg='urn:oasis:names:tc:opendocument:xmlns:svg-compatible:1.0',
          draw='urn:oasis:names:tc:opendocument:xmlns:drawing:1.0', number='urn:oasis:names:tc:opendocument:xmlns:datastyle:1.0', of='urn:oasis:names:tc:opendocument:xmlns:of:1.2',
          calcext='urn:org:documentfoundation:names:experimental:calc:xmlns:calcext:1.0')
DECL = ' '.join(f'xmlns:{k}="{v}"' for k, v in NS.items())
for _k, _v in NS.items():
    ET.register_namespace(_k, _v)


def fragment(xml):
    """The elements of an XML fragment."""
    return list(ET.fromstring(f'<x {DECL}>{xml}</x>'))


def blanks(n, first, last):
    """n blanks between other characters; at the ends of a paragraph a literal blank is not shown."""
    if first or last or n > 1:
        k = n if first or last else n - 1
        s = '<text:s/>' if k == 1 else f'<text:s text:c="{k}"/>'
        return s if first or last else ' ' + s
    return ' '


def encode(text, first=True, last=True):
    """Character data as a word processor writes it."""
    out = []
    parts = re.findall(' +|\t|\n|[^ \t\n]+', text)
    for i, p in enumerate(parts):
        if p[0] == ' ':
            # a blank after a tab or line break is written as an element, too
            out.append(blanks(len(p), (first and i == 0) or (i > 0 and parts[i - 1] in ('\t', '\n')), last and i == len(parts) - 1))
        elif p == '\t':
            out.append('<text:tab/>')
        elif p == '\n':
            out.append('<text:line-break/>')
        else:
            out.append(escape(p))
    return ''.join(out)


class Styles:
    """Automatic styles of a document."""

    def __init__(self, rng, formatted=False):
        self.rng = rng
        self.formatted = formatted      # whether some words of plain texts are highlighted
        self.n = 0
        self.xml = []
        self.cache = {}

    def plain(self):
        """Name of a style for a span of a plain text."""
        if self.formatted and self.rng.random() < .5:
            k = self.rng.randrange(6)
            if k < 2:
                return ['Emphasis', 'Strong_20_Emphasis'][k]
            return self.text([frozenset('i'), frozenset('b'), frozenset('ib'), frozenset([('lang', 'fr', 'FR')])][k - 2])
        return self.text(NONE)

    def text(self, props):
        """Name of a character style with the properties, a frozenset of 'i', 'b', ('lang', l, c)."""
        if props in self.cache and self.rng.random() < .7:
            return self.cache[props]
        self.n += 1
        name = f'T{900 + self.n}'
        a = []
        for p in props:
            if p == 'i':
                a.append('fo:font-style="italic" style:font-style-asian="italic" style:font-style-complex="italic"')
            elif p == 'b':
                a.append('fo:font-weight="bold" style:font-weight-asian="bold" style:font-weight-complex="bold"')
            elif isinstance(p, tuple):
                a.append(f'fo:language="{p[1]}" fo:country="{p[2]}"')
        a.append(f'officeooo:rsid="{self.n:08x}"')
        self.xml.append(f'<style:style style:name="{name}" style:family="text"><style:text-properties {" ".join(a)}/></style:style>')
        self.cache[props] = name
        return name

    def para(self, parent, props=frozenset()):
        key = ('p', parent, props)
        if key in self.cache:
            return self.cache[key]
        self.n += 1
        name = f'P{900 + self.n}'
        a = []
        for p in props:
            if p == 'i':
                a.append('fo:font-style="italic"')
            elif p == 'b':
                a.append('fo:font-weight="bold"')
            elif isinstance(p, tuple):
                a.append(f'fo:language="{p[1]}" fo:country="{p[2]}"')
        a.append(f'officeooo:paragraph-rsid="{self.n:08x}"')
        self.xml.append(f'<style:style style:name="{name}" style:family="paragraph" style:parent-style-name="{parent}"><style:text-properties {" ".join(a)}/></style:style>')
        self.cache[key] = name
        return name


NONE = frozenset()


FRAME = ('<draw:frame text:anchor-type="as-char" draw:name="i"><draw:image xlink:href="Pictures/1.png"/><svg:title>Alt title</svg:title><svg:desc>Alternative text, not to be imported</svg:desc></draw:frame>')


def spans(text, rng, styles, first=True, last=True, frames=True):
    """Plain text, divided into spans at random places."""
    out = []
    pos = 0
    while pos < len(text):
        n = rng.choice([1, 2, 3, 5, 8, 20, 1000])
        piece = text[pos:pos + n]
        nxt = text[pos + n:pos + n + 1]
        prev = text[pos - 1:pos] if pos else ''
        xml = encode(piece, (first and pos == 0) or prev in (' ', '\t', '\n') and pos > 0, last and pos + n >= len(text) or nxt == ' ')
        k = rng.random()
        if k < .3:
            xml = f'<text:span text:style-name="{styles.plain()}">{xml}</text:span>'
        elif k < .4:
            xml = f'<text:span text:style-name="{styles.plain()}"><text:span text:style-name="{styles.plain()}">{xml}</text:span></text:span>'
        elif k < .43:
            xml = (f'<text:a xlink:type="simple" xlink:href="https://example.org/?a=1&amp;b=2" text:style-name="Internet_20_link" text:visited-style-name="Visited_20_Internet_20_Link">'
                   f'{xml}</text:a>')
        if rng.random() < .1:
            xml += rng.choice([FRAME if frames else '', '<text:soft-page-break/>', '<text:bookmark text:name="b"/>', '<text:bookmark-start text:name="c"/><text:bookmark-end text:name="c"/>'])
        out.append(xml)
        pos += n
    return ''.join(out)


def paragraphs(text, rng, styles, base='Text_20_body'):
    """Paragraphs for an unformatted text."""
    lines = text.split('\n')
    out = []
    i = 0
    while i < len(lines):
        t = lines[i]
        while i + 1 < len(lines) and rng.random() < .15:
            i += 1
            t += '\n' + lines[i]        # a line break within the paragraph
        i += 1
        style = rng.choice([base, 'Text_20_body', 'First_20_line_20_indent', 'Standard', 'Quotations', styles.para('Text_20_body'), styles.para('Quotations')])
        content = spans(t, rng, styles)
        out.append(f'<text:p text:style-name="{style}">{content}</text:p>' if content else f'<text:p text:style-name="{style}"/>')
    return ''.join(out)


def later(rng):
    """Automatic styles of other kinds that follow those of the text."""
    out = ''
    if rng.random() < .4:
        out += (f'<text:list-style style:name="L1"><text:list-level-style-bullet text:level="1" text:style-name="Bullet_20_Symbols" text:bullet-char="-"><style:list-level-properties text:list-level-position-and-space-mode="label-alignment"/>'
                f'<style:text-properties fo:font-weight="bold" fo:font-style="{rng.choice(["italic", "normal"])}" fo:language="eo" fo:country="none" style:font-name="OpenSymbol"/></text:list-level-style-bullet></text:list-style>')
    if rng.random() < .4:
        out += '<style:page-layout style:name="pm1"><style:page-layout-properties fo:page-width="21cm"/></style:page-layout>'
    if rng.random() < .3:
        out += ('<number:date-style style:name="N37" number:automatic-order="true"><style:text-properties fo:font-style="italic"/><number:day number:style="long"/></number:date-style>')
    if rng.random() < .3:
        out += '<style:style style:name="Sect1" style:family="section"><style:section-properties style:editable="false"><style:columns fo:column-count="1" fo:column-gap="0cm"/></style:section-properties></style:style>'
    if rng.random() < .3:
        out += '<style:style style:name="fr1" style:family="graphic" style:parent-style-name="Graphics"><style:graphic-properties style:mirror="none"/><style:text-properties fo:font-weight="bold"/></style:style>'
    return out


class Edit:
    """An existing document."""

    def __init__(self, path, seed=0, formatted=False):
        self.path = path
        self.rng = random.Random(seed)
        self.styles = Styles(self.rng, formatted and self.rng.random() < .5)
        with zipfile.ZipFile(path) as z:
            self.parts = [(i.filename, z.read(i)) for i in z.infolist()]
        data = dict(self.parts)['content.xml']
        self.root = ET.fromstring(data)
        self.body = self.root.find(q('office:body'))[0]

    def section(self, name):
        for s in self.root.iter(q('text:section')):
            if s.get(q('text:name')) == name:
                return s
        raise LookupError(name)

    def set_paragraphs(self, section, xml):
        """Replace the paragraphs of the section."""
        for c in list(section):
            if c.tag == q('text:p'):
                section.remove(c)
        for e in fragment(xml):
            section.append(e)

    def reencode(self, everything=True):
        """Write the text of all paragraphs as a word processor does, without changing it."""
        for p in list(self.root.iter(q('text:p'))) + list(self.root.iter(q('text:h'))):
            if p.get(q('text:style-name')) == 'scene_20_mark':
                continue
            self._reencode(p)

    def _reencode(self, e):
        if e.tag in (q('office:annotation'), q('text:note'), '{%s}frame' % NS['draw']):
            return
        kids = list(e)
        pieces = [(e.text, None)] + [(k.tail, k) for k in kids]
        for k in kids:
            e.remove(k)
        e.text = None
        last = None
        for t, k in pieces:
            if k is not None:
                self._reencode(k)
                k.tail = None
                e.append(k)
                last = k
            if t:
                for n in fragment('<text:p>' + spans(t, self.rng, self.styles) + '</text:p>'):
                    if n.text:
                        if last is None:
                            e.text = (e.text or '') + n.text
                        else:
                            last.tail = (last.tail or '') + n.text
                    for c in list(n):
                        e.append(c)
                        last = c

    def save(self, path=None):
        auto = self.root.find(q('office:automatic-styles'))
        for s in fragment(''.join(self.styles.xml) + later(self.rng)):
            auto.append(s)
        data = b'<?xml version="1.0" encoding="UTF-8"?>\n' + ET.tostring(self.root, encoding='utf-8')
        with zipfile.ZipFile(path or self.path, 'w') as z:
            for name, old in self.parts:
                z.writestr(name, data if name == 'content.xml' else old, zipfile.ZIP_STORED if name == 'mimetype' else zipfile.ZIP_DEFLATED)


def set_language(path, lang, country):
    """Choose another default language of a document, in the way a word processor stores it."""
    with zipfile.ZipFile(path) as z:
        parts = [(n, z.read(n)) for n in z.namelist()]
    with zipfile.ZipFile(path, 'w') as z:
        for name, data in parts:
            if name == 'styles.xml':
                root = ET.fromstring(data)
                for s in root.iter(q('style:default-style')):
                    for p in s.iter(q('style:text-properties')):
                        p.set(q('fo:language'), lang)
                        p.set(q('fo:country'), country)
                data = b'<?xml version="1.0" encoding="UTF-8"?>\n' + ET.tostring(root, encoding='utf-8')
            z.writestr(name, data, zipfile.ZIP_STORED if name == 'mimetype' else zipfile.ZIP_DEFLATED)


def annotation(text, rng, styles, creator='A'):
    """A comment; the text may have several lines."""
    formatted, styles.formatted = styles.formatted, False
    pars = ''.join(f'<text:p text:style-name="{styles.para("Standard")}">{spans(t, rng, styles)}</text:p>' for t in text.split('\n'))
    styles.formatted = formatted
    return (f'<office:annotation office:name="__Annotation__{rng.randrange(10 ** 6)}" loext:resolved="false"><dc:creator>{escape(creator)}</dc:creator><dc:date>2023-01-01T10:00:00.000000000</dc:date>'
            f'{pars}</office:annotation>')


class Sheet:
    """An existing spreadsheet: rows of texts."""

    def __init__(self, path, seed=0):
        self.path = path
        self.rng = random.Random(seed)
        with zipfile.ZipFile(path) as z:
            self.parts = [(i.filename, z.read(i)) for i in z.infolist()]
        self.root = ET.fromstring(dict(self.parts)['content.xml'])
        self.table = self.root.find(q('office:body'))[0].find(q('table:table'))
        self.rows = []
        self.elements = {}
        self.styles = Styles(self.rng)
        for row in self.table.iter(q('table:table-row')):
            cells = []
            for c in row.findall(q('table:table-cell')):
                pars = [''.join(p.itertext()) for p in c.findall(q('text:p'))]
                text = '\n'.join(pars)
                n = int(c.get(q('table:number-columns-repeated')) or 1)
                cells += [text] * min(n, 30)
                if c.get(q('table:formula')):
                    self.elements[text] = c
            self.rows.append(cells)

    def cell(self, text, n=1):
        rep = f' table:number-columns-repeated="{n}"' if n > 1 else ''
        if not text:
            return f'<table:table-cell{rep}/>'
        if text in self.elements:
            e = self.elements[text]
            a = {k: v for k, v in e.attrib.items()}
            return f'<table:table-cell{rep} table:formula={quoteattr(a[q("table:formula")])} office:value-type="string" office:string-value={quoteattr(text)} calcext:value-type="string"><text:p>{escape(text)}</text:p></table:table-cell>'
        if re.fullmatch('[1-9][0-9]{0,8}', text):
            return f'<table:table-cell{rep} office:value-type="float" office:value="{text}" calcext:value-type="float"><text:p>{text}</text:p></table:table-cell>'
        pars = []
        for t in text.split('\n'):
            x = spans(t, self.rng, self.styles, frames=False) if self.rng.random() < .3 else encode(t)
            pars.append(f'<text:p>{x}</text:p>' if x else '<text:p/>')
        note = ''
        if self.rng.random() < .05:
            note = '<office:annotation draw:style-name="gr1"><dc:date>2023-01-01T00:00:00</dc:date><text:p text:style-name="P1">a note</text:p></office:annotation>'
        return f'<table:table-cell{rep} office:value-type="string" calcext:value-type="string">{note}{"".join(pars)}</table:table-cell>'

    def save(self, path=None):
        """Write the table as Calc does."""
        width = max((len(r) for r in self.rows), default=1)
        out = []
        for r in self.rows:
            cells = list(r) + [''] * (width + self.rng.choice([0, 5, 1000]) - len(r))
            xml = []
            i = 0
            while i < len(cells):
                n = 1
                while i + n < len(cells) and cells[i + n] == cells[i]:
                    n += 1
                xml.append(self.cell(cells[i], n))
                i += n
            out.append(f'<table:table-row table:style-name="ro1">{"".join(xml)}</table:table-row>')
        k = self.rng.randrange(4)
        if k == 1 and len(out) > 2:
            out[1] = '<table:table-row-group>' + out[1]
            out[2] = out[2] + '</table:table-row-group>'
        elif k == 2 and out:
            out[0] = f'<table:table-header-rows>{out[0]}</table:table-header-rows>'
        out.append('<table:table-row table:style-name="ro1" table:number-rows-repeated="1048570"><table:table-cell table:number-columns-repeated="1024"/></table:table-row>')
        for c in list(self.table):
            if c.tag in (q('table:table-row'), q('table:table-row-group'), q('table:table-header-rows')):
                self.table.remove(c)
        for e in fragment(''.join(out)):
            self.table.append(e)
        auto = self.root.find(q('office:automatic-styles'))
        for s in fragment(''.join(self.styles.xml)):
            auto.append(s)
        data = b'<?xml version="1.0" encoding="UTF-8"?>\n' + ET.tostring(self.root, encoding='utf-8')
        with zipfile.ZipFile(path or self.path, 'w') as z:
            for name, old in self.parts:
                z.writestr(name, data if name == 'content.xml' else old, zipfile.ZIP_STORED if name == 'mimetype' else zipfile.ZIP_DEFLATED)


def rich(pars, rng, styles, base='Text_20_body', breaks=True, lists=True):
    """Paragraphs with formatting, in the form markup.expected(notes=True) yields."""
    out = []
    i = 0
    while i < len(pars):
        p = pars[i]
        group = [p]
        i += 1
        bullet = lists and not p['quote'] and [it[1:] for it in p['items'][:2] if it[0] == 'c'] == [['-', NONE], [' ', NONE]] and len(p['items']) > 2 and rng.random() < .7
        while breaks and not bullet and not p['quote'] and i < len(pars) and not pars[i]['quote'] and rng.random() < .1:
            group.append(pars[i])
            i += 1
        items = []
        for n, g in enumerate(group):
            if n:
                st = items[-1][2] if items and items[-1][0] == 'c' else NONE
                items.append(['c', '\n', st])
            items += g['items']
        if bullet:
            items = items[2:]
        kinds = {it[2] for it in items if it[0] == 'c'}
        common = frozenset()
        if len(kinds) == 1 and all(it[0] == 'c' for it in items) and rng.random() < .5:
            common = next(iter(kinds))
        parent = 'Quotations' if p['quote'] else rng.choice([base, 'Text_20_body', 'First_20_line_20_indent', 'Standard'])
        style = styles.para(parent, common) if common or rng.random() < .3 else parent
        xml = runs([[it[0], it[1], it[2] - common] if it[0] == 'c' else it for it in items], rng, styles)
        par = f'<text:p text:style-name="{style}">{xml}</text:p>' if xml else f'<text:p text:style-name="{style}"/>'
        if bullet:
            par = f'<text:list xml:id="list{rng.randrange(10 ** 9)}" text:style-name="L1"><text:list-item>{par}</text:list-item></text:list>'
        out.append(par)
    return out


def runs(items, rng, styles):
    """Inline content."""
    out = []
    ends = []
    i = 0
    while i < len(items):
        it = items[i]
        if it[0] == 'comment':
            body = ''.join(f'<text:p text:style-name="{styles.para("Standard")}">{runs(p["items"], rng, styles)}</text:p>' for p in it[2])
            name = f'__Annotation__{rng.randrange(10 ** 6)}'
            if rng.random() < .4:
                # the comment belongs to a range of text
                ends.append(f'<office:annotation-end office:name="{name}"/>')
            out.append(f'<office:annotation office:name="{name}" loext:resolved="false"><dc:creator>A. U. Thor</dc:creator><dc:date>2023-01-01T10:00:00.000000000</dc:date>'
                       f'{body}</office:annotation>')
            i += 1
            continue
        if it[0] == 'note':
            name = 'Endnote' if it[1] == 'endnote' else 'Footnote'
            body = ''.join(f'<text:p text:style-name="{name}">{runs(p["items"], rng, styles)}</text:p>' for p in it[3])
            label = ' text:label="*"' if it[2] == '*' else ''
            out.append(f'<text:note text:id="ftn{rng.randrange(10 ** 6)}" text:note-class="{it[1]}"><text:note-citation{label}>{it[2]}</text:note-citation><text:note-body>{body}</text:note-body></text:note>')
            i += 1
            continue
        j = i
        while j < len(items) and items[j][0] == 'c' and items[j][2] == it[2]:
            j += 1
        text = ''.join(x[1] for x in items[i:j])
        # blanks at the borders of runs are next to other characters
        first = i == 0 or items[i - 1][0] != 'c' or items[i - 1][1] in ' \t\n'
        last = j == len(items) or items[j][0] != 'c' or items[j][1] in ' \t\n'
        out.append(wrap(text, it[2], rng, styles, first, last))
        if ends and rng.random() < .7:
            out.append(ends.pop())
        i = j
    return ''.join(out + ends)


def wrap(text, props, rng, styles, first=True, last=True):
    """A run of equally formatted text."""
    if not props:
        return spans(text, rng, styles, first, last)
    out = []
    pos = 0
    while pos < len(text):
        n = rng.choice([1, 3, 10, 1000, 1000])
        piece = text[pos:pos + n]
        f = first if pos == 0 else text[pos - 1] in ' \t\n'
        l = last if pos + n >= len(text) else text[pos + n] in ' \t\n'
        k = rng.random()
        if k < .5 or len(props) > 1 and k < .6:
            xml = encode(piece, f, l) if rng.random() < .7 else spans(piece, rng, styles, f, l)
            xml = f'<text:span text:style-name="{styles.text(props)}">{xml}</text:span>'
        else:
            xml = encode(piece, f, l)
            todo = sorted(props, key=str)
            rng.shuffle(todo)
            for p in todo:
                name = styles.text(frozenset([p]))
                if rng.random() < .5:
                    name = {'i': 'Emphasis', 'b': 'Strong_20_Emphasis'}.get(p, name)
                xml = f'<text:span text:style-name="{name}">{xml}</text:span>'
        out.append(xml)
        pos += n
    return ''.join(out)


STYLES = '''<?xml version="1.0" encoding="UTF-8"?>
<office:document-styles {decl} office:version="1.3"><office:styles>
<style:default-style style:family="graphic"><style:text-properties fo:language="en" fo:country="GB"/></style:default-style>
<style:default-style style:family="paragraph"><style:paragraph-properties/><style:text-properties {lang}/></style:default-style>
<style:style style:name="Standard" style:family="paragraph" style:class="text"/>
{named}</office:styles></office:document-styles>'''

META = '''<?xml version="1.0" encoding="UTF-8"?>
<office:document-meta {decl} office:version="1.3"><office:meta><meta:generator>LibreOffice/7.4</meta:generator>{items}<dc:date>2023-01-01T00:00:00</dc:date></office:meta></office:document-meta>'''

MANIFEST = '''<?xml version="1.0" encoding="UTF-8"?>
<manifest:manifest xmlns:manifest="urn:oasis:names:tc:opendocument:xmlns:manifest:1.0"><manifest:file-entry manifest:full-path="/" manifest:media-type="application/vnd.oasis.opendocument.text"/>
<manifest:file-entry manifest:full-path="content.xml" manifest:media-type="text/xml"/><manifest:file-entry manifest:full-path="styles.xml" manifest:media-type="text/xml"/>
<manifest:file-entry manifest:full-path="meta.xml" manifest:media-type="text/xml"/></manifest:manifest>'''


class Document:
    """A new text document; body is a list of XML fragments."""

    def __init__(self, seed=0, language=('en', 'US'), title=None, author=None, desc=None, meta=True):
        self.rng = random.Random(seed)
        self.styles = Styles(self.rng)
        self.body = []
        self.language = language
        self.fields = [('dc:title', title), ('meta:initial-creator', author), ('dc:description', desc)]
        self.meta = meta

    def heading(self, level, xml):
        """A heading in one of the forms that programs use."""
        k = self.rng.randrange(4)
        name = f'Heading_20_{level}'
        if k == 0:
            name = self.styles.para(name)
        if k == 1:
            self.body.append(f'<text:p text:style-name="{self.styles.para(name)}">{xml}</text:p>')
        else:
            self.body.append(f'<text:h text:style-name="{name}" text:outline-level="{level}">{xml}</text:h>')

    def save(self, path):
        named = ''.join(f'<style:style style:name="{n}" style:family="paragraph" style:parent-style-name="Standard"/>' for n in
                        ('Text_20_body', 'First_20_line_20_indent', 'Quotations', 'Title', 'Subtitle', 'Heading_20_1', 'Heading_20_2', 'Heading_20_4', 'Footnote', 'Endnote'))
        named += ''.join(f'<style:style style:name="{n}" style:family="text"/>' for n in ('Emphasis', 'Strong_20_Emphasis'))
        lang = f'fo:language="{self.language[0]}" fo:country="{self.language[1]}"' if self.language else ''
        content = (f'<?xml version="1.0" encoding="UTF-8"?>\n<office:document-content {DECL} office:version="1.3"><office:scripts/><office:font-face-decls/>'
                   f'<office:automatic-styles>{"".join(self.styles.xml)}{later(self.rng)}</office:automatic-styles><office:body><office:text>'
                   '<text:sequence-decls><text:sequence-decl text:display-outline-level="0" text:name="Table"/></text:sequence-decls>'
                   f'{"".join(self.body)}</office:text></office:body></office:document-content>')
        items = ''.join(f'<{k}>{escape(v)}</{k}>' for k, v in self.fields if v is not None)
        with zipfile.ZipFile(path, 'w', zipfile.ZIP_DEFLATED) as z:
            z.writestr('mimetype', 'application/vnd.oasis.opendocument.text', zipfile.ZIP_STORED)
            z.writestr('content.xml', content)
            z.writestr('styles.xml', STYLES.format(decl=DECL, lang=lang, named=named))
            if self.meta:
                z.writestr('meta.xml', META.format(decl=DECL, items=items))
            z.writestr('META-INF/manifest.xml', MANIFEST)
