"""Damage files: archives, XML and bytes. A mutation is a JSON list [op, position, length, argument], positions and lengths are fractions."""
import io
import re
import zipfile

from hypothesis import strategies as st

NAMES = ['text:p', 'text:h', 'text:span', 'text:section', 'text:note', 'text:note-body', 'office:annotation', 'dc:creator', 'table:table-row', 'table:table-cell',
         'table:table', 'office:body', 'style:style', 'text:list-item', 'text:line-break', 'ID', 'Title', 'SCENE', 'CHAPTER', 'CHARACTER', 'SCENES', 'PROJECT', 'Tags', 'SceneContent', 'Fields']
VALUES = ['', '0', '-1', 'x', 'ScID:1', 'ScID:999', 'ChID:', 'ScID', 'ChID:7', 'CrID:1', 'LcID:', 'Heading_20_3', 'Quotations', '1000', '9' * 12, 'zxx', 'none', 'é', '3.5', 'http://x']
TEXTS = ['', 'x', '[ScID:1]', '[/ScID]', '[/ScID:1]', '[ScID:99]', '[ChID:1]', '[ScID:]', '[ScID:x]', '# part', '## chapter', '### scene | desc', '/* ~t~ */', '/*', '* * *', '&amp;', '&#0;', '&#55296;', '&x;', '<', ']]>',
         'ID', 'ScID:1', 'CrID:1', '12', '-3', '1.5', '2020-13-40', 'N/A']


def _xml(data, ops):
    tokens = re.findall(r'<[^>]*>|[^<]+|<', data)
    for op, pos, length, arg in ops:
        if not tokens:
            break
        i = min(int(pos * len(tokens)), len(tokens) - 1)
        n = max(1, int(length * length * len(tokens) / 4))
        if op == 'delete':
            del tokens[i:i + n]
        elif op == 'duplicate':
            tokens[i:i] = tokens[i:i + n]
        elif op == 'move':
            part = tokens[i:i + n]
            del tokens[i:i + n]
            j = int(length * len(tokens))
            tokens[j:j] = part
        elif op == 'rename':
            tokens[i] = re.sub(r'^(</?)[\w:]+', lambda m: m.group(1) + NAMES[arg % len(NAMES)], tokens[i])
        elif op == 'attr':
            hits = [k for k in list(range(i, len(tokens))) + list(range(i)) if '="' in tokens[k]]
            if hits:
                vals = list(re.finditer(r'="([^"]*)"', tokens[hits[0]])) or [re.search(r'="()', tokens[hits[0]])]
                m = vals[arg % len(vals)]
                tokens[hits[0]] = tokens[hits[0]][:m.start(1)] + VALUES[arg // 7 % len(VALUES)] + tokens[hits[0]][m.end(1):]
        elif op == 'delattr':
            tokens[i] = re.sub(r' [\w:-]+="[^"]*"', '', tokens[i], count=1 + arg % 2)
        elif op == 'text':
            tokens.insert(i, TEXTS[arg % len(TEXTS)])
        elif op == 'settext':
            hits = [k for k in list(range(i, len(tokens))) + list(range(i)) if not tokens[k].startswith('<')]
            if hits:
                tokens[hits[0]] = TEXTS[arg % len(TEXTS)]
        elif op == 'element':
            name = NAMES[arg % len(NAMES)]
            tokens.insert(i, f'<{name}>')
            tokens.insert(min(len(tokens), i + 1 + n), f'</{name}>')
        elif op == 'dropelement':
            # a whole element, well-formed
            m = re.match(r'<([\w:]+)[^>/]*>$', tokens[i])
            if m:
                depth = 0
                for j in range(i, len(tokens)):
                    if re.match(rf'<{m.group(1)}[ >]', tokens[j]) and not tokens[j].endswith('/>'):
                        depth += 1
                    elif tokens[j].startswith(f'</{m.group(1)}>'):
                        depth -= 1
                        if depth == 0:
                            del tokens[i:j + 1]
                            break
    return ''.join(tokens)


def _bytes(data, ops):
    data = bytearray(data)
    for op, pos, length, arg in ops:
        i = int(pos * len(data))
        n = int(length * length * len(data) / 4) + 1
        if op == 'flip':
            if data:
                data[min(i, len(data) - 1)] ^= (arg % 255) + 1
        elif op == 'cut':
            del data[i:i + n]
        elif op == 'truncate':
            del data[i:]
        elif op == 'insert':
            data[i:i] = bytes([(arg * 31 + k * 7) % 256 for k in range(n % 50)])
        elif op == 'random':
            data = bytearray((arg * 31 + k * k * 7) % 256 for k in range(n % 3000))
        elif op == 'repeat':
            data[i:i] = data[i:i + n]
    return bytes(data)


def xml_text(text, m):
    return _xml(text, m['xml'])


def xml_file(data, m):
    """Damage an XML file given as bytes."""
    if m['xml']:
        try:
            data = _xml(data.decode('utf-8'), m['xml']).encode('utf-8', 'surrogatepass')
        except UnicodeDecodeError:
            pass
    return _bytes(data, m['bytes'])


def archive(data, m):
    """Damage an OpenDocument file given as bytes."""
    if m['xml'] or m['parts']:
        out = io.BytesIO()
        with zipfile.ZipFile(io.BytesIO(data)) as z, zipfile.ZipFile(out, 'w') as t:
            drop = {p for k, p in m['parts'] if k == 'drop'}
            blank = {p for k, p in m['parts'] if k == 'empty'}
            damage = {p for k, p in m['parts'] if k == 'damage'}
            for info in z.infolist():
                d = z.read(info.filename)
                if info.filename in drop:
                    continue
                if info.filename in blank:
                    d = b''
                if info.filename in damage:
                    d = _bytes(d, [['flip', .3, 0, 7], ['cut', .5, .3, 0]])
                if info.filename == 'content.xml' and m['xml']:
                    d = _xml(d.decode('utf-8'), m['xml']).encode('utf-8', 'surrogatepass')
                t.writestr(info.filename, d)
        data = out.getvalue()
    return _bytes(data, m['bytes'])


def strategy():
    frac = st.floats(0, 1, allow_nan=False).map(lambda x: round(x, 5))
    big = st.integers(0, 10 ** 4)
    xop = st.tuples(st.sampled_from(['delete', 'duplicate', 'move', 'rename', 'attr', 'attr', 'delattr', 'text', 'settext', 'settext', 'element', 'dropelement', 'dropelement']), frac, frac, big).map(list)
    bop = st.tuples(st.sampled_from(['flip', 'cut', 'truncate', 'insert', 'random', 'repeat']), frac, frac, big).map(list)
    part = st.tuples(st.sampled_from(['drop', 'empty', 'damage']), st.sampled_from(['content.xml', 'content.xml', 'styles.xml', 'meta.xml', 'mimetype', 'META-INF/manifest.xml'])).map(list)
    none = st.just([])
    one = st.lists(xop, min_size=1, max_size=3)
    return st.one_of(
        st.just(dict(xml=[], bytes=[], parts=[])),
        st.fixed_dictionaries(dict(xml=one, bytes=none, parts=none)),
        st.fixed_dictionaries(dict(xml=one, bytes=none, parts=none)),
        st.fixed_dictionaries(dict(xml=none, bytes=st.lists(bop, min_size=1, max_size=2), parts=none)),
        st.fixed_dictionaries(dict(xml=none, bytes=none, parts=st.lists(part, min_size=1, max_size=2))),
        st.fixed_dictionaries(dict(xml=st.lists(xop, max_size=2), bytes=st.lists(bop, max_size=1), parts=st.lists(part, max_size=1))))
