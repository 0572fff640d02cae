"""Independent serializer and decoder for yWriter 7 project files.

Written from the element vocabulary and the type tables of the documentation; shares no code with the library.
"""
import re
import xml.parsers.expat
import xml.etree.ElementTree as ET

CDATA_TAGS = {'Title', 'AuthorName', 'Bio', 'Desc', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4', 'Tags', 'AKA', 'ImageFile',
              'FullName', 'Goals', 'Notes', 'SceneContent', 'Outcome', 'Goal'}


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def cdata(s):
    return '<![CDATA[' + s.replace(']]>', ']]]]><![CDATA[>') + ']]>'


def unknown(tag, value):
    """An element, given as tag with attributes and text or a list of elements."""
    inner = esc(value) if isinstance(value, str) else ''.join(unknown(t, v) for t, v in value)
    return f'<{tag}>{inner}</{tag.split()[0]}>'


class Enc:
    def __init__(self, fmt):
        self.fmt = fmt
        self.out = []
        self.k = 0

    def el(self, tag, value, force=False):
        """One leaf element; None: no element."""
        if value is None:
            return
        if isinstance(value, (list, tuple)):
            value = ';'.join(value)
        value = str(value)
        style = self.fmt.get('empty', 0)
        if value == '':
            self.out.append([f'<{tag}></{tag}>', f'<{tag} />', f'<{tag}><![CDATA[]]></{tag}>'][style % 3])
        elif tag in CDATA_TAGS and not self.fmt.get('escaped'):
            self.out.append(f'<{tag}>{cdata(value)}</{tag}>')
        else:
            self.out.append(f'<{tag}>{esc(value)}</{tag}>')

    def raw(self, s):
        self.out.append(s)

    def junk(self, where, i=''):
        for tag, value in self.fmt.get('junk', {}).get(where + str(i), []):
            self.out.append(unknown(tag, value))


LEGACY = dict(BelongsToChID='1', SortOrder='1', RTFFile='RTF1.rtf', WordCount='11', LetterCount='77')


def legacy(fmt):
    """The computed and obsolete elements in the file: all, none, or some of them."""
    v = fmt.get('legacy')
    return list(LEGACY) if v is True else [t for t in LEGACY if t in (v or ())]


def encode(spec, fmt=None):
    """Return the text of a project file (without encoding)."""
    fmt = fmt or {}
    e = Enc(fmt)
    e.raw('<?xml version="1.0" encoding="%s"?>\n<YWRITER7>\n<PROJECT>' % fmt.get('header', 'utf-8'))
    e.el('Ver', '7')
    e.el('Title', spec.get('title'))
    e.el('Desc', spec.get('desc'))
    e.el('AuthorName', spec.get('authorName'))
    e.el('Bio', spec.get('authorBio'))
    for i in '1234':
        e.el('FieldTitle' + i, spec.get('fieldTitle' + i))
    e.el('WordTarget', spec.get('wordTarget'))
    e.el('WordCountStart', spec.get('wordCountStart'))
    e.junk('project')
    pf = fmt.get('projectfields', [])
    if pf:
        e.raw('<Fields>')
        for tag, value in pf:
            e.el(tag, value)
        e.raw('</Fields>')
    e.raw('</PROJECT>\n')
    for key, sect, tag, srt in (('locations', 'LOCATIONS', 'LOCATION', 'srtLocations'), ('items', 'ITEMS', 'ITEM', 'srtItems'),
                                ('characters', 'CHARACTERS', 'CHARACTER', 'srtCharacters')):
        e.raw(f'<{sect}>')
        for i in spec[srt]:
            d = spec[key][i]
            e.raw(f'<{tag}>')
            e.el('ID', i)
            e.el('Title', d.get('title'))
            e.el('ImageFile', d.get('image'))
            e.el('Desc', d.get('desc'))
            e.el('AKA', d.get('aka'))
            e.el('Tags', d.get('tags'))
            if key == 'characters':
                e.el('Notes', d.get('notes'))
                e.el('Bio', d.get('bio'))
                e.el('Goals', d.get('goals'))
                e.el('FullName', d.get('fullName'))
                if d.get('isMajor'):
                    e.el('Major', '-1')
            e.junk('world', tag + i)
            kw = {k: v for k, v in d.get('kwVar', {}).items() if v}
            if kw and fmt.get('split'):
                for k, v in [*kw.items(), ('Field_Other', 'x')]:
                    e.raw('<Fields>')
                    e.el(k, v)
                    e.raw('</Fields>')
            elif kw:
                e.raw('<Fields>')
                for k, v in kw.items():
                    e.el(k, v)
                e.raw('</Fields>')
            e.raw(f'</{tag}>\n')
        e.raw(f'</{sect}>\n')
    if spec['srtPrjNotes'] or not fmt.get('nonotes'):
        e.raw('<PROJECTNOTES>')
        for i in spec['srtPrjNotes']:
            d = spec['projectNotes'][i]
            e.raw('<PROJECTNOTE>')
            e.el('ID', i)
            e.el('Title', d.get('title'))
            e.el('Desc', d.get('desc'))
            e.junk('note', i)
            e.raw('</PROJECTNOTE>')
        e.raw('</PROJECTNOTES>\n')
    pv = fmt.get('projectvars')
    if pv is not None:
        e.raw('<PROJECTVARS>')
        for i, title, desc in pv:
            e.raw('<PROJECTVAR>')
            e.el('ID', i)
            e.el('Title', title)
            e.el('Desc', desc)
            e.el('Tags', '0')
            e.raw('</PROJECTVAR>')
        e.raw('</PROJECTVARS>\n')
    e.raw('<SCENES>')
    for i, d in spec['scenes'].items():
        e.raw('<SCENE>')
        e.el('ID', i)
        e.el('Title', d.get('title'))
        if 'xtype' in d:        # explicit type encoding: (unused, scenetype)
            unused, stype = d['xtype']
        else:
            unused, stype = [(False, None), (True, '1'), (True, '2'), (True, '0')][d.get('scType') or 0]
        for tag in legacy(fmt):
            e.el(tag, LEGACY[tag])
        e.el('Desc', d.get('desc'))
        fields = []
        if stype is not None:
            fields.append(('Field_SceneType', stype))
        fields.append(('Field_SceneArcs', d.get('scnArcs')))
        if d.get('scnMode'):
            fields.append(('Field_SceneMode', d['scnMode']))
        fields += fmt.get('junk', {}).get('scenefields' + i, [])
        fields = [f for f in fields if f[1] is not None]
        if fields:
            e.raw('<Fields>')
            for k, v in fields:
                e.el(k, v)
            e.raw('</Fields>')
        e.el('Status', d.get('status'))
        e.el('SceneContent', d.get('sceneContent'))
        if unused:
            e.el('Unused', '-1')
        if 'xexport' in d:
            cond, rtf = d['xexport']
            if cond:
                e.el('ExportCondSpecific', '')
            if rtf:
                e.el('ExportWhenRTF', '-1')
        elif d.get('doNotExport'):
            e.el('ExportCondSpecific', '')
        e.el('Notes', d.get('notes'))
        e.el('Tags', d.get('tags'))
        for k in '1234':
            e.el('Field' + k, d.get('field' + k))
        if d.get('appendToPrev'):
            e.el('AppendToPrev', '-1')
        if d.get('isReactionScene'):
            e.el('ReactionScene', '-1')
        if d.get('isSubPlot'):
            e.el('SubPlot', '-1')
        e.el('Goal', d.get('goal'))
        e.el('Conflict', d.get('conflict'))
        e.el('Outcome', d.get('outcome'))
        e.el('ImageFile', d.get('image'))
        if 'xwhen' in d:
            for k, v in d['xwhen']:
                e.el(k, v)
        elif d.get('date'):
            e.el('SpecificDateTime', d['date'] + ' ' + d['time'])
            e.el('SpecificDateMode', '-1')
        else:
            e.el('Day', d.get('day'))
            if d.get('time'):
                h, m, __ = d['time'].split(':')
                e.el('Hour', str(int(h)) if fmt.get('short') else h)
                e.el('Minute', str(int(m)) if fmt.get('short') else m)
        e.el('LastsDays', d.get('lastsDays'))
        e.el('LastsHours', d.get('lastsHours'))
        e.el('LastsMinutes', d.get('lastsMinutes'))
        for key, sect, tag in (('characters', 'Characters', 'CharID'), ('locations', 'Locations', 'LocID'), ('items', 'Items', 'ItemID')):
            v = list(d.get(key) or []) + list(d.get('x' + key) or [])
            if v:
                e.raw(f'<{sect}>' + ''.join(f'<{tag}>{x}</{tag}>' for x in v) + f'</{sect}>')
        e.junk('scene', i)
        e.raw('</SCENE>\n')
    e.raw('</SCENES>\n<CHAPTERS>')
    for i in spec['srtChapters']:
        d = spec['chapters'][i]
        e.raw('<CHAPTER>')
        e.el('ID', i)
        e.el('Title', d.get('title'))
        e.el('Desc', d.get('desc'))
        if 'xtype' in d:
            unused, ytype, ctype = d['xtype']
        else:
            unused, ytype, ctype = [(False, '0', '0'), (True, '1', '1'), (True, '1', '2'), (True, '1', '0')][d.get('chType') or 0]
        if 'SortOrder' in legacy(fmt):
            e.el('SortOrder', '3')
        if unused:
            e.el('Unused', '-1')
        fields = []
        if 'xfields' in d:
            fields = list(d['xfields'])
        else:
            for a, t in (('suppressChapterTitle', 'Field_SuppressChapterTitle'), ('suppressChapterBreak', 'Field_SuppressChapterBreak'),
                         ('isTrash', 'Field_IsTrash')):
                if d.get(a):
                    fields.append((t, '1'))
        fields += fmt.get('junk', {}).get('chapterfields' + i, [])
        if fields:
            e.raw('<Fields>')
            for k, v in fields:
                e.el(k, v)
            e.raw('</Fields>')
        if d.get('chLevel'):
            e.el('SectionStart', '-1')
        if ytype is not None:
            e.el('Type', ytype)
        if ctype is not None:
            e.el('ChapterType', ctype)
        v = list(d['srtScenes'])
        v = v + list(d.get('xscenes') or [])
        if v:
            e.raw('<Scenes>' + ''.join(f'<ScID>{x}</ScID>' for x in v) + '</Scenes>')
        e.junk('chapter', i)
        e.raw('</CHAPTER>\n')
    e.raw('</CHAPTERS>\n')
    e.junk('root')
    e.raw('</YWRITER7>\n')
    return ''.join(e.out)


def write(path, spec, fmt=None):
    if fmt is None:
        fmt = {}
        if spec.get('languageCode') is not None or spec.get('countryCode') is not None:
            fmt['projectvars'] = [(str(i), k, v) for i, (k, v) in enumerate((('Language', spec['languageCode']), ('Country', spec['countryCode'])), 1) if v is not None]
    text = encode(spec, fmt)
    enc = fmt.get('encoding', 'utf-8')
    with open(path, 'w', encoding=enc, newline='') as f:
        f.write(text)
    return text


# ------------------------------------------------------------------- decoder

def _t(e, tag):
    x = e.find(tag)
    if x is None:
        return None
    return x.text or ''


def chapter_type(unused, ytype, ctype):
    if ctype is not None:
        if ctype in ('1', '2'):
            return int(ctype)
        return 3 if unused else 0
    if ytype is not None:
        if ytype == '1':
            return 1
        return 3 if unused else 0
    return 0


def scene_type(unused, stype):
    if stype in ('1', '2'):
        return int(stype)
    return 3 if unused else 0


def decode(path):
    """Decode a project file into a specification."""
    with open(path, 'rb') as f:
        data = f.read()
    return decode_tree(ET.fromstring(data))


def decode_tree(root):
    p = root.find('PROJECT')
    spec = dict(title=_t(p, 'Title'), desc=_t(p, 'Desc'), authorName=_t(p, 'AuthorName'), authorBio=_t(p, 'Bio'))
    for i in '1234':
        spec['fieldTitle' + i] = _t(p, 'FieldTitle' + i)
    for a, t in (('wordTarget', 'WordTarget'), ('wordCountStart', 'WordCountStart')):
        v = _t(p, t)
        spec[a] = int(v) if v is not None else None
    for key, sect, srt in (('locations', 'LOCATIONS', 'srtLocations'), ('items', 'ITEMS', 'srtItems'), ('characters', 'CHARACTERS', 'srtCharacters')):
        spec[key] = decode_world(root.find(sect), key == 'characters')
        spec[srt] = list(spec[key])
    spec['projectNotes'] = {}
    if root.find('PROJECTNOTES') is not None:
        for e in root.find('PROJECTNOTES'):
            spec['projectNotes'][_t(e, 'ID')] = dict(title=_t(e, 'Title'), desc=_t(e, 'Desc'))
    spec['srtPrjNotes'] = list(spec['projectNotes'])
    spec['scenes'] = {}
    for e in root.find('SCENES'):
        d = {}
        for a, t in (('title', 'Title'), ('desc', 'Desc'), ('sceneContent', 'SceneContent'), ('notes', 'Notes'), ('field1', 'Field1'),
                     ('field2', 'Field2'), ('field3', 'Field3'), ('field4', 'Field4'), ('lastsDays', 'LastsDays'), ('lastsHours', 'LastsHours'),
                     ('lastsMinutes', 'LastsMinutes'), ('goal', 'Goal'), ('conflict', 'Conflict'), ('outcome', 'Outcome'), ('image', 'ImageFile')):
            d[a] = _t(e, t)
        v = _t(e, 'Status')
        d['status'] = int(v) if v is not None else None
        v = _t(e, 'Tags')
        d['tags'] = v.split(';') if v else []
        stype = _t(e, 'Fields/Field_SceneType')
        d['scType'] = scene_type(e.find('Unused') is not None, stype)
        d['scnArcs'] = _t(e, 'Fields/Field_SceneArcs')
        v = _t(e, 'Fields/Field_SceneMode')
        d['scnMode'] = int(v) if v else None
        d['doNotExport'] = e.find('ExportCondSpecific') is not None and e.find('ExportWhenRTF') is None
        for a, t in (('appendToPrev', 'AppendToPrev'), ('isReactionScene', 'ReactionScene'), ('isSubPlot', 'SubPlot')):
            d[a] = e.find(t) is not None
        d['date'] = d['time'] = d['day'] = None
        v = _t(e, 'SpecificDateTime')
        if v is not None:
            d['date'], d['time'] = v.split(' ')
        else:
            d['day'] = _t(e, 'Day')
            h, m = _t(e, 'Hour'), _t(e, 'Minute')
            if h is not None or m is not None:
                d['time'] = '%02d:%02d:00' % (int(h or 0), int(m or 0))
        for a, s, t in (('characters', 'Characters', 'CharID'), ('locations', 'Locations', 'LocID'), ('items', 'Items', 'ItemID')):
            d[a] = [x.text for x in e.findall(f'{s}/{t}')]
        spec['scenes'][_t(e, 'ID')] = d
    spec['chapters'] = {}
    for e in root.find('CHAPTERS'):
        d = dict(title=_t(e, 'Title'), desc=_t(e, 'Desc'), chLevel=1 if e.find('SectionStart') is not None else 0)
        d['chType'] = chapter_type(e.find('Unused') is not None, _t(e, 'Type'), _t(e, 'ChapterType'))
        for a, t in (('suppressChapterTitle', 'Field_SuppressChapterTitle'), ('suppressChapterBreak', 'Field_SuppressChapterBreak'),
                     ('isTrash', 'Field_IsTrash')):
            d[a] = _t(e, 'Fields/' + t) == '1'
        d['srtScenes'] = [x.text for x in e.findall('Scenes/ScID')]
        spec['chapters'][_t(e, 'ID')] = d
    spec['srtChapters'] = list(spec['chapters'])
    return spec


def decode_world(sect, char):
    r = {}
    for e in sect:
        d = dict(title=_t(e, 'Title'), image=_t(e, 'ImageFile'), desc=_t(e, 'Desc'), aka=_t(e, 'AKA'), kwVar={})
        v = _t(e, 'Tags')
        d['tags'] = v.split(';') if v else []
        if char:
            for a, t in (('notes', 'Notes'), ('bio', 'Bio'), ('goals', 'Goals'), ('fullName', 'FullName')):
                d[a] = _t(e, t)
            d['isMajor'] = e.find('Major') is not None
        f = e.find('Fields')
        if f is not None:
            for x in f:
                d['kwVar'][x.tag] = x.text
        r[_t(e, 'ID')] = d
    return r


def projectvars(root):
    sect = root.find('PROJECTVARS')
    if sect is None:
        return []
    return [(_t(e, 'ID'), _t(e, 'Title'), _t(e, 'Desc'), _t(e, 'Tags')) for e in sect]


def cdata_report(data):
    """Return the list of tags of leaf elements (from CDATA_TAGS) having text outside CDATA sections."""
    bad = []
    stack = []
    state = dict(cdata=False)

    def start(tag, attrs):
        stack.append([tag, '', ''])

    def end(tag):
        t, inside, outside = stack.pop()
        if t in CDATA_TAGS and outside:
            bad.append(t)

    def chars(s):
        if stack:
            stack[-1][1 if state['cdata'] else 2] += s

    p = xml.parsers.expat.ParserCreate()
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars

    def cs():
        state['cdata'] = True

    def ce():
        state['cdata'] = False
    p.StartCdataSectionHandler = cs
    p.EndCdataSectionHandler = ce
    p.Parse(data, True)
    return bad


def leaf_texts(e, skip=()):
    """All (path, text) of the leaves below an element, in order."""
    r = []

    def walk(x, path):
        if len(x) == 0:
            r.append((path, x.text or ''))
        for k, v in sorted(x.attrib.items()):
            r.append((path + '@' + k, v))
        for c in x:
            walk(c, path + '/' + c.tag)
    for c in e:
        if c.tag not in skip:
            walk(c, c.tag)
    return r


def anomalies(root, scene_types=None, chapter_types=None):
    """What no file written by yWriter 7 has: elements that exclude each other, elements that occur twice, type marks that contradict each other."""
    bad = []
    for path in ('SCENES/SCENE', 'CHAPTERS/CHAPTER', 'CHARACTERS/CHARACTER', 'LOCATIONS/LOCATION', 'ITEMS/ITEM', 'PROJECTNOTES/PROJECTNOTE', 'PROJECTVARS/PROJECTVAR', 'PROJECT'):
        seen = set()
        for e in root.findall(path):
            i = e.findtext('ID')
            what = f'{e.tag} {i}'
            if path != 'PROJECT':
                if i in seen:
                    bad.append(what + ' occurs twice')
                seen.add(i)
            tags = [x.tag for x in e if not x.tag.startswith('Xtra')]
            f = e.find('Fields')
            if f is not None:
                tags += [x.tag for x in f if x.tag != 'Field_Foreign']
            for t in sorted(set(tags)):
                if tags.count(t) > 1:
                    bad.append(f'{what} has {t} twice')
            if e.tag == 'SCENE':
                if 'SpecificDateTime' in tags:
                    bad += [f'{what} has SpecificDateTime and {t}' for t in ('Day', 'Hour', 'Minute') if t in tags]
                if ('SpecificDateTime' in tags) != ('SpecificDateMode' in tags):
                    bad.append(what + ' has only one of SpecificDateTime and SpecificDateMode')
                if ('Hour' in tags) != ('Minute' in tags):
                    bad.append(what + ' has only one of Hour and Minute')
                if 'ExportWhenRTF' in tags and 'ExportCondSpecific' not in tags:
                    bad.append(what + ' has ExportWhenRTF without a condition')
                for t in ('WordCount', 'LetterCount', 'RTFFile', 'BelongsToChID'):
                    if t in tags:
                        bad.append(f'{what} has {t}')
                if scene_types is not None:
                    have = (e.findtext('Unused'), e.findtext('Fields/Field_SceneType'))
                    want = [(None, None), ('-1', '1'), ('-1', '2'), ('-1', '0')][scene_types[i] or 0]
                    if have != want:
                        bad.append(f'{what} has the type marks {have}, expected {want}')
            elif e.tag == 'CHAPTER' and chapter_types is not None:
                have = (e.findtext('Unused'), e.findtext('Type'), e.findtext('ChapterType'))
                want = [(None, '0', '0'), ('-1', '1', '1'), ('-1', '1', '2'), ('-1', '1', '0')][chapter_types[i] or 0]
                if have != want:
                    bad.append(f'{what} has the type marks {have}, expected {want}')
            if 'SortOrder' in tags and e.tag not in ('PROJECT', 'SCENE'):
                bad.append(what + ' has SortOrder')
    return bad
