"""P23: notes and todo documents give the text back."""
import re
import zipfile

from checks import p21
from vlib.core import Part

ID = 'P23'
LEVEL = 'exploration'
RULE = ('Generated projects with chapters and scenes of all types, whose texts range over the whole markup grammar, are exported as notes and as todo document with the converter and the unchanged document is imported again. '
        'An independent interpreter turns the stored texts before and after into styled characters, comments and quotations per paragraph; everything else is compared attribute by attribute, and a second round must '
        'keep the result. A third of the documents is brought into the form of version 8, with the scene headings in the sections, before the import. Non-trivial: an exported scene with markup.')
ASSUMPTIONS = p21.ASSUMPTIONS


HEADING = re.compile(r'(<text:h [^>]*text:outline-level="3"[^>]*>(?:(?!</text:h>).)*</text:h>)\s*(<text:section [^>]*text:name="ScID:\d+"[^>]*>)', re.S)


def check(case, ctx):
    def older(doc):
        """Documents made by version 8 and before have the scene heading in the section of the scene."""
        with zipfile.ZipFile(doc) as z:
            parts = {i: z.read(i) for i in z.namelist()}
        text = parts['content.xml'].decode('utf-8')
        parts['content.xml'] = HEADING.sub(r'\2\1', text).encode('utf-8')
        with zipfile.ZipFile(doc, 'w') as z:
            for i in parts:
                z.writestr(i, parts[i])
        ctx.label('document of an older version', HEADING.search(text))

    p21.check(case, ctx, case['doc'], prepare=older if case['older'] else None)
    ctx.label(case['doc'])


def strategy():
    from hypothesis import strategies as st
    return st.tuples(p21.strategy((0, 1, 1, 1, 2, 2, 2, 3)), st.sampled_from(['_notes', '_todo']), st.sampled_from([False, False, True])).map(lambda t: dict(t[0], doc=t[1], older=t[2]))


PARTS = [Part('notes and todo', strategy, check, quick=1400, thorough=20000)]
