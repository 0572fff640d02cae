"""Comparison of documents as archives."""
import re
import zipfile

from vlib.core import expect, expect_eq


def parts(path):
    """The parts of a document, without the date."""
    with zipfile.ZipFile(path) as z:
        expect(z.testzip() is None, 'damaged archive', path)
        r = {i: z.read(i) for i in z.namelist()}
    r['meta.xml'] = re.sub(rb'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d', b'DATE', r['meta.xml'])
    return r


def same(got, want, what):
    expect_eq(sorted(got), sorted(want), what)
    for k in want:
        if got[k] != want[k]:
            i = next((i for i, (a, b) in enumerate(zip(got[k], want[k])) if a != b), min(len(got[k]), len(want[k])))
            expect(False, f'{what}: {k} differs at {i}', got[k][max(0, i - 40):i + 80], want[k][max(0, i - 40):i + 80])
