"""P22: proofreading export and import give the text back."""
from checks import p21
from vlib.core import Part

ID = 'P22'
LEVEL = 'exploration'
RULE = ('Generated projects whose scenes carry texts over the whole markup grammar are exported for proofreading with the converter and the unchanged document is imported again. An independent interpreter turns the stored '
        'texts before and after into styled characters, comments and quotations per paragraph; everything else is compared attribute by attribute, and a second round must keep the result. '
        'Non-trivial: an exported scene with markup.')
ASSUMPTIONS = ['language codes of the form ll or ll-CC', 'lines, those of comments included, do not start with a separator of the scene splitter', 'scene texts do not contain the scene marks of the proof document',
               'obsolete alignment and underline tags are removed', 'trailing white space of a scene is not significant']


def check(case, ctx):
    p21.check(case, ctx, '_proof')


PARTS = [Part('proof', p21.strategy, check, quick=1400, thorough=20000)]
