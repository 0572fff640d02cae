"""Write the reproductions of the known findings (known/*.json)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import gen

KNOWN = {
    'P14-apostrophe': ('P14', 'strict', dict(novel=gen.blank_novel({'1': gen.blank_scene(title='T', sceneContent='text')}), dir='d', name='p', converter=True, docs=[''], strict=True)),
    'P17-blanks': ('P17', 'strict', dict(novel=gen.blank_novel(items={'1': gen.blank_world(desc='two  blanks')}), docs=['_items'], name='p')),
    'P26-blanks': ('P26', 'strict', dict(novel=gen.blank_novel(items={'1': gen.blank_world(desc='x')}), doc='_itemlist', mode='edited', edits=[['set', 0, 1, 'two  blanks', []]], seed=0, name='p', strict=True)),
    'P27-blanks': ('P27', 'strict', dict(novel=gen.blank_novel({'1': gen.blank_scene(title='T', desc='x')}), mode='edited', edits=[['set', 0, 2, 'two  blanks', [], 0]], seed=0, name='p', strict=True)),
}
os.makedirs(os.path.join(V, 'known'), exist_ok=True)
for name, (pid, part, case) in KNOWN.items():
    with open(os.path.join(V, 'known', name + '.json'), 'w') as f:
        json.dump(dict(property=pid, part=part, case=case), f, indent=1)
