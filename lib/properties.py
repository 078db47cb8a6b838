"""The properties, and how each of them is checked.

Each file of the directory props describes some properties with P(...)."""
import glob
import os

PROPERTIES = {}   # The lines of properties.jsonl.
SPECS = {}        # How check.py builds and runs the check.
MANIFEST = {}     # The text parts of MANIFEST.json.
NOT_APPLICABLE = {}


def P(id, title, statement, over, forall, why, files, mechanism, spec=None,
      technique=None, note=None, level=None, na=None, state=None,
      observe=None):
    assert id not in PROPERTIES, id
    assert len(title) <= 80, title
    anchors = {
        'files': files,
        'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
    }
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w}
                            for n, m, w in state]
    if observe:
        anchors['observe_at'] = observe
    PROPERTIES[id] = {
        'id': id,
        'title': title,
        'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(forall.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': anchors,
    }
    if na:
        NOT_APPLICABLE[id] = ' '.join(na.split())
        return
    parts = spec if isinstance(spec, list) else [spec]
    if level is None:
        level = ('model_checking' if any(p['kind'] == 'mc' for p in parts)
                 else 'exploration')
    SPECS[id] = {'parts': parts, 'level': level}
    MANIFEST[id] = {
        'technique': ' '.join(technique.split()),
        'level': level,
        'level_note': ' '.join(note.split()),
    }


NAMESPACE = {'P': P}
for f in sorted(glob.glob(os.path.join(os.path.dirname(
        os.path.abspath(__file__)), 'props', '*.py'))):
    with open(f, encoding='utf-8') as h:
        exec(compile(h.read(), f, 'exec'), NAMESPACE)
