"""Writes properties.jsonl and MANIFEST.json (one table, so that they agree).
Run by hand after editing; the outputs are committed."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # properties, with their checks
NA = []         # (property id, reason)


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                               observe_at=observe, hook_needed=None),
                  technique=technique, note=note))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note')}) + '\n')
man = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': f'./run.sh {p["id"]} --tier quick',
        'thorough_cmd': f'./run.sh {p["id"]} --tier thorough',
        'evidence_file': f'evidence/{p["id"]}.json',
        'technique': p['technique'],
        'level': 'model_checking',
        'level_note': p['note'],
    } for p in P],
    'not_applicable': [{'property': i, 'reason': r} for i, r in NA],
    'notes': 'All checks import the code under test from /repo (VERIF_REPO overrides it for experiments) and need no build. '
             'Every check explores a bounded space exhaustively; there is no random choice, so VERIF_SEED does not change what is covered.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
