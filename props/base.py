"""The list of properties: properties.jsonl and MANIFEST.json are generated from it."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = []
NA = []


def P(id, title, statement, over, quant, tests, files, mechanism, tech=None, note=None, state=None, level='other', na=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m} for n, m in state]
    ALL.append({'prop': {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant},
                         'why_tests_cant': tests, 'anchors': anchors},
                'tech': tech, 'note': note, 'level': level, 'na': na})


def emit():
    ids = [a['prop']['id'] for a in ALL]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for a in ALL:
            f.write(json.dumps(a['prop'], ensure_ascii=False) + '\n')
    checks, na = [], []
    for a in ALL:
        i = a['prop']['id']
        if a['na']:
            na.append({'property': i, 'reason': a['na']})
            continue
        assert os.path.exists(os.path.join(ROOT, 'checks', f"{i}.py")), i
        cmd = f"/opt/venv/bin/python checks/{i}.py"
        checks.append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': f"VERIF_TIER=thorough {cmd} --thorough",
                       'evidence_file': f"evidence/{i}.json", 'technique': a['tech'], 'level': a['level'], 'level_note': a['note']})
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python tools_setup.py', 'checks': checks, 'not_applicable': na}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
