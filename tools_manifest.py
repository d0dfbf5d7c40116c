"""Regenerate properties.jsonl and MANIFEST.json from props/ (never run by a check)."""
import glob
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import base
ORDER = ['readers', 'time', 'files', 'ldp', 'vis', 'astro', 'metadata', 'kernels', 'na']
for m in ORDER:
    if os.path.exists(os.path.join(base.ROOT, 'props', m + '.py')):
        importlib.import_module(f"props.{m}")
base.emit()
try:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import json, jsonschema
    jsonschema.validate(json.load(open(base.ROOT+'/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(base.ROOT+'/properties.jsonl'):
        jsonschema.validate(json.loads(l), s)
    print('valid', len(base.ALL))
except ImportError:
    pass
