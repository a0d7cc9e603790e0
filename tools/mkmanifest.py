"""Writes MANIFEST.json from properties.jsonl and the property modules."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'reference-model monitor over generated policies and requests',
    'C02': 'reference-model monitor of rule combining over exhaustive short and random outcome sequences',
    'C03': 'reference-model monitor of policy combining over exhaustive short and random trees',
    'C04': 'fault injection at every hooked call with an online fail-safe monitor',
    'C05': 'reference-model monitor of target matching',
    'C06': 'reference-model monitor of designator bags',
    'C07': 'monitor of logged context handler calls and merged bags',
    'C08': 'result monitor against an independent definition of each function',
    'C09': 'monitor of refused calls over the matrix of functions and argument kinds',
    'C10': 'monitor of lookup and registration histories',
    'C11': 'content monitor over equivalent spellings and sources of generated documents',
    'C12': 'monitor of refused loads over structural mutations of documents',
    'C13': 'monitor of resolved references over generated policy directories',
    'C14': 'offline history checker with before/after snapshots',
    'C15': 'round-trip monitor with content snapshots',
    'C16': 'round-trip monitor with content snapshots',
    'C17': 'copy and pickle monitor with content snapshots',
    'C18': 'selection monitor against an independent path evaluator',
    'C19': 'differential monitor of two processes with different XML libraries',
    'C20': 'operation-history monitor against list and dict',
    'C21': 'registration-history monitor',
    'C22': 'assignment-history monitor',
    'C23': 'assignment monitor with object snapshots',
    'C24': 'thread-stress monitor with recorded per-thread results',
    'C25': 'reference-model monitor of single rules',
    'C26': 'call-history monitor in one process against fresh compilation',
    'C27': 'parse-back monitor of printed documents',
    'C28': 'import-history monitor over generated packages',
    'C29': 'audit, inotify, process-state and live-object monitor around each step',
}


def meta(prop):
    path = os.path.join(ROOT, 'vp', 'props', prop.lower() + '.py')
    if not os.path.exists(path):
        return None
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and \
                getattr(node.targets[0], 'id', None) == 'META':
            return ast.literal_eval(node.value)


checks, missing = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    m = meta(p['id'])
    if m is None:
        missing.append(p['id'])
        continue
    note = ('Runtime monitors over seeded workloads, the real code under both '
            'XML libraries (%s); held on everything explored. %s.' % (
                ', '.join(m.get('backends', ['lxml', 'etree'])),
                m['rule'][0].upper() + m['rule'][1:]))
    if m['assumptions']:
        note += ' Assumes: ' + '; '.join(m['assumptions']) + '.'
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 vp/run.py %s quick' % p['id'],
        'thorough_cmd': 'python3 vp/run.py %s thorough' % p['id'],
        'technique': TECH[p['id']],
        'level': 'exploration',
        'level_note': note})
out = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': checks,
    'not_applicable': [{'property': i, 'reason': 'check not built yet'}
                       for i in missing],
    'notes': 'Pure Python: nothing is compiled and no hooks are added to '
             '/repo; the checks import the working tree of /repo directly '
             'under /opt/venv (lxml) and /opt/venv-nolxml (standard '
             'library).'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(checks), 'checks; missing', missing)
