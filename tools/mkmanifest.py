"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'TLA+ specification (%s), TLC model checking; conformance: %s'
CLAIMS = {
    'P01': ('Pipeline/BatchContract/BatchTrace',
            'recorded runs of the real generator under controlled schedules, '
            'partly taken from the specification, validated by TLC'),
    'P02': ('VectorSplit/EventTrace',
            'TLC-enumerated cases replayed on the code, recorded batches '
            'validated by TLC'),
    'P03': ('Pipeline/PipelineStall/EndlessTrace',
            'recorded endless runs under controlled schedules validated by '
            'TLC'),
}
extra = os.path.join(V, 'tools', 'claims.json')
if os.path.exists(extra):
    for k, v in json.load(open(extra)).items():
        CLAIMS[k] = tuple(v)
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if pid in CLAIMS and os.path.exists(
            os.path.join(V, 'checks', pid.lower() + '.py')):
        checks.append({
            'property': pid, 'quick_cmd': 'bin/check %s quick' % pid,
            'thorough_cmd': 'bin/check %s thorough' % pid,
            'technique': TECH % CLAIMS[pid][:2],
            'level': 'model_checking',
            'level_note': CLAIMS[pid][2] if len(CLAIMS[pid]) > 2 else
            'the specification is explored exhaustively within the bounds '
            'given in DESIGN.md; the real code is bound to it by the listed '
            'conformance checks'})
    else:
        na.append({'property': pid, 'reason': 'not built yet'})
json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks,
           'not_applicable': na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
