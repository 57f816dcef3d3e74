"""Write MANIFEST.json."""
import collections
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mv import registry  # noqa

TECHNIQUES = {}
NOTES = {}


def main():
    props = [
        json.loads(line)
        for line in open(os.path.join(ROOT, 'properties.jsonl'))
    ]
    manifest = collections.OrderedDict()
    manifest['version'] = 1
    manifest['setup_cmd'] = (
        '/opt/venv/bin/python -B -c "import mv, mv.runner, mv.gen, mv.model"')
    checks = []
    missing = []
    for prop in props:
        pid = prop['id']
        if pid not in registry.CHECKS:
            missing.append({'property': pid, 'reason': 'the check is not built yet'})
            continue
        info = registry.INFO[pid]
        checks.append(
            collections.OrderedDict(
                property=pid,
                quick_cmd='/opt/venv/bin/python -B -m mv {}'.format(pid),
                thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python -B -m mv {}'.
                format(pid),
                evidence_file='evidence/{}.json'.format(pid),
                technique=info[0],
                level='exploration',
                level_note=info[1]))
    manifest['checks'] = checks
    manifest['not_applicable'] = missing
    manifest['notes'] = (
        'No hooks are needed: the checks use the command line, the documented '
        'functions of mapry and the generated code.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'wt') as fid:
        json.dump(manifest, fid, indent=1)
        fid.write('\n')


main()
