"""Writes properties.jsonl and MANIFEST.json from one table; a property is listed
once its check exists under checks/."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OBJ = 'pyopenapi/migration/spec/obj.py'
O1 = 'pyopenapi/migration/versions/v1_2/objects.py'
O2 = 'pyopenapi/migration/versions/v2_0/objects.py'
O3 = 'pyopenapi/migration/versions/v3_0_0/objects.py'
BASE = 'pyopenapi/migration/base.py'
STORE = 'pyopenapi/migration/store.py'
UTILS = 'pyopenapi/utils.py'
RES = 'pyopenapi/migration/resolve.py'
GET = 'pyopenapi/migration/getter.py'
SCAN = 'pyopenapi/migration/scan.py'
R2 = 'pyopenapi/migration/versions/v2_0/scanner/resolve.py'
R3 = 'pyopenapi/migration/versions/v3_0_0/scanner/resolve.py'
N2 = 'pyopenapi/migration/versions/v2_0/scanner/norm_ref.py'
M3 = 'pyopenapi/migration/versions/v3_0_0/main.py'
M2 = 'pyopenapi/migration/versions/v2_0/main.py'
CONV = 'pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py'
PCTX = 'pyopenapi/migration/versions/v2_0/scanner/upgrade/parameter_context.py'
U12 = 'pyopenapi/migration/versions/v1_2/scanner/upgrade.py'
COMM = 'pyopenapi/migration/versions/comm.py'

PROPS = []


def P(id_, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    PROPS.append(dict(id=id_, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, technique=technique, note=note, observe=observe))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())  # pylint: disable=exec-used


def main():
    have = {os.path.basename(p).split('_')[0].upper() for p in glob.glob(os.path.join(HERE, 'checks', 'c*_*.py'))}
    props = [p for p in PROPS if p['id'] in have]
    missing = have - {p['id'] for p in PROPS}
    assert not missing, missing
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in props:
            assert len(p['title']) <= 80, p['id']
            anchors = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
            if p['observe']:
                anchors['observe_at'] = p['observe']
            fh.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                anchors=anchors), ensure_ascii=False) + '\n')
    manifest = dict(
        version=1, setup_cmd='./setup.sh',
        checks=[dict(property=p['id'], quick_cmd='./run.sh ' + p['id'],
                     thorough_cmd='VERIF_TIER=thorough ./run.sh ' + p['id'], technique=p['technique'],
                     level='exploration', level_note=p['note']) for p in props],
        not_applicable=[],
        notes='Runtime monitoring of pure Python: reference models, hooked invariants and history checkers watch the '
              'real code under generated workloads. See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(manifest, fh, indent=1)
        fh.write('\n')


main()
