"""DESIGN.md from tools/DESIGN.in.md, the planted bugs and the findings"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    rows = ['| bug | caught by | needs | breaks |', '|---|---|---|---|']
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        with open(f) as fh:
            m = json.load(fh)
        rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m.get('caught_by', m['property']),
                                               m['needs'], m['what_it_breaks']))
    with open(os.path.join(HERE, 'KNOWN_FINDINGS.json')) as fh:
        known = json.load(fh)
    with open(os.path.join(HERE, 'tools', 'DESIGN.in.md')) as fh:
        text = fh.read()
    text = text.replace('%(fixed)d', str(len(known['fixed']))).replace('%(table)s', '\n'.join(rows))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as fh:
        fh.write(text)


if __name__ == '__main__':
    main()
