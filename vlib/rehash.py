"""migrates documents in a process of its own (and of its own hash seed); json in, json out"""
import json
import sys
from vlib import grammar as g
from vlib.drive import World
from checks.c12_sources import observe


def one(job):
    docs, root, final, old = (job[k] for k in ('docs', 'root', 'final', 'old'))
    app = World(docs).create(root, final)
    spec = g.SPECS[final]
    return {
        'seen': observe(spec, app.root, 'http://nowhere/'),
        'relocated': [app.spec_obj_store.relocate(url, jp, '2.0', '3.0.0') for url, jp in old],
        'versions': [app.original_spec_version, app.current_spec_version],
    }


if __name__ == '__main__':
    json.dump([one(job) for job in json.load(sys.stdin)], sys.stdout)
