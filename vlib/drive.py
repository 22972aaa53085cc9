"""Driving the code under test: an App over an in-memory world of documents,
with everything it loads recorded at the boundary."""
import copy
import json

from pyopenapi import utils
from pyopenapi.migration.base import ApiBase
from pyopenapi.migration.resolve import Resolver
from pyopenapi.migration.getter import SimpleGetter
from pyopenapi.migration.versions.v1_2 import objects as o1
from pyopenapi.migration.versions.v2_0 import objects as o2
from pyopenapi.migration.versions.v3_0_0 import objects as o3

OBJECTS = {'1.2': o1, '2.0': o2, '3.0.0': o3}


class App(ApiBase):
    raw = None
    root = None
    prepared = None

    def prepare_obj(self, obj, jref):
        if self.prepared is not None:
            self.prepared.append(jref)
        return obj


class World(object):
    """ url -> document; every load is recorded in .loads (the event log) """

    def __init__(self, docs, as_text=False):
        self.docs = docs
        self.loads = []
        self.faults = {}            # url -> list of faults, consumed one by one
        self.as_text = as_text

    def getter(self):
        world = self

        class Recorder(SimpleGetter):
            __simple_getter_callback__ = lambda url: world.fetch(url)  # noqa

        return Recorder

    def fetch(self, url):
        self.loads.append(url)
        pending = self.faults.get(url)
        if pending:
            fault = pending.pop(0)
            if fault is not None:
                return fault(self, url)
        if url not in self.docs:
            raise IOError('404 ' + url)
        doc = copy.deepcopy(self.docs[url])
        return json.dumps(doc) if self.as_text else doc

    def resolver(self, hook=None):
        return Resolver(url_load_hook=hook, default_getter=self.getter())

    def load(self, url, resolver=None, **kw):
        app = App(url, resolver=resolver or self.resolver(), **kw)
        app.raw = app.load_obj(url)
        return app

    def create(self, url, version, resolver=None, **kw):
        app = self.load(url, resolver=resolver, **kw)
        app.root = app.migrate_obj(app.raw, url, version)
        return app


def build(version, name, raw, path='#'):
    """ construct one object, with the path of the location it comes from """
    return getattr(OBJECTS[version], name)(raw, path)


def underlying(proxy):
    """ the object behind a weakref proxy (or itself) """
    return proxy.dump.__self__


def attrs(obj):
    return obj.get_attrs('migration')


def parser_of(version, kind):
    """ what parses an object of this kind, wherever it is found """
    mod = OBJECTS[version]
    if kind == 'PathItem' or version == '2.0' and kind == 'Schema':
        return getattr(mod, kind)
    return getattr(mod, kind + 'OrReference')


def jref(loc):
    """ (url, tokens) -> JSON reference """
    from .grammar import pointer
    return loc[0] + (pointer(loc[1]) if loc[1] else '')
