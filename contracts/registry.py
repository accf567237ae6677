"""All contracts and the schema."""
import importlib
import json
import os
from .schema import Schema

MODULES = ['tree', 'order', 'bundle', 'reader', 'mapping', 'attrs', 'mwt', 'evalf', 'empty']
HERE = os.path.dirname(os.path.abspath(__file__))


class Registry:
    def __init__(self):
        self.contracts = {}
        self.schema = Schema()
        p = os.path.join(HERE, 'locals.json')
        self.reflocals = json.load(open(p)) if os.path.exists(p) else {}

    def schema_for(self, con):
        return self.schema


def load(modules=None):
    reg = Registry()
    for m in modules or MODULES:
        mod = importlib.import_module('contracts.' + m)
        if hasattr(mod, 'extend_schema'):
            mod.extend_schema(reg.schema)
        for C in mod.ALL:
            con = C()
            reg.contracts[con.qual] = con
    return reg
