"""Typed heap schema of udapi's objects (which attributes exist and what they hold)."""
import z3
from pyvc.core import *

CLASSES = {
    'Node': 'udapi.core.node.Node', 'Root': 'udapi.core.root.Root', 'EmptyNode': 'udapi.core.node.EmptyNode',
    'OrdTuple': 'udapi.core.node.OrdTuple', 'ListOfNodes': 'udapi.core.node.ListOfNodes',
    'CycleError': 'udapi.core.node.CycleError', 'MWT': 'udapi.core.mwt.MWT',
    'Bundle': 'udapi.core.bundle.Bundle', 'Document': 'udapi.core.document.Document',
    'DualDict': 'udapi.core.dualdict.DualDict', 'Feats': 'udapi.core.feats.Feats',
    'OtherDualDict': 'udapi.core.coref.OtherDualDict',
    'CorefMention': 'udapi.core.coref.CorefMention', 'CorefMentionSubspan': 'udapi.core.coref.CorefMentionSubspan',
    'CorefEntity': 'udapi.core.coref.CorefEntity', 'BridgingLinks': 'udapi.core.coref.BridgingLinks',
    'BridgingLink': 'udapi.core.coref.BridgingLink',
    'Block': 'udapi.core.block.Block', 'Run': 'udapi.core.run.Run', 'Files': 'udapi.core.files.Files',
    'BaseReader': 'udapi.core.basereader.BaseReader', 'Conllu': 'udapi.block.read.conllu.Conllu',
}

ANYNODE = RefT('Node', 'Root')
S_ = Un('none', 'str')


NODE_FIELDS = {
    '_ord': Int, 'form': S_, 'lemma': S_, 'upos': S_, 'xpos': S_, 'deprel': S_,
    '_misc': RefT('DualDict', nullable=True), '_raw_deps': S_,
    '_deps': ListT(RecT(parent=RefT('Node', 'Root', 'EmptyNode'), deprel=S_), nullable=True),
    '_feats': RefT('Feats', nullable=True), '_parent': RefT('Node', 'Root', nullable=True),
    '_children': ListT(RefT('Node')), '_root': RefT('Root'), '_mwt': RefT('MWT', nullable=True),
    '_mentions': ListT(RefT('CorefMention')),
}
FIELDS = {
    'Node': NODE_FIELDS,
    'EmptyNode': {'_ord': Real},
    'Root': {
        '_sent_id': S_, '_zone': S_, '_bundle': RefT('Bundle', nullable=True),
        '_descendants': ListT(RefT('Node')), '_mwts': ListT(RefT('MWT')), 'empty_nodes': ListT(RefT('EmptyNode')),
        'text': S_, 'comment': S_, 'newpar': OpaqueT(), 'newdoc': OpaqueT(), 'json': OpaqueT(),
    },
    'MWT': {'words': ListT(RefT('Node')), 'form': S_, '_misc': RefT('DualDict', nullable=True), 'root': RefT('Root', nullable=True)},
    'Bundle': {'trees': ListT(RefT('Root')), 'number': Int, '_bundle_id': S_, '_document': RefT('Document', nullable=True)},
    'Document': {'bundles': ListT(RefT('Bundle')), '_highest_bundle_id': Int, 'meta': OpaqueT(), 'json': OpaqueT(),
                 '_eid_to_entity': OpaqueT()},
    'DualDict': {'_string': S_, '_dict': DictT(Str, Str, nullable=True), 'empty_serialization': OpaqueT()},
}
PARENT = {'Root': 'Node', 'EmptyNode': 'Node', 'Feats': 'DualDict', 'OtherDualDict': 'DualDict'}


def opaque_mapping_init(I, st, env, node):
    """Feats(x)/DualDict(x) for an x whose type is not modelled (tree contracts)."""
    if isinstance(env.get('value'), VOpaque):
        I.ctx.trusted.add('Feats(value)/DualDict(value) of arbitrary keyword arguments either raise or affect only the new mapping object')
        s2 = st.copy().assume(I.ctx.fresh('badmapping', z3.BoolSort()))
        return [(st, VNone()), (s2, I.exc('ValueError', node))]
    return None


class Schema:
    def __init__(self):
        self.ghosts = {
            '@alloc': lambda c: z3.ArraySort(c.Ref, z3.BoolSort()),
            '@dep': lambda c: z3.ArraySort(c.Ref, z3.IntSort()),
        }
        self.fields = {k: dict(v) for k, v in FIELDS.items()}
        self.parent = dict(PARENT)
        self.classes = dict(CLASSES)
        self.func_handlers = {}
        self.externals = {}
        self.constructors = {}
        self.kwarg_types = {('udapi.core.node.Node.__init__', n): S_ for n in ('form', 'lemma', 'upos', 'xpos', 'deprel')}
        self.kwarg_types.update({('udapi.core.node.Node.__init__', n): OpaqueT() for n in ('feats', 'misc')})
        self.func_handlers['udapi.core.dualdict.DualDict.__init__'] = opaque_mapping_init

    def cinfo(self, prog, simple):
        q = self.classes.get(simple)
        return prog.find_class(q) if q else None

    def fkey(self, cls, f):
        c = cls
        while c is not None:
            if f in self.fields.get(c, {}):
                return f'{c}.{f}'
            c = self.parent.get(c)
        return None

    def field(self, key):
        c, _, f = key.partition('.')
        return self.fields[c][f]

    def eq_by_str(self, cl):
        return cl in ('DualDict', 'Feats', 'OtherDualDict')

    def global_const(self, name, module):
        return None

    def list_attrs(self, I, st, cls):
        if cls == 'ListOfNodes':
            I.origin = I.fresh_of(st, ANYNODE, 'origin')
            return {'origin': I.origin}
        return {}

    def str_handler(self, I, st, v, node):
        return None

    def contains_handler(self, I, st, x, c, node):
        return None

    def getitem_handler(self, I, st, c, i, node):
        return None

    def setitem_handler(self, I, st, c, i, v, node):
        return None

    def iter_handler(self, I, st, v, node):
        return None

    def next_handler(self, I, st, v, node):
        return None

    def str_method(self, I, st, v, name, args, kw, node):
        return None

    def func_handler(self, qual):
        return self.func_handlers.get(qual)

    def external(self, name):
        return self.externals.get(name)

    def construct_handler(self, name):
        return self.constructors.get(name)

    def kwarg_type(self, qual, name):
        return self.kwarg_types.get((qual, name))

    def exc_class(self, prog, name):
        q = self.classes.get(name)
        return prog.find_class(q) if q else None

    def isinstance_ext(self, cl, kn):
        return False
