"""Shape of the model objects of the pre-state, shared by the contracts."""
import z3
from values import *
import engine
from engine import *

MEMBER = {'model.XigtCorpus': 'model.Igt', 'model.Igt': 'model.Tier', 'model.Tier': 'model.Item',
          'metadata.Metadata': 'metadata.Meta', 'metadata.Meta': 'metadata.MetaChild',
          'metadata.MetaChild': 'metadata.MetaChild', 'mixins.XigtContainerMixin': 'metadata.Metadata'}
ALL = ['model.XigtCorpus', 'model.Igt', 'model.Tier', 'model.Item', 'metadata.Metadata', 'metadata.Meta',
       'metadata.MetaChild']
PARENT = {'model.Item': 'opt:obj:xigt.model.Tier', 'model.Tier': 'opt:obj:xigt.model.Igt',
          'model.Igt': 'opt:obj:xigt.model.XigtCorpus', 'metadata.Meta': 'opt:obj:xigt.metadata.Metadata',
          'metadata.MetaChild': 'any', 'metadata.Metadata': 'any', 'model.XigtCorpus': 'absent'}


def load(E):
    for m in ('xigt', 'xigt.consts', 'xigt.errors', 'xigt.mixins', 'xigt.metadata', 'xigt.model'):
        E.module(m)


def schema(E):
    S = E.schema
    for c in ALL:
        q = 'xigt.' + c
        S[q, '_id'] = 'optstr'
        S[q, 'type'] = 'optstr'
        S[q, 'attributes'] = 'dict:str>str'
        S[q, 'namespace'] = 'optstr'
        S[q, '_nsmap'] = 'opt:dict:optstr>str'
        S[q, '_parent'] = PARENT[c]
        if c not in MEMBER:
            for f in ('_dict', '_contained_type', '_container', 'name', '_md'):
                S[q, f] = 'absent'
    for c, m in MEMBER.items():
        q = 'xigt.' + c
        S[q, '@elem'] = 'obj:xigt.' + m
        S[q, '_dict'] = 'dict:str>obj:xigt.' + m
        S[q, '_contained_type'] = lambda E, o, m=m: E.cls('xigt.' + m)
        S[q, '_container'] = lambda E, o: o
    S['xigt.mixins.XigtContainerMixin', '_container'] = lambda E, o: E.preobj(uf('owner', U, U)(o.t), 'xigt.model.Igt')
    for c in ('model.XigtCorpus', 'model.Igt', 'model.Tier'):
        S['xigt.' + c, '_md'] = 'obj:xigt.mixins.XigtContainerMixin'
    for c in ('model.Item', 'metadata.Meta', 'metadata.MetaChild'):
        S['xigt.' + c, 'text'] = 'optstr'
    S['xigt.metadata.MetaChild', 'name'] = 'str'
    S['xigt.model.XigtCorpus', 'mode'] = 'str'
    for c in ('model.XigtCorpus', 'model.Igt', 'model.Tier'):
        S['xigt.' + c, 'text'] = 'absent'
        S['xigt.' + c, 'name'] = 'absent'
    S['xigt.metadata.Meta', 'name'] = 'absent'
    S['xigt.metadata.Metadata', 'name'] = 'absent'
    for c in ('metadata.Meta', 'metadata.MetaChild', 'metadata.Metadata', 'model.Item'):
        S['xigt.' + c, '_md'] = 'absent'
    S['xigt.mixins.XigtContainerMixin', '_md'] = 'absent'
    for f in ('id', 'type', 'attributes', 'namespace', '_parent', 'name', 'text'):
        S['xigt.mixins.XigtContainerMixin', f] = 'absent'
    S['xigt.model.Igt', '_itemdict'] = 'dict:str>obj:xigt.model.Item'


def obj(E, name, cls):
    """a given object of the class"""
    t = z3.Const('in:' + name, U)
    E.fact_once(z3.Not(fresh_p(t)))
    E.fact_once(kindf(t) == 5)
    E.fact_once(t != NONE)
    return E.preobj(t, 'xigt.' + cls)


def fld(name, t):
    return uf('fld:' + name, U, U)(t)


def idf(t):
    return fld('_id', t)
