"""Building containers from sequences: the contract of extend (proved for single objects and by
induction under C01/C02) used where other functions construct model objects."""
from common import *

EXTEND = 'xigt.mixins.XigtContainerMixin.extend'
APPEND = 'xigt.mixins.XigtContainerMixin.append'


def install(E, unique=None):
    """unique(E, container, seq): obligation that the ids of the new members are distinct; None:
    they are known to be (the caller's precondition)"""
    def c(E, f, args, kw):
        if len(args) != 2 or kw:
            return NotImplemented
        self, objs = args
        seq = E.lib.iterate(E, objs)
        old = E.content(self)
        if not seq.parts:
            return None
        ct = E.getfield(self, '_contained_type')[0]
        cont = E.getfield(self, '_container')[0]
        allowed(E, seq.parts, ct)
        if all(isinstance(p, Lit) for p in seq.parts) and len(seq.parts) <= 3 and unique is not False:
            return NotImplemented          # few objects: the real code
        if unique:
            unique(E, self, seq)
        E.set_content(self, Seq(old.parts + seq.parts))
        E.write('_dict', self, Poison('id map of a container built by contract'))
        parents(E, seq.parts, cont, [])
        return None
    E.contracts[EXTEND] = c

    def c_append(E, f, args, kw):
        """in a loop over a sequence of any length: as if extended by all at once"""
        if len(args) != 2 or kw or not E.iters or unique is not None:
            return NotImplemented
        self, obj = args
        ct = E.getfield(self, '_contained_type')[0]
        allowed(E, [Lit(obj)], ct)
        E.set_content(self, Seq(E.content(self).parts + (Lit(obj),)))
        E.write('_dict', self, Poison('id map of a container built by contract'))
        E.write('_parent', obj, E.getfield(self, '_container')[0])
        return None
    E.contracts[APPEND] = c_append


def allowed(E, parts, ct):
    for p in parts:
        if isinstance(p, Lit):
            v = p.v
            if not (isinstance(v, Obj) and isinstance(v.cls, UserClass) and issubclass(v.cls.py, ct.py)):
                raise Unsupported('member %r of %s' % (v, ct))
        elif isinstance(p, FM):
            if p.identity:
                v = fresh_var('x')
                allowed(E, [Lit(p.base.elem(v))], ct)
            else:
                for l in p.leaves:
                    allowed(E, l.parts, ct)
        else:
            raise LoopCarried('members from an accumulator')


def parents(E, parts, cont, ctx):
    for p in parts:
        if isinstance(p, Lit):
            E.write('_parent', p.v, cont) if not ctx else None
            if ctx:
                E.heap['_parent'] = E.heap.get('_parent', ()) + (
                    ('bulk', Bulk([(fm.var, fm.lo, fm.hi) for fm, _ in ctx],
                                  [g for _, gs in ctx for g in gs], p.v.t, p.v.fresh, p.v.cls), cont),)
        else:
            if p.identity:
                parents(E, [Lit(p.base.elem(p.var))], cont, ctx + [(p, ())])
            else:
                for l in p.leaves:
                    parents(E, l.parts, cont, ctx + [(p, l.guards)])


# ---- comparing built objects ----------------------------------------------------------------

FIELDS = {'model.XigtCorpus': ('_id', 'type', 'namespace', '_nsmap', 'attributes'),
          'model.Igt': ('_id', 'type', 'namespace', '_nsmap', 'attributes'),
          'model.Tier': ('_id', 'type', 'namespace', '_nsmap', 'attributes'),
          'model.Item': ('_id', 'type', 'namespace', '_nsmap', 'attributes', 'text'),
          'metadata.Metadata': ('_id', 'type', 'namespace', '_nsmap', 'attributes'),
          'metadata.Meta': ('_id', 'type', 'namespace', '_nsmap', 'attributes', 'text'),
          'metadata.MetaChild': ('name', 'namespace', '_nsmap', 'attributes', 'text')}


def deep(E, a, b):
    """two model objects (or plain containers) have the same class, fields and members"""
    if a.cls is not b.cls:
        return E.lib.Diff('%s against %s' % (a.cls, b.cls))
    q = a.cls.qual[5:]
    for f in FIELDS.get(q, ()):
        x, y = E.getfield(a, f), E.getfield(b, f)
        x, y = E.force(x[0]), E.force(y[0])
        r = E.lib._same(E, x, y, deep)
        if not r:
            return E.lib.Diff('%s.%s: %s' % (a.cls.name, f, r.why))
    if q != 'model.Item':
        r = E.lib.seq_same(E, E.content(a).parts, E.content(b).parts, deep)
        if not r:
            return E.lib.Diff('members of %s: %s' % (a.cls.name, r.why))
    md = E.getfield(a, '_md'), E.getfield(b, '_md')
    if all(md):
        r = E.lib.seq_same(E, E.content(md[0][0]).parts, E.content(md[1][0]).parts, deep)
        if not r:
            return E.lib.Diff('metadata of %s: %s' % (a.cls.name, r.why))
    return True
