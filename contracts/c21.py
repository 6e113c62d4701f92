"""C21: ODIN import: characters and raw tiers."""
from common import *
import regs
import ctor
import xmlstub
from regs import IDS

TRUSTED = ['semantics of str methods, dict.copy, re.sub for patterns that match single characters',
           'the odintxt package is not installed and not called by the functions under contract',
           'numbers differ in their decimal notation']

LEGAL = None


def legal_mask():
    global LEGAL
    if LEGAL is None:
        LEGAL = regs.char_mask(lambda n: n in (9, 10, 13) or 0x20 <= n <= 0xd7ff or 0xe000 <= n <= 0xfffd)
    return LEGAL


def SETUP(E):
    xmlstub.install(E)
    load(E)
    E.module('xigt.importers.odin')
    schema(E)
    regs.install(E, [IDS])
    regs.install_sub(E)


def fn(E, name):
    return E.module('xigt.importers.odin').env.vars[name]


def replaced(E, s, r):
    """specification: legal characters in place, r for every other one"""
    out = E.newlist(Seq())

    def body(ch):
        E.lib.list_method(E, out, 'append', [ch if E.decide(regs.in_class(legal_mask(), ch.t)) else r], {})
    E.stream(E.newlist(regs.chars(E, s)), body)
    return E.lib.join(E, '', out)


def h_chars(E):
    s, r = sym_str(E, 's'), sym_str(E, 'r')
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, fn(E, 'replace_invalid_xml_chars'), s, r))
    prove_frame(E, m, 'replace_invalid_xml_chars')
    same_outcome(E, 'legal characters stay, every other one is replaced', got, ('return', replaced(E, s, r)))


REPL = 'xigt.importers.odin.replace_invalid_xml_chars'


def repl_contract(E):
    def c(E, f, args, kw):
        if len(args) != 2:
            return NotImplemented
        return E.lib.opaque_str(E, 'replaced', args[0], args[1])
    E.contracts[REPL] = c


def unique_ids(E, cont, seq):
    """'r' + decimal notation of different numbers"""
    i, j = E.fresh(I, 'i'), E.fresh(I, 'j')
    ps = seq.parts
    if len(ps) != 1 or not isinstance(ps[0], FM):
        raise Unsupported('members in several parts')
    p = ps[0]
    leaves = p.leaves
    here = E.snap()
    E.assume(z3.And(p.lo <= i, i < p.hi, p.lo <= j, j < p.hi, i != j))
    cands = []
    for x in (i, j):
        row = []
        for l in leaves:
            if len(l.parts) == 1 and isinstance(l.parts[0], FM) and len(l.parts[0].leaves) == 1:
                raise Unsupported('nested members')
            if len(l.parts) != 1 or not isinstance(l.parts[0], Lit):
                raise Unsupported('members %r' % (l.parts,))
            o = subst(l.parts[0], [(p.var, x)]).v
            v = E.force(E.getattr(o, 'id'))
            t = E.term(v)
            number(E, v, t)
            row.append(t)
        cands.append(row)
    for a in cands[0]:
        for b in cands[1]:
            E.prove(a != b, 'raw tier: the ids of the items differ')
    E.restore(here)


def number(E, v, t):
    """decimal notation is injective, so is prefixing"""
    if isinstance(v, SStr) and len(v.parts) == 2 and all(isinstance(q, Lit) for q in v.parts):
        q = v.parts[1].v
        if isinstance(q, SU) and q.t.decl().name() == 'strfn:str':
            n = q.t.arg(0)
            E.fact_once(uf('int:of', U, U)(q.t) == n)
            if n.num_args():
                E.fact_once(unboxint(n) == n.arg(0))
            E.fact_once(uf('unscat', U, U, U)(E.term(v.parts[0].v), t) == q.t)


def h_raw(E):
    repl_contract(E)
    ctor.install(E, unique=unique_ids)
    E.rx_str_lang = True
    block = E.newdict(DVal())
    if E.choose('block has lines'):
        t = z3.Const('in:lines', U)
        E.assume(z3.Not(fresh_p(t)))
        lines = Obj(t, 'list', False, 'dict:str>str')
        E.lib.setitem(E, block, 'lines', lines)
    else:
        lines = E.newlist(Seq())
    r = sym_str(E, 'r')
    options = E.newdict(DVal())
    E.lib.setitem(E, options, 'replacement_char', r)
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, fn(E, 'make_igt_raw_tier'), block, options))
    prove_frame(E, m, 'raw tier: the block')
    if got[0] != 'return':
        E.fail('raw tier: is built', repr(got[1]))
        raise Done()
    tier = got[1]
    prove_same(E, E.content(block) if False else E.dcontent(block).ops[-1][2] if E.dcontent(block).ops else None,
               lines if E.dcontent(block).ops else None, 'raw tier: the block keeps its lines')
    prove_same(E, E.getattr(tier, 'id'), 'r', 'raw tier: its id')
    prove_same(E, E.getattr(tier, 'type'), 'odin', 'raw tier: its type')
    spec = E.newlist(Seq())
    j = E.newlist(Seq())

    def body(p):
        k, d = p
        find = lambda key: E.dict_find(E.dcontent(d), key)
        c = find('content')
        text = E.lib.opaque_str(E, 'replaced', c[0] if c else '', r)
        a = E.lib.dict_method(E, d, 'copy', [], {})
        if c:
            E.lib.delitem(E, a, 'content')
        E.lib.list_method(E, spec, 'append', [(E.lib.concat(E, ['r', E.lib.to_str(E, E.lib.binop(E, 'Add', k, 1))]), a, text)], {})
    E.stream(E.lib.f_enumerate(E, [lines], {}), body)
    items = E.newlist(Seq())

    def view(it):
        E.lib.list_method(E, items, 'append', [(E.getattr(it, 'id'), E.getattr(it, 'attributes'), E.getattr(it, 'text'))], {})
    E.stream(E.newlist(E.content(tier)), view)
    prove_same(E, items, spec, 'raw tier: one item per line, in order, with the other fields as attributes')




RAW = 'xigt.importers.odin.make_igt_raw_tier'
OLAC, DC, XSI = ('http://www.language-archives.org/OLAC/1.1/', 'http://purl.org/dc/elements/1.1/',
                 'http://www.w3.org/2001/XMLSchema-instance')


def a_block(E, *names):
    """a block of odintxt: its igt id, document id, lines and tag types, and maybe a language"""
    block = E.newdict(DVal())
    for k in names:
        E.lib.setitem(E, block, k, sym_str(E, k))
    return block


def h_igt(E):
    """the IGT of a block"""
    none = []
    names = ['igt_id', 'doc_id', 'line_range', 'line_types']
    for k in ('language', 'iso-639-3', 'header_lines'):
        if E.choose('block has ' + k):
            names.append(k)
    for k in ('language', 'iso-639-3'):
        if k not in names and E.choose('%s is None' % k):
            none.append(k)
    if not E.choose('block has an igt_id'):
        names.remove('igt_id')
    block = a_block(E, *[k for k in names if k != 'header_lines'])
    for k in none:
        E.lib.setitem(E, block, k, None)
    val = lambda k: E.dict_find(E.dcontent(block), k)[0] if k in names else None
    if 'igt_id' in names:
        E.assume(IDS.pred(val('igt_id').t))          # precondition: an id
    words = E.lib.str_method(E, val('line_range'), 'split', [], {})
    E.assume(E.int_term(E.lib.f_len(E, [words], {})) == 2)
    first, last = E.lib.getitem(E, words, 0), E.lib.getitem(E, words, 1)
    if 'header_lines' in names:
        t = z3.Const('in:header_lines', U)
        E.assume(z3.Not(fresh_p(t)))
        E.lib.setitem(E, block, 'header_lines', Obj(t, 'list', False, 'str'))
    keep = E.choose('headers are kept')
    options = E.newdict(DVal())
    E.lib.setitem(E, options, 'replacement_char', sym_str(E, 'r'))
    E.lib.setitem(E, options, 'keep_headers', keep)
    tier = {}

    def c_raw(E, f, args, kw):
        b = E.bind(f, args, kw)
        E.prove(z3.BoolVal(b['block'].t.eq(block.t) and b['options'].t.eq(options.t)),
                'igt: the raw tier is that of the block')
        tier['t'] = E.call(model['Tier'], [], {'id': 'r', 'type': 'odin'})
        return tier['t']
    model = E.module('xigt.model').env.vars
    E.contracts[RAW] = c_raw
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, fn(E, 'make_igt'), block, options))
    prove_frame(E, m, 'igt: the block and the options')
    if got[0] != 'return':
        E.fail('igt: is built', repr(got[1]))
        raise Done()
    igt = got[1]
    prove_same(E, E.getattr(igt, 'id'), val('igt_id') if 'igt_id' in names else None, 'igt: its id')
    prove_same(E, E.getattr(igt, 'type'), None, 'igt: its type')
    d = E.newdict(DVal())
    E.lib.setitem(E, d, 'doc-id', val('doc_id'))
    E.lib.setitem(E, d, 'line-range', E.lib.concat(E, [first, '-', last]))
    E.lib.setitem(E, d, 'tag-types', val('line_types'))
    prove_same(E, E.getattr(igt, 'attributes'), d, 'igt: its attributes')
    ts = E.content(igt).parts
    if not tier or len(ts) != 1 or not isinstance(ts[0], Lit) or not ts[0].v.t.eq(tier['t'].t):
        E.fail('igt: its one tier is the raw tier of the block', repr(ts))
        raise Done()
    mds = E.lib.iterate(E, E.getattr(igt, 'metadata')).parts
    if len(mds) != 1 or not isinstance(mds[0], Lit):
        E.fail('igt: one metadata element', repr(mds))
        raise Done()
    metas = [p.v for p in E.lib.iterate(E, E.getattr(mds[0].v, 'metas')).parts]
    header = None
    if keep and 'header_lines' in names:
        h = val('header_lines')
        if E.decide(E.int_term(E.lib.f_len(E, [h], {})) > 0):
            header = E.lib.join(E, '\n', h)
    want = 1 if header is None else 2
    if len(metas) != want:
        E.fail('igt: a header meta if asked for, then the language', repr(metas))
        raise Done()
    for k, x in enumerate(metas):
        prove_same(E, E.getattr(x, 'id'), 'meta%d' % (k + 1), 'igt: ids of the metas')
    if header is not None:
        prove_same(E, E.getattr(metas[0], 'type'), 'odin-header', 'igt: the header meta')
        prove_same(E, E.getattr(metas[0], 'text'), header, 'igt: the header lines')
    st = lambda s, f: E.lib.str_method(E, s, f, [], {})
    lang = val('language') if 'language' in names else ''
    code = val('iso-639-3') if 'iso-639-3' in names else 'und'
    if 'language' in names:
        E.fact_once(z3.Implies(E.term(lang) == E.term(''), E.term(st(st(lang, 'strip'), 'title')) == E.term('')))
    kids = [p.v for p in E.lib.iterate(E, E.getattr(metas[-1], 'children')).parts]
    if len(kids) != 2:
        E.fail('igt: subject and language', repr(kids))
        raise Done()
    for x, name, c, text in ((kids[0], 'subject', st(code, 'strip'), st(st(lang, 'strip'), 'title')),
                             (kids[1], 'language', 'en', 'English')):
        prove_same(E, E.getattr(x, 'name'), name, 'igt: elements of the metadata')
        prove_same(E, E.getattr(x, 'namespace'), DC, 'igt: namespace of %s' % name)
        prove_same(E, E.getattr(x, 'text'), text, 'igt: text of %s' % name)
        d = E.newdict(DVal())
        E.lib.setitem(E, d, '{%s}type' % XSI, 'olac:language')
        E.lib.setitem(E, d, '{%s}code' % OLAC, c)
        prove_same(E, E.getattr(x, 'attributes'), d, 'igt: attributes of %s' % name)


HARNESSES = [('characters', guarded(h_chars)), ('raw tier', guarded(h_raw)), ('igt', guarded(h_igt))]


def h_blocks(E):
    """the IGTs of a file: those of its blocks, in order, read one at a time"""
    fh, options = sym_str(E, 'fh'), E.newdict(DVal())
    t = z3.Const('in:blocks', U)
    E.assume(z3.Not(fresh_p(t)))
    blocks = Obj(t, 'list', False, 'dict:str>str')
    igt_cls, tier_cls = E.module('xigt.model').env.vars['Igt'], E.module('xigt.model').env.vars['Tier']

    def read(E, a, kw):
        E.prove(z3.BoolVal(len(a) == 1 and not kw and a[0] is fh), 'blocks: those of the file')
        return blocks

    def igt_of(b):
        t = uf('igtof', U, U)(b.t)
        E.fact_once(z3.Not(fresh_p(t)))
        return Obj(t, igt_cls, False)

    def c_igt(E, f, args, kw):
        b = E.bind(f, args, kw)
        E.prove(z3.BoolVal(b['options'].t.eq(options.t)), 'blocks: with the options given')
        return igt_of(b['block'])

    def c_get(E, f, args, kw):
        """the IGT of a block has a raw tier (harness igt)"""
        b = E.bind(f, args, kw)
        if b['obj_id'] != 'r':
            return NotImplemented
        t = uf('rawtier', U, U)(b['self'].t)
        E.fact_once(z3.Not(fresh_p(t)))
        return Obj(t, tier_cls, False)
    E.ext_contract['odintxt.odin_blocks'] = read
    E.contracts['xigt.importers.odin.make_igt'] = c_igt
    E.contracts['xigt.mixins.XigtContainerMixin.get'] = c_get
    m = heap_mark(E)
    got = outcome(E, lambda: E.newlist(E.lib.iterate(E, run(E, fn(E, 'odin_igts'), fh, options))))
    prove_frame(E, m, 'blocks')
    spec = E.newlist(Seq())
    E.stream(blocks, lambda b: E.lib.list_method(E, spec, 'append', [igt_of(b)], {}))
    same_outcome(E, 'blocks: one IGT each, in order', got, ('return', spec))


HARNESSES = [('characters', guarded(h_chars)), ('raw tier', guarded(h_raw)), ('igt', guarded(h_igt)),
             ('blocks', guarded(h_blocks))]
