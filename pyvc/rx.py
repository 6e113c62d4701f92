"""Regular expressions of the code, decided for all strings.

A pattern (taken from the tree under check) is parsed by Python's own parser
(re._parser) into a prioritised NFA; the thread list of a backtracking matcher
(ordered, duplicates dropped) is a finite state, so the question whether the
pattern does the same as a specification automaton on every string of the
specification's language is a reachability question on a finite product. The
alphabet is the partition of all code points by the character sets that occur.

  lang_equal(p, mode, q)   p.match / .fullmatch / .search accepts exactly what q
                           accepts as a whole
  tokens(p, spec)          p.findall(s) gives exactly the marked tokens of every s
                           of a specification automaton
Both give None or a counterexample string.
"""
import re
import re._parser as sp
import re._constants as sc
import numpy as np
from collections import deque

N = 0x110000
ALL = ''.join(map(chr, range(N)))


class RxUnsupported(Exception):
    pass


_cat = {}


def category(pat, flags=0):
    k = (pat, flags & re.ASCII)
    if k not in _cat:
        a = np.zeros(N, bool)
        for m in re.compile(pat + '+', flags & re.ASCII).finditer(ALL):
            a[m.start():m.end()] = True
        _cat[k] = a
    return _cat[k]


CATS = {sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D', sc.CATEGORY_SPACE: r'\s',
        sc.CATEGORY_NOT_SPACE: r'\S', sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}


def cset(s):
    """mask of a character class given as the text of a regular expression"""
    return charmask(sp.parse(s)[0], 0)


def charmask(node, flags):
    op, av = node
    a = np.zeros(N, bool)
    if op is sc.LITERAL:
        a[av] = True
    elif op is sc.NOT_LITERAL:
        a[av] = True
        a = ~a
    elif op is sc.ANY:
        a[:] = True
        if not flags & re.DOTALL:
            a[10] = False
    elif op is sc.IN:
        neg = False
        for o, v in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                a[v] = True
            elif o is sc.RANGE:
                a[v[0]:v[1] + 1] = True
            elif o is sc.CATEGORY:
                a = a | category(CATS[v], flags)
            else:
                raise RxUnsupported(str(o))
        if neg:
            a = ~a
    else:
        return None
    return a


class Prog:
    """instructions: ('char', mask) ('split', [targets]) ('save', n) ('assert', kind)
    ('match',); all but split fall through"""

    def __init__(self, pattern, flags=0):
        if isinstance(pattern, bytes):
            pattern = pattern.decode('latin1')
            flags |= re.ASCII
            self.bytes = True
        else:
            self.bytes = False
        self.pattern = pattern
        tree = sp.parse(pattern, flags)
        self.flags = tree.state.flags
        if self.flags & (re.IGNORECASE | re.LOCALE):
            raise RxUnsupported('flags')
        self.groups = tree.state.groups - 1
        self.code = []
        self.masks = []
        self.looks = []
        self.emit(tree)
        self.code.append(('match',))

    def emit(self, seq):
        for node in seq:
            self.node(node)

    def node(self, node):
        op, av = node
        C = self.code
        m = charmask(node, self.flags)
        if m is not None:
            C.append(('char', len(self.masks)))
            self.masks.append(m)
        elif op is sc.BRANCH:
            jumps = []
            n = len(av[1])
            for k, alt in enumerate(av[1]):
                if k < n - 1:
                    here = len(C)
                    C.append(None)
                    self.emit(alt)
                    jumps.append(len(C))
                    C.append(None)
                    C[here] = ('split', [here + 1, len(C)])
                else:
                    self.emit(alt)
            for j in jumps:
                C[j] = ('split', [len(C)])
        elif op is sc.SUBPATTERN:
            g, add, dele, p = av
            if add or dele:
                raise RxUnsupported('inline flags')
            if g is not None:
                C.append(('save', 2 * g))
            self.emit(p)
            if g is not None:
                C.append(('save', 2 * g + 1))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            lazy = op is sc.MIN_REPEAT
            if hi != 1 and p.getwidth()[0] == 0 and not (hi is not sc.MAXREPEAT and lo == hi):
                raise RxUnsupported('repeat of a possibly empty expression')
            if lo > 30 or (hi is not sc.MAXREPEAT and hi > 30):
                raise RxUnsupported('large repeat')
            for _ in range(lo):
                self.emit(p)
            if hi is sc.MAXREPEAT:
                here = len(C)
                C.append(None)
                self.emit(p)
                C.append(('split', [here]))
                t = [here + 1, len(C)]
                C[here] = ('split', t[::-1] if lazy else t)
            else:
                holes = []
                for _ in range(hi - lo):
                    holes.append(len(C))
                    C.append(None)
                    self.emit(p)
                for h in holes:
                    t = [h + 1, len(C)]
                    C[h] = ('split', t[::-1] if lazy else t)
        elif op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING, sc.AT_END, sc.AT_END_STRING,
                      sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                k = str(av)
                if self.flags & re.MULTILINE and av is sc.AT_BEGINNING:
                    k = 'LINE_BEGIN'
                if self.flags & re.MULTILINE and av is sc.AT_END:
                    k = 'LINE_END'
                C.append(('assert', k))
            else:
                raise RxUnsupported(str(av))
        elif op in (sc.ASSERT, sc.ASSERT_NOT) and av[0] > 0:
            body = Prog.__new__(Prog)
            body.flags, body.code, body.masks, body.looks, body.groups = self.flags, [], [], [], 0
            body.emit(av[1])
            body.code.append(('match',))
            if body.looks:
                raise RxUnsupported('lookahead in a lookahead')
            C.append(('assert', ('look', len(self.looks), op is sc.ASSERT_NOT)))
            self.looks.append(body)
        else:
            raise RxUnsupported(str(op))


END = -1


class Alphabet:
    """classes 0..n-1 of code points; class self.nl + 0 is a newline that is not the last
    character, the extra class n is a newline that is the last character"""

    def __init__(self, masks):
        nl = np.zeros(N, bool)
        nl[10] = True
        ms = list(masks) + [nl, category(r'\w')]
        h = np.zeros(N, np.uint64)
        rng = np.random.RandomState(7)
        for m in ms:
            h ^= np.where(m, rng.randint(1, 2 ** 63, dtype=np.uint64), np.uint64(0))
        _, first, inv = np.unique(h, return_index=True, return_inverse=True)
        self.n = len(first)
        self.rep = []
        pref = [ord(c) for c in 'abxyzABZ0123456789_-.:,+[] \n'] + list(range(33, 127))
        for k, f in enumerate(first):
            c = next((p for p in pref if inv[p] == k), int(f))
            self.rep.append(chr(c))
        self.nl = int(inv[10])
        self.word = [bool(category(r'\w')[ord(c)]) for c in self.rep]
        self.syms = list(range(self.n)) + [self.n]      # self.n: final newline
        self.rep.append('\n')
        self.word.append(False)

    def has(self, mask):
        return frozenset(s for s in self.syms if mask[ord(self.rep[s])])

    def after(self, s):
        """what may follow symbol s ('o': any but the newlines)"""
        if s == self.n:
            return [END]
        if s == self.nl:
            return self.syms
        return self.syms + [END]


def word_char(alpha, s):
    return s != END and s is not None and alpha.word[s]


class Sim:
    """ordered thread list of one pattern over an alphabet"""

    def __init__(self, prog, alpha):
        self.p, self.a = prog, alpha
        self.sets = [alpha.has(m) for m in prog.masks]

    def closure(self, pcs, first, prevword, nxt):
        """ordered list of (pc at char/match) from an ordered list of pcs; saves ignored"""
        out, seen = [], set()

        def go(pc):
            if pc in seen:
                return
            seen.add(pc)
            ins = self.p.code[pc]
            if ins[0] == 'split':
                for t in ins[1]:
                    go(t)
            elif ins[0] == 'save':
                go(pc + 1)
            elif ins[0] == 'assert':
                if self.holds(ins[1], first, prevword, nxt):
                    go(pc + 1)
            else:
                out.append(pc)
        for pc in pcs:
            go(pc)
        return out

    def holds(self, kind, first, prevword, nxt):
        a = self.a
        if kind in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
            return first
        if kind == 'AT_END':
            return nxt == END or nxt == a.n
        if kind == 'AT_END_STRING':
            return nxt == END
        w = bool(prevword) != word_char(a, nxt)
        if isinstance(kind, tuple):
            raise RxUnsupported('lookahead')
        if kind == 'AT_BOUNDARY':
            return w
        if kind == 'AT_NON_BOUNDARY':
            return not w
        raise RxUnsupported(kind)


def accepts(prog, alpha, how):
    """start state and step function of a deterministic automaton; state at END: bool.
    how: 'fullmatch', 'match', 'search', 'match_all' (the match found first spans the string)"""
    sim = Sim(prog, alpha)

    def start():
        return ((0,), True, None, None)

    def step(st, nxt):
        """st: (pcs or True, first, prevword, best); returns the next state, or bool at END"""
        pcs, first, pw, best = st
        if pcs is True or pcs is False:
            return pcs if nxt == END else st
        pcs = list(pcs)
        if how == 'search' and not first:
            pcs.append(0)
        lst = sim.closure(pcs, first, pw, nxt)
        nlst = []
        for pc in lst:
            if prog.code[pc][0] == 'match':
                if how == 'fullmatch':
                    if nxt == END:
                        return True
                    continue
                if how == 'match_all':
                    if nxt == END:
                        best = 'end'
                    else:
                        best = 'early'
                    break
                return True if nxt == END else (True, None, None, None)
            nlst.append(pc)
        if nxt == END:
            return best == 'end' if how == 'match_all' else False
        adv = tuple(pc + 1 for pc in nlst if nxt in sim.sets[prog.code[pc][1]])
        if not adv and how != 'search':
            return (False, None, None, None)
        return (adv, False, alpha.word[nxt], best)
    return start, step


def lang_equal(p, how, q, qhow='fullmatch'):
    """None, or (string, p accepts it, q accepts it)"""
    alpha = Alphabet(p.masks + q.masks)
    s1, t1 = accepts(p, alpha, how)
    s2, t2 = accepts(q, alpha, qhow)
    init = (s1(), s2())
    seen = {(init, None): None}
    todo = deque([(init, None)])
    while todo:
        key = todo.popleft()
        (a, b), last = key
        for nxt in (alpha.syms + [END] if last is None else alpha.after(last)):
            x, y = t1(a, nxt), t2(b, nxt)
            if nxt == END:
                if x != y:
                    return word(alpha, seen, key), x, y
                continue
            last2 = nxt if nxt in (alpha.n, alpha.nl) else 'o'
            k2 = ((x, y), last2)
            if k2 not in seen:
                seen[k2] = (key, nxt)
                todo.append(k2)
                if len(seen) > 200000:
                    raise RxUnsupported('too many states')
    return None


def word(alpha, seen, key):
    out = []
    while seen[key] is not None:
        key, s = seen[key]
        out.append(alpha.rep[s])
    return ''.join(reversed(out))


# ---- findall ----------------------------------------------------------------------------------

class Spec:
    """Deterministic automaton with marks. trans[q] = [(mask, q', closing, opening)],
    final[q] = closing or absent. closing/opening: frozensets of ('s', g), ('e', g), 'end';
    they apply at the boundary before the character; 'end' (in closing) ends a token,
    opening belongs to what follows."""

    def __init__(self, start, trans, final):
        self.start, self.trans, self.final = start, trans, final

    def masks(self):
        return [m for ts in self.trans.values() for m, *_ in ts]

    def tokens(self, s, groups):
        """the tokens of a concrete string, or None"""
        q = self.start
        out, cur = [], {}

        def ev(evs, pos):
            nonlocal cur
            for e in evs:
                if e != 'end':
                    cur[e] = pos

        def close():
            nonlocal cur
            t = tuple(s[cur[('s', g)]:cur[('e', g)]] if ('s', g) in cur else '' for g in range(1, groups + 1))
            out.append(t if groups > 1 else t[0])
            cur = {}
        for i, c in enumerate(s):
            for m, q2, cl, op in self.trans.get(q, ()):
                if m[ord(c)]:
                    ev(cl, i)
                    if 'end' in cl:
                        close()
                    ev(op, i)
                    q = q2
                    break
            else:
                return None
        if q not in self.final:
            return None
        ev(self.final[q], len(s))
        if 'end' in self.final[q]:
            close()
        return out


def tokens(prog, spec, wholegroup=False):
    """None if prog.findall gives the marked tokens on every non-empty string of the
    specification, else a counterexample string (or the bad configuration).
    wholegroup: the pattern has no groups; group 1 is the whole match."""
    code = prog.code
    alpha = Alphabet(prog.masks + spec.masks())
    sim = Sim(prog, alpha)
    G = max(prog.groups, 1)
    wg = wholegroup and prog.groups == 0
    trans = {}
    for q, ts in spec.trans.items():
        t = {}
        for m, q2, cl, op in ts:
            for s in alpha.has(m):
                if s in t:
                    raise RxUnsupported('specification not deterministic')
                t[s] = (q2, frozenset(cl), frozenset(op))
        trans[q] = t

    # co-accessible states per last symbol
    def succ(q, s):
        return trans.get(q, {}).get(s)
    alive = set()
    qs = set(trans) | set(spec.final)
    change = True
    nodes = [(q, l) for q in qs for l in ('o', alpha.nl, alpha.n, None)]

    def lastof(s):
        return s if s in (alpha.nl, alpha.n) else 'o'
    while change:
        change = False
        for q, l in nodes:
            if (q, l) in alive:
                continue
            for s in alpha.after(l):
                if s == END:
                    ok = q in spec.final
                else:
                    t = succ(q, s)
                    ok = t is not None and (t[0], lastof(s)) in alive
                if ok:
                    alive.add((q, l))
                    change = True
                    break

    def nexts(q, l):
        for s in alpha.after(l):
            if s == END:
                if q in spec.final:
                    yield END, None, frozenset(spec.final[q]), frozenset()
            else:
                t = succ(q, s)
                if t is not None and (t[0], lastof(s)) in alive:
                    yield s, t[0], t[1], t[2]

    UNSET = 'u'

    def closure(threads, first, pw, nxt, evs):
        """threads: ordered [(pc, regs)]; regs: per group status"""
        out, seen = [], set()

        def go(pc, regs):
            if pc in seen:
                return
            seen.add(pc)
            ins = code[pc]
            if ins[0] == 'split':
                for t in ins[1]:
                    go(t, regs)
            elif ins[0] == 'save':
                g, end = divmod(ins[1], 2)
                go(pc + 1, save(regs, g, end, evs))
            elif ins[0] == 'assert':
                if sim.holds(ins[1], first, pw, nxt):
                    go(pc + 1, regs)
            else:
                out.append((pc, regs))
        for pc, regs in threads:
            go(pc, regs)
        return out

    # group status: 'u' unset; ('o', ok, here) opened; ('c', ok, empty) closed
    def save(regs, g, end, evs):
        r = list(regs)
        if not end:
            r[g - 1] = ('o', ('s', g) in evs, True)
        else:
            st = r[g - 1]
            if st == UNSET or st[0] == 'c':
                r[g - 1] = ('c', False, False)
            else:
                r[g - 1] = ('c', st[1] and ('e', g) in evs, st[2])
        return tuple(r)

    def advance(regs):
        if wg:
            return (regs[0], True)
        return tuple(('o', r[1], False) if r[0] == 'o' else r for r in regs[:-1]) + (True,)

    def verdict(regs, seen_groups, at_end, nonempty):
        if not (at_end and nonempty):
            return 'bad'
        for g in range(1, prog.groups + 1):
            r = regs[g - 1]
            if g in seen_groups:
                if not (r[0] == 'c' and r[1] and not r[2]):
                    return 'bad'
            elif r != UNSET and not (r[0] == 'c' and r[2]) and not r[0] == 'o':
                return 'bad'
        if wg:
            # whole match: must begin where group 1 begins
            if regs[0] is not True:
                return 'bad'
        return 'good'

    regs0 = tuple([UNSET] * prog.groups) + (False,)
    # configuration: (q, last, first, prevword, inside) at a token boundary
    parent = {}
    start = (spec.start, None, True, None)
    starts = deque([start])
    startseen = {start: None}       # -> path (list of symbols) as linked list

    def path_of(node):
        out = []
        while node is not None:
            node, s = node
            if s is not None:
                out.append(s)
        return out[::-1]

    def finish(q, l, path):
        """complete a symbol path to a string of the language"""
        todo = deque([((q, l), ())])
        seen = {(q, l)}
        while todo:
            (q, l), p = todo.popleft()
            for s, q2, _, _ in nexts(q, l):
                if s == END:
                    return ''.join(alpha.rep[x] for x in list(path) + list(p))
                k = (q2, lastof(s))
                if k not in seen:
                    seen.add(k)
                    todo.append((k, p + (s,)))
        return ''.join(alpha.rep[x] for x in path)

    total = 0
    while starts:
        sk = starts.popleft()
        q0, l0, first0, pw0 = sk
        # state: (q, last, first, pw, threads, best, phase, groups seen, begun)
        init = (q0, l0, first0, pw0, (), None, 'before', frozenset())
        seen = {init: (startseen[sk], None)}
        todo = deque([init])
        while todo:
            st = todo.popleft()
            q, l, first, pw, threads, best, phase, gseen = st
            for s, q2, cl, op in nexts(q, l):
                if first and s == END:
                    continue                      # the empty string is treated on its own
                if st == init:
                    if not first0 and 'end' not in cl:
                        continue                  # no token ends here
                    evs, ends = op, False
                elif phase == 'before':
                    ends = 'end' in cl
                    evs = cl if ends else cl | op
                else:
                    evs, ends = frozenset(), False
                gs = gseen | {e[1] for e in evs if e != 'end' and e[0] == 's'}
                lst = list(threads)
                if best is None:
                    lst.append((0, regs0 if not wg else (('s', 1) in evs, False)))
                lst = closure(lst, first, pw, s, evs)
                b = best
                keep = []
                for pc, regs in lst:
                    if code[pc][0] == 'match':
                        b = verdict(regs, gs, ends, regs[-1])
                        break
                    keep.append((pc, regs))
                node = seen[st]
                here = path_of(node)
                ph = 'after' if ends or phase == 'after' else 'before'
                if ends:
                    k2 = (q, l, False, pw)
                    if k2 not in startseen:
                        startseen[k2] = node
                        starts.append(k2)
                if s == END:
                    want = 'good' if ph == 'after' else None
                    if b != want:
                        return finish(q, l, here)
                    continue
                adv = tuple((pc + 1, advance(regs)) for pc, regs in keep
                            if s in sim.sets[code[pc][1]])
                if not adv and b is not None:
                    if b != 'good':
                        return finish(q2, lastof(s), here + [s])
                    continue
                if b is None and ph == 'after' and not adv:
                    return finish(q2, lastof(s), here + [s])
                st2 = (q2, lastof(s), False, alpha.word[s], adv, b, ph, gs)
                if st2 not in seen:
                    seen[st2] = (node, s)
                    todo.append(st2)
                    total += 1
                    if total > 300000:
                        raise RxUnsupported('too many states')
    return None


# ---- single characters, inclusion -------------------------------------------------------------

def single(prog):
    """mask of the characters the pattern matches, if it only ever matches single characters
    (wherever they stand); else None"""
    if any(i[0] == 'assert' for i in prog.code):
        raise RxUnsupported('assertion')
    alpha = Alphabet(prog.masks)
    start, step = accepts(prog, alpha, 'fullmatch')
    mask = np.zeros(N, bool)
    ok = []
    for s in alpha.syms:
        st = step(start(), s)
        ok.append(step(st, END) is True)
    h = np.zeros(N, bool)
    # masks of the classes
    for s in range(alpha.n):
        if ok[s]:
            c = ord(alpha.rep[s])
            m = np.ones(N, bool)
            for pm in prog.masks + [category(r'\w')]:
                m &= (pm == pm[c])
            if s != alpha.nl:
                m[10] = False
            else:
                m[:] = False
                m[10] = True
            mask |= m
    q = Prog('.', re.DOTALL)
    q.masks[0] = mask
    if lang_equal(prog, 'fullmatch', q) is not None:
        return None
    return mask


def included(p, phow, q, qhow):
    """None, or a string that p accepts and q does not"""
    alpha = Alphabet(p.masks + q.masks)
    s1, t1 = accepts(p, alpha, phow)
    s2, t2 = accepts(q, alpha, qhow)
    init = (s1(), s2())
    seen = {(init, 'o'): None}
    todo = deque([(init, 'o')])
    while todo:
        key = todo.popleft()
        (a, b), last = key
        for nxt in alpha.after(last):
            x, y = t1(a, nxt), t2(b, nxt)
            if nxt == END:
                if x and not y:
                    return word(alpha, seen, key)
                continue
            k2 = ((x, y), nxt if nxt in (alpha.n, alpha.nl) else 'o')
            if k2 not in seen:
                seen[k2] = (key, nxt)
                todo.append(k2)
                if len(seen) > 200000:
                    raise RxUnsupported('too many states')
    return None


# ---- findall up to white space -----------------------------------------------------------------

class Look:
    """the body of a lookahead, as a set of threads"""

    def __init__(self, prog, alpha):
        self.p = prog
        if any(i[0] == 'assert' for i in prog.code):
            raise RxUnsupported('assertion in a lookahead')
        self.sets = [alpha.has(m) for m in prog.masks]
        self.start = self.close([0])

    def close(self, pcs):
        out, todo = set(), list(pcs)
        while todo:
            pc = todo.pop()
            if pc in out:
                continue
            out.add(pc)
            ins = self.p.code[pc]
            if ins[0] == 'split':
                todo += ins[1]
            elif ins[0] == 'save':
                todo.append(pc + 1)
        return frozenset(pc for pc in out if self.p.code[pc][0] in ('char', 'match'))

    def step(self, st, s):
        return self.close([pc + 1 for pc in st if self.p.code[pc][0] == 'char' and s in self.sets[self.p.code[pc][1]]])

    def accepts(self, st):
        return any(self.p.code[pc][0] == 'match' for pc in st)


def pieces(prog, spec, inert):
    """None if on every string of the specification the pieces that findall gives (the whole
    matches), without inert characters around them and without those that are nothing else, are the
    pieces of the specification; else a counterexample string. The specification marks with 'B' (in
    opening) the characters, other than inert ones, that begin a piece."""
    code = prog.code
    if prog.groups:
        raise RxUnsupported('findall with groups')
    alpha = Alphabet(prog.masks + spec.masks() + [inert] + [m for l in prog.looks for m in l.masks])
    blank = alpha.has(inert)
    looks = [Look(l, alpha) for l in prog.looks]
    trans = {}
    for q, ts in spec.trans.items():
        t = trans[q] = {}
        for m, q2, cl, op in ts:
            for s in alpha.has(m):
                if s in t:
                    raise RxUnsupported('specification not deterministic')
                t[s] = (q2, 'B' in op)
    bits = [()]
    for _ in looks:
        bits = [b + (v,) for b in bits for v in (False, True)]
    lastof = lambda s: s if s in (alpha.nl, alpha.n) else 'o'
    sim = Sim(prog, alpha)

    def oblige(obl, s, b):
        """promises about the rest of the string, after a symbol; None: a promise is broken"""
        new = set()
        for k, st, promised in list(obl) + [(k, l.start, b[k]) for k, l in enumerate(looks)]:
            if looks[k].accepts(st):
                if not promised:
                    return None
                continue
            st = looks[k].step(st, s)
            if looks[k].accepts(st):
                if not promised:
                    return None
            elif not st:
                if promised:
                    return None
            else:
                new.add((k, st, promised))
        return frozenset(new)

    def lang(q, l, obl):
        """the next symbols of the language, with what the lookaheads say before each"""
        for s in alpha.after(l):
            if s == END:
                if q in spec.final and not any(p and not looks[k].accepts(st) for k, st, p in obl):
                    yield END, tuple(l.accepts(l.start) for l in looks), None, None, None
                continue
            t = trans.get(q, {}).get(s)
            if t is None:
                continue
            for b in bits:
                o = oblige(obl, s, b)
                if o is not None:
                    yield s, b, t[0], t[1], o

    completions = {}

    def complete(q, l, obl):
        """shortest rest of a string of the language, or None"""
        k0 = (q, l, obl)
        if k0 not in completions:
            todo, seen = deque([(k0, ())]), {k0}
            completions[k0] = None
            while todo:
                k, p = todo.popleft()
                for s, b, q2, _, o in lang(*k):
                    if s == END:
                        completions[k0] = p
                        todo.clear()
                        break
                    k2 = (q2, lastof(s), o)
                    if k2 not in seen:
                        seen.add(k2)
                        todo.append((k2, p + (s,)))
        return completions[k0]

    def holds(kind, first, pw, s, b):
        if isinstance(kind, tuple):
            return b[kind[1]] != kind[2]
        return sim.holds(kind, first, pw, s)

    def closure(pcs, first, pw, s, b):
        """threads before the symbol, and whether the best of the others has matched"""
        out, seen = [], set()

        def go(pc):
            if pc in seen:
                return False
            seen.add(pc)
            ins = code[pc]
            if ins[0] == 'split':
                return any(go(t) for t in ins[1])
            if ins[0] == 'save':
                return go(pc + 1)
            if ins[0] == 'assert':
                return holds(ins[1], first, pw, s, b) and go(pc + 1)
            if ins[0] == 'match':
                return True
            out.append(pc)
            return False
        return out, any(go(pc) for pc in pcs)

    class Bad(Exception):
        pass

    # scanner: threads since the start of the match (None: at a start); does what they have read
    # begin with a piece and go on with it; the same at the best end so far; what was read since;
    # the character before the start, and is it the start of the string
    fresh = (None, (False, True), None, (), None)

    def feed(sc, first, pw, sym):
        """one symbol (s, bits, begins); END has s == END"""
        threads, cur, best, rest, at = sc
        s, b, begins = sym
        if threads is None:
            threads, cur, best, rest, at = (0,), (False, True), None, (), (first, pw)
        lst, hit = closure(threads, first, pw, s, b)
        if hit and (rest or best is not None or threads != (0,) or at != (first, pw)):
            best, rest = (cur, (first, pw)), ()
        elif hit:
            raise RxUnsupported('empty match')
        adv = () if s == END else tuple(pc + 1 for pc in lst if s in sim.sets[code[pc][1]])
        if adv:
            if s in blank:
                cur2 = cur
            else:
                cur2 = (True, cur[1] and begins == (not cur[0]))
            if best is None and (rest[:1] == ('lost',) or not rest and s not in blank):
                rest = ('lost',)
            else:
                rest = rest + (sym,) if len(rest) < 6 else rest[:6] + ('more',)
            return (adv, cur2, best, rest, at)
        if best is None:
            # no match here: the first character is left out
            again = rest + (sym,)
            if 'lost' in again:
                raise Bad()
            if 'more' in again:
                raise RxUnsupported('long way back')
            if s == END and not rest:
                return fresh
            if again[0][0] not in blank:
                raise Bad()
            first, pw = False, alpha.word[again[0][0]]
            again = again[1:]
        else:
            (some, ok), (first, pw) = best
            if not ok:
                raise Bad()
            again = rest + (sym,)
            if 'more' in again:
                raise RxUnsupported('long way back')
        sc = fresh
        for y in again:
            sc = feed(sc, first, pw, y)
            if y[0] != END:
                first, pw = False, alpha.word[y[0]]
        return sc

    init = (spec.start, None, frozenset(), True, None, fresh)
    seen = {init: None}
    todo = deque([init])

    def found(st, more):
        q, l, obl = more[1:]
        out = [] if more[0] is None else [more[0]]
        while seen[st] is not None:
            st, s = seen[st]
            out.append(s)
        c = complete(q, l, obl)
        return None if c is None else ''.join(alpha.rep[s] for s in out[::-1] + list(c))

    while todo:
        st = todo.popleft()
        q, l, obl, first, pw, sc = st
        for s, b, q2, begins, o in lang(q, l, obl):
            if s == END and first:
                continue
            try:
                sc2 = feed(sc, first, pw, (s, b, begins))
            except Bad:
                w = found(st, (None, q, l, obl) if s == END else (s, q2, lastof(s), o))
                if w is not None:
                    return w
                continue
            if s == END:
                continue
            st2 = (q2, lastof(s), o, False, alpha.word[s], sc2)
            if st2 not in seen:
                seen[st2] = (st, s)
                todo.append(st2)
                if len(seen) > 200000:
                    raise RxUnsupported('too many states')
    return None
