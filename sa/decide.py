"""Deciding obligations over the intermediate representation.

An obligation is a formula over the entry relations that must be valid.  It is
PROVED when the abstract domain entails it, REFUTED when the analysis can name
a finite state of the entry relations in which it fails whatever the parts the
analysis does not understand do, and UNKNOWN otherwise.  Only REFUTED raises an
alarm."""

import itertools

from .logic import *          # noqa: F401,F403
from . import logic as L
from . import values

PROVED, UNKNOWN, REFUTED = 'PROVED', 'UNKNOWN', 'REFUTED'


class Verdict:
    def __init__(self, status, why=''):
        self.status = status
        self.why = why

    def __repr__(self):
        return '%s %s' % (self.status, self.why)


def opaque_atoms(f):
    """Atoms (also below quantifiers) whose truth the analysis gave up on."""
    return [a for a in atoms_of(f).values() if atom_opaque(a)]


def atom_opaque(a):
    if a.kind == 'opq':
        return True
    if a.kind == 'rel' and a.args[0].startswith('cur:'):
        return True
    if any(k[1].startswith('cur:') for x in a.args if isinstance(x, Val)
           for k in syms_in(x) if isinstance(k, tuple) and len(k) > 1 and
           isinstance(k[1], str)):
        return True
    for x in a.args:
        if isinstance(x, Val) and has_opaque(x):
            return True
        if isinstance(x, (Atom, tuple)) and a.kind in ('ex', 'card') and \
                any(atom_opaque(y) for y in atoms_of(x).values()):
            return True
    return False


def forall_opaque(f):
    """Strengthen f to hold whatever the opaque atoms are, or None."""
    os = opaque_atoms(f)
    if len(os) > 5:
        return None
    for a in os:
        f = And(fassign(f, {a.key: True}), fassign(f, {a.key: False}))
        if f is False:
            return False
    return f


def decide(eng, pre, goal, limit=60000):
    """Does pre entail goal?"""
    bad = And(pre, Not(goal))
    if bad is False:
        return Verdict(PROVED)
    bad = nnf_quant(eng, bad)
    try:
        m = eng.model(bad, limit) if not isinstance(bad, bool) else {}
    except L.Budget:
        m = 'budget'
    if m is None:
        return Verdict(PROVED)
    strong = forall_opaque(bad)
    if strong is None or strong is False:
        return Verdict(UNKNOWN, 'depends on parts outside of the abstraction')
    w = witness(eng, strong, limit)
    if w is None:
        return Verdict(UNKNOWN, 'neither entailed nor refuted')
    return Verdict(REFUTED, w)


def nnf_quant(eng, f):
    return f


def _terms(fs):
    """Closed terms of formulas, those below quantifiers included."""
    out = {}
    seen = set()

    def bound(t):
        return any(x.name.startswith('$') for x in syms_in(t).values())

    def add(t):
        if isinstance(t, Sym):
            if not t.name.startswith('$'):
                out.setdefault(t.key(), t)
        elif isinstance(t, (Const, ObjV)):
            out.setdefault(t.key(), t)
        elif isinstance(t, App):
            for x in t.args:
                if isinstance(x, Val):
                    add(x)
            if not bound(t):
                out.setdefault(t.key(), t)
        elif isinstance(t, TupleV):
            for x in t.items:
                add(x)
        elif isinstance(t, IteV):
            add(t.a)
            add(t.b)
            walk(t.c)

    def walk(f):
        for a in atoms_of(f).values():
            if a.key in seen:
                continue
            seen.add(a.key)
            if a.kind in ('ex', 'card'):
                walk(a.args[1])
                continue
            for x in a.args:
                if isinstance(x, Val):
                    add(x)
    for f in fs:
        if not isinstance(f, bool):
            walk(f)
    return out


def witness(eng, f, limit):
    """Description of a finite state in which f holds, or None."""
    ax = eng.axioms_for(f)
    goal = And(f, *ax)
    try:
        m = L.find_model(f, ax, limit)
    except L.Budget:
        return None
    if m is None:
        return None
    atoms = atoms_of(goal)
    needed = _terms([f] + list(eng.facts))
    terms = dict(needed)
    for k, t in _terms(ax).items():
        terms.setdefault(k, t)
    # classes of equal terms
    par = {k: k for k in terms}

    def rank(t):
        return (isinstance(t, (Const, ObjV)) and 2) or \
            (isinstance(t, Sym) and 1) or 0

    def find(k):
        while par[k] != k:
            k = par[k]
        return k

    def union(x, y):
        x, y = find(x), find(y)
        if x != y:
            if rank(terms[x]) > rank(terms[y]) or (
                    rank(terms[x]) == rank(terms[y]) and x in needed):
                par[y] = x
            else:
                par[x] = y
    for k, v in m.items():
        a = atoms.get(k)
        if a is not None and a.kind == 'eq' and v:
            x, y = a.args[0].key(), a.args[1].key()
            if x in par and y in par:
                union(x, y)
    reps = {}
    for k, t in terms.items():
        r = find(k)
        # terms that occur in the formula come first
        reps[r] = min(reps.get(r, 9), 0 if k in needed else 1)
    order = sorted(reps, key=lambda k: reps[k])
    must = [k for k in order if reps[k] == 0]
    universe = [terms[k] for k in order[:max(9, min(len(must), 14))]]
    if len(must) > 14:
        # too many to tell apart: the surplus ones are all the same
        for k in must[14:]:
            if rank(terms[k]) == 2:
                return None
            par[k] = must[13]
        universe = [terms[k] for k in must[:14]]
    for n in range(2):
        # (one more element that is in no relation, should a quantifier need
        # something different from everything named)
        uni = universe + [Sym('other!%d' % i) for i in range(n)]
        r = _ground(eng, f, m, atoms, terms, find, uni, limit)
        if r is not None:
            return r
    return None


def _ground(eng, f, m, atoms, terms, find, uni, limit):
    mp = {k: terms[find(k)] for k in terms if find(k) != k}
    mp = {k: t for k, t in mp.items() if t.key() != k}
    uk = {t.key() for t in uni}
    budget = [30000]
    memo = {}

    def rep(g):
        return eng.subst(g, mp) if mp else g

    def expand(g):
        if isinstance(g, bool):
            return g
        k = fkey(g)
        if k in memo:
            return memo[k]
        budget[0] -= 1
        if budget[0] < 0:
            raise L.Budget()
        if isinstance(g, Atom):
            if g.kind == 'eq':
                a, b = g.args
                if a.key() == b.key():
                    r = True
                elif a.key() in uk and b.key() in uk:
                    r = False
                else:
                    r = g
            elif g.kind in ('ex', 'card'):
                b, body = g.args[0], g.args[1]
                n = 1 if g.kind == 'ex' else g.args[2]
                insts = [expand(eng.subst(body, {b: t})) for t in uni]
                if n == 1:
                    r = Or(*insts)
                else:
                    r = Or(*[And(*S) for S in
                             itertools.combinations(insts, n)])
            else:
                r = g
        elif g[0] == 'n':
            r = Not(expand(g[1]))
        else:
            r = (And if g[0] == '&' else Or)(*[expand(x) for x in g[1]])
        memo[k] = r
        return r

    try:
        goal = expand(rep(f))
        facts = [expand(rep(x)) for x in eng.facts]
        goal = And(goal, *facts)
        seen = set()
        for _ in range(4):
            new = []
            for a in atoms_of(goal).values():
                if a.kind == 'rel' and a.key not in seen:
                    seen.add(a.key)
                    for sc in eng.schemas.get(a.args[0], ()):
                        new.append(Implies(a, expand(rep(sc(*a.args[1:])))))
            for t in eng.axiomterms(goal):
                if t.key() not in seen:
                    seen.add(t.key())
                    new.append(expand(rep(eng.term_axiom(t))))
            new = [x for x in new if x is not True]
            if not new:
                break
            goal = And(goal, *new)
        # every element there is, is one of the universe; these differ
        known = set(uk)
        close = []
        for t in _terms([goal]).values():
            if t.key() in known or isinstance(t, (Const, ObjV)):
                continue
            known.add(t.key())
            close.append(Or(*[eng.eq(t, x) for x in uni]))
        if close or any(a.kind == 'posl' for a in atoms_of(goal).values()):
            goal = And(goal, *close)
            goal = And(goal, *[Not(eng.eq(x, y)) for x, y in
                               itertools.combinations(uni, 2)])
        txt = []
        if any(values.numeric(a) for a in atoms_of(goal).values()):
            r = None
            for g, txt in values.models(eng, goal, eng.tries):
                r = L.find_model(g, (), limit) if g is not True else {}
                if r is not None:
                    goal = g
                    break
        else:
            r = L.find_model(goal, (), limit)
    except L.Budget:
        return None
    if r is None:
        return None
    if goal is True:
        return 'e.g. when ' + ', '.join(txt)
    ats = atoms_of(goal)
    yes = [repr(ats[k]) for k, v in r.items() if v and k in ats]
    no = [repr(ats[k]) for k, v in r.items() if not v and k in ats]
    same = ['%s = %s' % (show(terms[k]), show(t)) for k, t in mp.items()
            if isinstance(t, Val) and ':' not in show(terms[k])]
    yes = txt + sorted(yes + same)
    txt = 'e.g. when ' + ', '.join(yes[:14]) if yes else 'e.g. when'
    if no:
        txt += (' and' if yes else '') + ' not: ' + ', '.join(sorted(no)[:14])
    return txt
