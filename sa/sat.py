"""Entailment in the relational domain: clause form with conflict learning;
the theory (equality, orders, bounds) is consulted on the literals that
justify an assignment."""


class Core:
    """Propositional core."""

    def __init__(self):
        self.n = 0
        self.val = [0]
        self.level = [0]
        self.reason = [None]
        self.act = [0.0]
        self.phase = [False]
        self.watch = {}
        self.trail = []
        self.lim = []
        self.qhead = 0
        self.ok = True
        self.inc = 1.0
        self.conflicts = 0

    def var(self):
        self.n += 1
        self.val.append(0)
        self.level.append(0)
        self.reason.append(None)
        self.act.append(0.0)
        self.phase.append(False)
        self.watch[self.n] = []
        self.watch[-self.n] = []
        return self.n

    def value(self, lit):
        v = self.val[lit] if lit > 0 else -self.val[-lit]
        return v

    def add(self, lits):
        """Add a clause at decision level 0."""
        self.cancel(0)
        out = []
        for x in set(lits):
            if -x in lits:
                return
            v = self.value(x)
            if v > 0:
                return
            if v == 0:
                out.append(x)
        if not out:
            self.ok = False
            return
        if len(out) == 1:
            self.enqueue(out[0], None)
            if self.propagate() is not None:
                self.ok = False
            return
        self.attach(out)

    def attach(self, c):
        self.watch[-c[0]].append(c)
        self.watch[-c[1]].append(c)

    def enqueue(self, lit, why):
        v = abs(lit)
        self.val[v] = 1 if lit > 0 else -1
        self.level[v] = len(self.lim)
        self.reason[v] = why
        self.trail.append(lit)

    def propagate(self):
        val = self.val
        while self.qhead < len(self.trail):
            p = self.trail[self.qhead]
            self.qhead += 1
            ws = self.watch[p]
            keep = []
            i = 0
            while i < len(ws):
                c = ws[i]
                i += 1
                if c[0] == -p:
                    c[0], c[1] = c[1], c[0]
                a = c[0]
                if (val[a] if a > 0 else -val[-a]) > 0:
                    keep.append(c)
                    continue
                for k in range(2, len(c)):
                    x = c[k]
                    if (val[x] if x > 0 else -val[-x]) >= 0:
                        c[1], c[k] = c[k], c[1]
                        self.watch[-c[1]].append(c)
                        break
                else:
                    keep.append(c)
                    if (val[a] if a > 0 else -val[-a]) < 0:
                        keep.extend(ws[i:])
                        self.watch[p] = keep
                        self.qhead = len(self.trail)
                        return c
                    self.enqueue(a, c)
            self.watch[p] = keep
        return None

    def analyse(self, confl):
        seen = set()
        learnt = []
        count = 0
        lit = None
        idx = len(self.trail) - 1
        cur = len(self.lim)
        c = confl
        while True:
            for q in c:
                if lit is not None and q == lit:
                    continue
                v = abs(q)
                if v in seen or self.level[v] == 0:
                    continue
                seen.add(v)
                self.act[v] += self.inc
                if self.level[v] == cur:
                    count += 1
                else:
                    learnt.append(q)
            while abs(self.trail[idx]) not in seen:
                idx -= 1
            lit = self.trail[idx]
            idx -= 1
            count -= 1
            if count == 0:
                break
            c = self.reason[abs(lit)]
        self.inc *= 1.05
        if self.inc > 1e100:
            self.act = [a * 1e-100 for a in self.act]
            self.inc *= 1e-100
        learnt = [-lit] + learnt
        if len(learnt) == 1:
            return learnt, 0
        m = max(range(1, len(learnt)),
                key=lambda i: self.level[abs(learnt[i])])
        learnt[1], learnt[m] = learnt[m], learnt[1]
        return learnt, self.level[abs(learnt[1])]

    def cancel(self, lvl):
        if len(self.lim) <= lvl:
            return
        k = self.lim[lvl]
        for lit in self.trail[k:]:
            v = abs(lit)
            self.phase[v] = self.val[v] > 0
            self.val[v] = 0
            self.reason[v] = None
        del self.trail[k:]
        del self.lim[lvl:]
        self.qhead = len(self.trail)

    def solve(self, budget):
        """True, False or None (budget exhausted)."""
        if not self.ok:
            return False
        while True:
            c = self.propagate()
            if c is not None:
                self.conflicts += 1
                if not self.lim:
                    self.ok = False
                    return False
                if self.conflicts > budget:
                    return None
                learnt, lvl = self.analyse(c)
                self.cancel(lvl)
                if len(learnt) == 1:
                    self.enqueue(learnt[0], None)
                else:
                    self.attach(learnt)
                    self.enqueue(learnt[0], learnt)
                continue
            best, ba = 0, -1.0
            val, act = self.val, self.act
            for v in range(1, self.n + 1):
                if not val[v] and act[v] > ba:
                    best, ba = v, act[v]
            if not best:
                return True
            self.lim.append(len(self.trail))
            self.enqueue(best if self.phase[best] else -best, None)


class Clauses:
    """Clause form of formulas, with the atoms they speak about."""

    def __init__(self, fkey, Atom):
        self.core = Core()
        self.fkey = fkey
        self.Atom = Atom
        self.lit = {}           # formula key -> literal
        self.atom = {}          # variable -> atom

    def literal(self, f):
        if isinstance(f, self.Atom):
            v = self.lit.get(f.key)
            if v is None:
                v = self.lit[f.key] = self.core.var()
                self.atom[v] = f
            return v
        if f[0] == 'n':
            return -self.literal(f[1])
        k = self.fkey(f)
        v = self.lit.get(k)
        if v is not None:
            return v
        xs = [self.literal(x) for x in f[1]]
        v = self.lit[k] = self.core.var()
        if f[0] == '&':
            for x in xs:
                self.core.add([-v, x])
            self.core.add([v] + [-x for x in xs])
        else:
            for x in xs:
                self.core.add([v, -x])
            self.core.add([-v] + xs)
        return v

    def require(self, f):
        if f is True:
            return
        if f is False:
            self.core.ok = False
            return
        if isinstance(f, tuple) and f[0] == '&':
            for x in f[1]:
                self.require(x)
            return
        if isinstance(f, tuple) and f[0] == '|':
            self.core.add([self.literal(x) for x in f[1]])
            return
        self.core.add([self.literal(f)])


def justify(f, want, truth, out, seen, fkey, Atom):
    """Collect literals that make f have the value `want`."""
    if isinstance(f, bool):
        return
    if isinstance(f, Atom):
        out[f.key] = want
        return
    if f[0] == 'n':
        justify(f[1], not want, truth, out, seen, fkey, Atom)
        return
    k = (fkey(f), want)
    if k in seen:
        return
    seen.add(k)
    conj = (f[0] == '&') == want
    if conj:
        for x in f[1]:
            justify(x, want, truth, out, seen, fkey, Atom)
        return
    # one witness is enough; prefer one that is justified already
    best = None
    for x in f[1]:
        if truth(x) == want:
            y = x[1] if isinstance(x, tuple) and x[0] == 'n' else x
            if isinstance(y, Atom):
                if y.key in out:
                    return
                if best is None or not isinstance(best, Atom):
                    best = x
                continue
            if best is None:
                best = x
    justify(best, want, truth, out, seen, fkey, Atom)
