"""Polynomials with integer coefficients over opaque atoms; the numeric abstract domain of ai.py."""
_ids = {}
_atoms = []
def aid(a):
    i = _ids.get(a)
    if i is None:
        i = _ids[a] = len(_atoms); _atoms.append(a)
    return i
def atom_of(i): return _atoms[i]

class P:
    __slots__ = ('m', '_h', '_a')   # m: dict monomial(tuple of sorted atom ids, repeated for powers) -> int
    def __init__(self, m):
        self.m = m; self._h = None; self._a = None
    @staticmethod
    def c(v): return P({(): v} if v else {})
    @staticmethod
    def a(atom): return P({(aid(atom),): 1})
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.m.items()))
        return self._h
    def __eq__(self, o): return isinstance(o, P) and self.m == o.m
    def __ne__(self, o): return not self.__eq__(o)
    def __add__(self, o):
        if not isinstance(o, P): o = P.c(o)
        r = dict(self.m)
        for k, v in o.m.items():
            n = r.get(k, 0) + v
            if n: r[k] = n
            else: r.pop(k, None)
        return P(r)
    def __neg__(self): return P({k: -v for k, v in self.m.items()})
    def __sub__(self, o):
        if not isinstance(o, P): o = P.c(o)
        return self + (-o)
    def __mul__(self, o):
        if not isinstance(o, P): o = P.c(o)
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = tuple(sorted(k1 + k2)); n = r.get(k, 0) + v1 * v2
                if n: r[k] = n
                else: r.pop(k, None)
        return P(r)
    def const(self):
        if not self.m: return 0
        if len(self.m) == 1 and () in self.m: return self.m[()]
        return None
    def atoms(self):
        if self._a is None:
            s = set()
            for k in self.m: s.update(k)
            self._a = frozenset(_atoms[i] for i in s)
        return self._a
    def single(self):
        """the atom if this is exactly one atom with coefficient 1"""
        if len(self.m) == 1:
            (k, v), = self.m.items()
            if v == 1 and len(k) == 1: return _atoms[k[0]]
        return None
    def divc(self, d):
        """exact division by a constant, or None"""
        if all(v % d == 0 for v in self.m.values()): return P({k: v // d for k, v in self.m.items()})
        return None
    def divp(self, d):
        """exact division by a monomial polynomial, or None"""
        if len(d.m) != 1: return None
        (dk, dv), = d.m.items(); r = {}
        for k, v in self.m.items():
            if v % dv: return None
            l = list(k)
            for x in dk:
                if x not in l: return None
                l.remove(x)
            r[tuple(l)] = v // dv
        return P(r)
    def subst(self, mp):
        """mp: atom -> P"""
        ids = {aid(a): p for a, p in mp.items()}
        if not any(i in ids for k in self.m for i in k): return self
        r = P({})
        for k, v in self.m.items():
            t = P.c(v)
            for i in k: t = t * (ids[i] if i in ids else P({(i,): 1}))
            r = r + t
        return r
    def coeff(self, atom):
        """(coefficient polynomial of atom^1, rest) ; None if the degree in atom exceeds 1"""
        i = aid(atom); c = {}; rest = {}
        for k, v in self.m.items():
            n = k.count(i)
            if n == 0: rest[k] = v
            elif n == 1:
                l = list(k); l.remove(i); c[tuple(l)] = v
            else: return None
        return P(c), P(rest)
    def __repr__(self):
        if not self.m: return '0'
        out = []
        for k, v in sorted(self.m.items(), key=lambda x: (len(x[0]), x[0])):
            s = '*'.join(aname(_atoms[i]) for i in k)
            out.append((str(v) if not k else (s if v == 1 else '%d*%s' % (v, s))))
        return ' + '.join(out).replace('+ -', '- ')
def aname(a):
    if isinstance(a, tuple): return '(' + ' '.join(aname(x) for x in a) + ')'
    return str(a)
ZERO = P.c(0); ONE = P.c(1)
