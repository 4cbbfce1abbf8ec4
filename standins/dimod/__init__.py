"""Small pure-Python stand-in for dimod (see /verif/DESIGN.md)."""
from collections import OrderedDict, namedtuple
from collections.abc import Mapping
from numbers import Number
import itertools

__version__ = "0.11.0"
BINARY = "BINARY"
SPIN = "SPIN"
INTEGER = "INTEGER"


class Vartype(object):
    BINARY = BINARY
    SPIN = SPIN
    INTEGER = INTEGER


def _num(x):
    return isinstance(x, Number) or (hasattr(x, "__float__") and not isinstance(x, _Model))


class _Quadratic(Mapping):
    """interactions, found in either order"""

    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[frozenset(k)]

    def __contains__(self, k):
        return frozenset(k) in self._d

    def __iter__(self):
        for k in self._d:
            t = tuple(sorted(k, key=str))
            yield t if len(t) == 2 else (t[0], t[0])

    def __len__(self):
        return len(self._d)


class _Model(object):
    __array_ufunc__ = None

    def __init__(self):
        self._lin = OrderedDict()
        self._quad = OrderedDict()  # frozenset of one (square) or two labels
        self.offset = 0.0
        self._info = OrderedDict()  # label: (vartype, lb, ub)

    # -- reading

    @property
    def variables(self):
        return list(self._lin)

    @property
    def linear(self):
        return dict(self._lin)

    @property
    def quadratic(self):
        return _Quadratic(self._quad)

    @property
    def num_variables(self):
        return len(self._lin)

    @property
    def num_interactions(self):
        return len(self._quad)

    @property
    def shape(self):
        return self.num_variables, self.num_interactions

    def __len__(self):
        return len(self._lin)

    def __bool__(self):
        return True

    def get_linear(self, v):
        return self._lin[v]

    def get_quadratic(self, u, v, default=None):
        k = frozenset((u, v))
        if k not in self._quad and default is not None:
            return default
        return self._quad[k]

    def iter_quadratic(self):
        for (u, v), b in self.quadratic.items():
            yield u, v, b

    def iter_linear(self):
        return iter(self._lin.items())

    def is_linear(self):
        return not any(self._quad.values())

    def lower_bound(self, v):
        return self._info[v][1]

    def upper_bound(self, v):
        return self._info[v][2]

    def energy(self, sample):
        e = self.offset
        for v, b in self._lin.items():
            e += b * sample[v]
        for (u, v), b in self.quadratic.items():
            e += b * sample[u] * sample[v]
        return e

    def energies(self, samples):
        rows, labels = as_samples(samples)
        return [self.energy(dict(zip(labels, r))) for r in rows]

    # -- building

    def _own(self, v, info):
        if v in self._info and self._info[v] != info:
            raise ValueError("conflicting types of variable %r" % (v,))
        self._info[v] = info
        self._lin.setdefault(v, 0.0)

    def add_linear(self, v, b):
        self._lin[v] = self._lin.get(v, 0.0) + b

    def add_quadratic(self, u, v, b):
        k = frozenset((u, v))
        if len(k) == 1 and self._info[u][0] == BINARY:
            self._lin[u] += b
            return
        self._quad[k] = self._quad.get(k, 0.0) + b

    def _like(self):
        return QuadraticModel()

    def copy(self):
        m = self._like()
        m._lin = OrderedDict(self._lin)
        m._quad = OrderedDict(self._quad)
        m._info = OrderedDict(self._info)
        m.offset = self.offset
        return m

    def _add(self, o, f=1):
        m = QuadraticModel()
        for src, k in ((self, 1), (o, f)):
            if _num(src):
                m.offset += k * float(src)
                continue
            for v, i in src._info.items():
                m._own(v, i)
            for v, b in src._lin.items():
                m.add_linear(v, k * float(b))
            for q, b in src._quad.items():
                m._quad[q] = m._quad.get(q, 0.0) + k * float(b)
            m.offset += k * float(src.offset)
        return _narrow(m)

    def __add__(self, o):
        if not (_num(o) or isinstance(o, _Model)):
            return NotImplemented
        return self._add(o)

    __radd__ = __add__

    def __sub__(self, o):
        if not (_num(o) or isinstance(o, _Model)):
            return NotImplemented
        return self._add(o, -1)

    def __rsub__(self, o):
        return (-self)._add(o)

    def __neg__(self):
        return self * -1

    def __pos__(self):
        return self.copy()

    def __mul__(self, o):
        if _num(o):
            m = self.copy()
            for v in m._lin:
                m._lin[v] = float(m._lin[v]) * float(o)
            for q in m._quad:
                m._quad[q] = float(m._quad[q]) * float(o)
            m.offset = float(m.offset) * float(o)
            return m
        if not isinstance(o, _Model):
            return NotImplemented
        if self._quad or o._quad:
            raise TypeError("cannot multiply non-linear models")
        m = QuadraticModel()
        for x in (self, o):
            for v, i in x._info.items():
                m._own(v, i)
        for u, a in self._lin.items():
            for v, b in o._lin.items():
                m.add_quadratic(u, v, a * b)
        for u, a in self._lin.items():
            m.add_linear(u, a * o.offset)
        for v, b in o._lin.items():
            m.add_linear(v, b * self.offset)
        m.offset = self.offset * o.offset
        return _narrow(m)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1.0 / o)

    def __pow__(self, n):
        if n != 2:
            raise ValueError("only squares")
        return self * self

    def __le__(self, o):
        return Le(self, o)

    def __ge__(self, o):
        return Ge(self, o)

    def __eq__(self, o):
        if _num(o):
            return Eq(self, o)
        return self.is_equal(o)

    def __ne__(self, o):
        return not self.is_equal(o)

    __hash__ = None

    def is_equal(self, o):
        if not isinstance(o, _Model):
            return False
        clean = lambda d: {k: v for k, v in d.items() if v}
        return (
            set(self._lin) == set(o._lin)
            and clean(self._lin) == clean(o._lin)
            and clean(self._quad) == clean(o._quad)
            and self.offset == o.offset
            and dict(self._info) == dict(o._info)
        )


def _narrow(m):
    """a model of bits only is a binary quadratic model"""
    if m._info and all(i[0] == BINARY for i in m._info.values()):
        b = BinaryQuadraticModel(BINARY)
        b._lin, b._quad, b._info, b.offset = m._lin, m._quad, m._info, m.offset
        return b
    return m


class QuadraticModel(_Model):
    def vartype(self, v):
        return self._info[v][0]


class BinaryQuadraticModel(_Model):
    def __init__(self, *args, **kwargs):
        super().__init__()
        args = list(args)
        vt = kwargs.pop("vartype", None)
        if args and isinstance(args[-1], str):
            vt = args.pop()
        if vt is None:
            raise TypeError("missing vartype")
        if vt != BINARY:
            raise ValueError("stand-in supports BINARY only")
        self.vartype = BINARY
        lin = args[0] if args else {}
        quad = args[1] if len(args) > 1 else {}
        self.offset = float(args[2]) if len(args) > 2 else 0.0
        for v, b in dict(lin).items():
            self.add_variable(v, b)
        for (u, v), b in dict(quad).items():
            self.add_interaction(u, v, b)

    def _like(self):
        return BinaryQuadraticModel(BINARY)

    @classmethod
    def empty(cls, vartype):
        return cls(vartype)

    def add_variable(self, v, b=0.0):
        self._own(v, (BINARY, 0, 1))
        self._lin[v] += b

    def add_interaction(self, u, v, b=0.0):
        for x in (u, v):
            self._own(x, (BINARY, 0, 1))
        if u == v:
            raise ValueError("%r is a self-loop" % (u,))
        self._quad[frozenset((u, v))] = self._quad.get(frozenset((u, v)), 0.0) + b

    add_quadratic_ = add_interaction

    @classmethod
    def from_qubo(cls, Q, offset=0.0):
        m = cls(BINARY)
        for (u, v), b in Q.items():
            if u == v:
                m.add_variable(u, b)
            else:
                m.add_interaction(u, v, b)
        m.offset = offset
        return m

    def to_ising(self):
        h = {v: b / 2.0 for v, b in self._lin.items()}
        J, off = {}, self.offset + sum(h.values())
        for (u, v), b in self.quadratic.items():
            J[(u, v)] = b / 4.0
            h[u] += b / 4.0
            h[v] += b / 4.0
            off += b / 4.0
        return h, J, off

    def to_qubo(self):
        Q = {(v, v): b for v, b in self._lin.items() if b}
        Q.update(self.quadratic)
        return Q, self.offset


BQM = BinaryQuadraticModel
QM = QuadraticModel


def Binary(label, bias=1):
    m = BinaryQuadraticModel(BINARY)
    m.add_variable(label, float(bias))
    return m


def Integer(label, bias=1, lower_bound=0, upper_bound=None):
    if lower_bound is None:
        lower_bound = 0
    if upper_bound is None:
        upper_bound = 2 ** 53
    if not lower_bound <= upper_bound:
        raise ValueError("lower_bound must be at most upper_bound")
    m = QuadraticModel()
    m._own(label, (INTEGER, float(lower_bound), float(upper_bound)))
    m._lin[label] = float(bias)
    return m


class Sense(object):
    Le = "<="
    Ge = ">="
    Eq = "=="


class Comparison(object):
    sense = None

    def __init__(self, lhs, rhs):
        if isinstance(rhs, _Model):
            lhs, rhs = lhs - rhs, 0
        self.lhs, self.rhs = lhs, float(rhs)

    def holds(self, sample, eps=1e-6):
        e = self.lhs.energy(sample) - self.rhs
        if self.sense == "<=":
            return e <= eps
        if self.sense == ">=":
            return e >= -eps
        return abs(e) <= eps

    def __repr__(self):
        return "%s(%r, %r)" % (type(self).__name__, self.lhs, self.rhs)


class Le(Comparison):
    sense = "<="


class Ge(Comparison):
    sense = ">="


class Eq(Comparison):
    sense = "=="


class ConstrainedQuadraticModel(object):
    def __init__(self):
        self.constraints = OrderedDict()
        self.objective = QuadraticModel()
        self._info = OrderedDict()

    @property
    def variables(self):
        return list(self._info)

    def _own(self, m):
        for v, i in m._info.items():
            if self._info.setdefault(v, i) != i:
                raise ValueError("conflicting types of variable %r" % (v,))

    def num_quadratic_variables(self):
        return 0

    def num_biases(self):
        return len(self.objective._lin) + sum(len(c.lhs._lin) for c in self.constraints.values())

    def vartype(self, v):
        return self._info[v][0]

    def lower_bound(self, v):
        return self._info[v][1]

    def upper_bound(self, v):
        return self._info[v][2]

    def add_variable(self, v, vartype, lower_bound=0, upper_bound=None):
        m = Binary(v) if vartype == BINARY else Integer(v, lower_bound=lower_bound, upper_bound=upper_bound)
        self._own(m)
        return v

    def add_constraint(self, data, *args, **kwargs):
        if isinstance(data, Comparison):
            return self.add_constraint_from_comparison(data, *args, **kwargs)
        if isinstance(data, _Model):
            return self.add_constraint_from_model(data, *args, **kwargs)
        raise TypeError("unexpected data type %r" % type(data))

    def add_constraint_from_comparison(self, comp, label=None, copy=True):
        if label is None:
            label = "c%d" % len(self.constraints)
        if label in self.constraints:
            raise ValueError("a constraint with that label already exists")
        self._own(comp.lhs)
        self.constraints[label] = comp
        return label

    def add_constraint_from_model(self, qm, sense, rhs=0, label=None, copy=True):
        cls = {"<=": Le, ">=": Ge, "==": Eq}[sense]
        return self.add_constraint_from_comparison(cls(qm, rhs), label=label)

    def set_objective(self, objective):
        if not isinstance(objective, _Model):
            raise TypeError("objective must be a model")
        self._own(objective)
        self.objective = objective

    def check_feasible(self, sample, rtol=1e-6, atol=1e-8):
        if not isinstance(sample, Mapping):
            sample = sample[0]
        return all(c.holds(sample) for c in self.constraints.values())


def _log_terms(ub):
    n = int(ub).bit_length() - 1
    return [2 ** j for j in range(n)] + [int(ub) - 2 ** n + 1]


def cqm_to_bqm(cqm, lagrange_multiplier=None):
    """penalty form with binary encoding of integers and slacks"""
    bits = {}
    for v, (t, lb, ub) in cqm._info.items():
        if t == BINARY:
            bits[v] = (0.0, [(v, 1.0)])
        else:
            bits[v] = (lb, [((v, i), c) for i, c in enumerate(_log_terms(ub - lb))])

    def expand(m):
        e = BinaryQuadraticModel(BINARY)
        e.offset = m.offset
        for v, b in m._lin.items():
            e.offset += b * bits[v][0]
            for w, c in bits[v][1]:
                e.add_variable(w, b * c)
        return e

    bqm = expand(cqm.objective)
    if lagrange_multiplier is None:
        biases = [abs(b) for b in bqm._lin.values()]
        lagrange_multiplier = 10 * max(biases + [0]) or 1
    for label, c in cqm.constraints.items():
        e = expand(c.lhs) - c.rhs
        lo = e.offset + sum(min(b, 0) for b in e._lin.values())
        hi = e.offset + sum(max(b, 0) for b in e._lin.values())
        if c.sense == "<=" and hi > 0:
            for i, k in enumerate(_log_terms(-lo) if lo < 0 else []):
                e = e + Binary(("slack", label, i)) * k
        elif c.sense == ">=" and lo < 0:
            for i, k in enumerate(_log_terms(hi) if hi > 0 else []):
                e = e - Binary(("slack", label, i)) * k
        elif c.sense != "==":
            continue
        bqm = bqm + e * e * lagrange_multiplier
    return bqm, None


CQM = ConstrainedQuadraticModel

_Datum = namedtuple("Sample", ["sample", "energy", "num_occurrences"])


def as_samples(samples_like, *args, **kwargs):
    """(rows, labels)"""
    if isinstance(samples_like, SampleSet):
        return samples_like._rows, samples_like.variables
    if isinstance(samples_like, Mapping):
        samples_like = [samples_like]
    if isinstance(samples_like, tuple) and len(samples_like) == 2:
        rows, labels = samples_like
        labels = list(labels)
        if rows and not hasattr(rows[0], "__iter__"):
            rows = [rows]
        return [list(r) for r in rows], labels
    samples_like = list(samples_like)
    if not samples_like:
        return [], []
    if isinstance(samples_like[0], Mapping):
        labels = list(samples_like[0])
        for s in samples_like:
            if set(s) != set(labels):
                raise ValueError("all samples must have the same variables")
        return [[s[v] for v in labels] for s in samples_like], labels
    return [list(r) for r in samples_like], list(range(len(samples_like[0])))


class SampleSet(object):
    def __init__(self, rows, labels, energy, info=None, num_occurrences=None, vartype=BINARY):
        self._rows, self.variables = rows, labels
        self._energy = list(energy)
        self._occ = list(num_occurrences) if num_occurrences is not None else [1] * len(rows)
        if not len(self._rows) == len(self._energy) == len(self._occ):
            raise ValueError("vectors of different length")
        self.info = dict(info or {})
        self.vartype = vartype

    @classmethod
    def from_samples(cls, samples_like, vartype, energy, info=None, num_occurrences=None,
                     aggregate_samples=False, sort_labels=True, **vectors):
        rows, labels = as_samples(samples_like)
        if not hasattr(energy, "__iter__"):
            energy = [energy] * len(rows)
        return cls(rows, labels, energy, info, num_occurrences, vartype)

    @classmethod
    def from_samples_bqm(cls, samples_like, bqm, **kw):
        rows, labels = as_samples(samples_like)
        return cls.from_samples((rows, labels), BINARY, [bqm.energy(dict(zip(labels, r))) for r in rows], **kw)

    from_samples_cqm = from_samples_bqm

    @property
    def record(self):
        return self

    @property
    def energy(self):
        return list(self._energy)

    def __len__(self):
        return len(self._rows)

    def __iter__(self):
        return iter(self.samples())

    def _order(self, by):
        idx = list(range(len(self._rows)))
        if by == "energy":
            idx.sort(key=lambda i: self._energy[i])
        elif by == "num_occurrences":
            idx.sort(key=lambda i: self._occ[i])
        elif by is not None:
            raise ValueError("unknown field %r" % (by,))
        return idx

    def data(self, fields=None, sorted_by="energy", name="Sample", reverse=False,
             sample_dict_cast=True, index=False):
        idx = self._order(sorted_by)
        if reverse:
            idx.reverse()
        for i in idx:
            d = _Datum(dict(zip(self.variables, self._rows[i])), self._energy[i], self._occ[i])
            if fields is not None:
                yield namedtuple(name, fields)(*[getattr(d, f) for f in fields])
            else:
                yield d

    def samples(self, n=None, sorted_by="energy"):
        out = [dict(zip(self.variables, self._rows[i])) for i in self._order(sorted_by)]
        return out if n is None else out[:n]

    @property
    def first(self):
        return next(self.data())

    def lowest(self, rtol=1e-5, atol=1e-8):
        m = min(self._energy)
        keep = [i for i in range(len(self)) if self._energy[i] - m <= atol + rtol * abs(m)]
        return SampleSet([self._rows[i] for i in keep], self.variables, [self._energy[i] for i in keep],
                         self.info, [self._occ[i] for i in keep], self.vartype)

    def aggregate(self):
        return self


class ExactSolver(object):
    def sample(self, bqm, **kw):
        vs = bqm.variables
        rows = [list(x) for x in itertools.product((0, 1), repeat=len(vs))]
        return SampleSet.from_samples_bqm((rows, vs), bqm)


from . import constrained, sampleset  # noqa
