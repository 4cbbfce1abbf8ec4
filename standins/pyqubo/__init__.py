"""Small pure-Python stand-in for PyQUBO (see /verif/DESIGN.md)."""
import math
from collections import OrderedDict, namedtuple
from numbers import Number

__version__ = "1.0.13"


def _wrap(x):
    if isinstance(x, Base):
        return x
    if isinstance(x, Number) or hasattr(x, "__float__"):
        return Num(float(x))
    raise TypeError("cannot use %r in an expression" % (x,))


class Base(object):
    __array_ufunc__ = None

    def __add__(self, o):
        return Add(self, _wrap(o))

    def __radd__(self, o):
        return Add(_wrap(o), self)

    def __sub__(self, o):
        return Add(self, Mul(Num(-1.0), _wrap(o)))

    def __rsub__(self, o):
        return Add(_wrap(o), Mul(Num(-1.0), self))

    def __mul__(self, o):
        return Mul(self, _wrap(o))

    def __rmul__(self, o):
        return Mul(_wrap(o), self)

    def __neg__(self):
        return Mul(Num(-1.0), self)

    def __truediv__(self, o):
        return Mul(self, Num(1.0 / float(o)))

    def __pow__(self, n):
        if not isinstance(n, int) or n < 1:
            raise ValueError("`exponent` should be positive integer")
        e = self
        for _ in range(n - 1):
            e = Mul(e, self)
        return e

    def compile(self, strength=5.0):
        return Model(self)


class Num(Base):
    def __init__(self, x):
        self.x = x


class Binary(Base):
    def __init__(self, label):
        self.label = label


class Spin(Base):
    def __init__(self, label):
        raise NotImplementedError("not in the stand-in")


class Placeholder(Base):
    def __init__(self, label):
        self.label = label


class Add(Base):
    def __init__(self, a, b):
        self.a, self.b = a, b


class Mul(Base):
    def __init__(self, a, b):
        self.a, self.b = a, b


class SubH(Base):
    def __init__(self, hamiltonian, label):
        self.h, self.label = _wrap(hamiltonian), label


class Constraint(SubH):
    pass


class LogEncInteger(SubH):
    def __init__(self, label, value_range):
        lower, upper = value_range
        assert isinstance(lower, int), "lower is not integer"
        assert isinstance(upper, int), "upper is not integer"
        assert upper > lower, "upper value should be larger than lower value"
        span = upper - lower
        self.value_range = value_range
        n = int(math.log2(span)) + 1
        bits = [Binary("%s[%d]" % (label, i)) for i in range(n)]
        e = Num(float(lower))
        for i in range(n - 1):
            e = e + 2 ** i * bits[i]
        e = e + (span - (2 ** (n - 1) - 1)) * bits[-1]
        SubH.__init__(self, e, label)


class DecodedSample(object):
    def __init__(self, sample, subh, energy, constraints):
        self.sample, self.subh, self.energy = sample, subh, energy
        self._constraints = constraints

    def constraints(self, only_broken=False):
        return self._constraints


def _poly_add(p, q, f=1.0):
    for k, v in q.items():
        p[k] = p.get(k, 0.0) + f * v
    return p


def _poly_mul(p, q):
    out = OrderedDict()
    for a, x in p.items():
        for b, y in q.items():
            k = a | b
            out[k] = out.get(k, 0.0) + x * y
    return out


class Model(object):
    def __init__(self, h):
        self.h = h
        self._subs = OrderedDict()
        self._vars = OrderedDict()
        self._polys = {}
        todo = [h]
        while todo:
            e = todo.pop()
            if isinstance(e, SubH):
                if e.label in self._subs and self._subs[e.label] is not e:
                    if not isinstance(e, LogEncInteger):
                        raise ValueError("label %r used twice" % e.label)
                self._subs.setdefault(e.label, e)
                todo.append(e.h)
            elif isinstance(e, (Add, Mul)):
                todo += [e.a, e.b]
            elif isinstance(e, Binary):
                self._vars[e.label] = 1

    @property
    def variables(self):
        return list(self._vars)

    def _poly(self, h, feed):
        """polynomial over bits, kept for the next time"""
        key = (id(h), tuple(sorted((feed or {}).items())))
        if key not in self._polys:
            self._polys[key] = self._expand(h, feed)
        return self._polys[key]

    def _expand(self, h, feed):
        """iterative, long sums are deep"""
        memo = {}
        stack = [(h, 0)]
        while stack:
            e, done = stack.pop()
            i = id(e)
            if i in memo:
                continue
            if isinstance(e, Num):
                memo[i] = {frozenset(): e.x}
            elif isinstance(e, Binary):
                memo[i] = {frozenset([e.label]): 1.0}
            elif isinstance(e, Placeholder):
                if e.label not in (feed or {}):
                    raise ValueError("%s is not specified in feed_dict." % e.label)
                memo[i] = {frozenset(): float(feed[e.label])}
            elif isinstance(e, SubH):
                if done:
                    memo[i] = memo[id(e.h)]
                else:
                    stack += [(e, 1), (e.h, 0)]
            elif done:
                a, b = memo[id(e.a)], memo[id(e.b)]
                memo[i] = _poly_add(_poly_add(OrderedDict(), a), b) if isinstance(e, Add) else _poly_mul(a, b)
            else:
                stack += [(e, 1), (e.a, 0), (e.b, 0)]
        return memo[id(h)]

    def to_bqm(self, index_label=False, feed_dict=None):
        import dimod

        bqm = dimod.BinaryQuadraticModel("BINARY")
        for v in self._vars:
            bqm.add_variable(v, 0.0)
        for k, c in self._poly(self.h, feed_dict).items():
            t = sorted(k)
            if len(t) > 2:
                raise NotImplementedError("degree above two")
            if not t:
                bqm.offset += c
            elif len(t) == 1:
                bqm.add_variable(t[0], c)
            else:
                bqm.add_interaction(t[0], t[1], c)
        return bqm

    def to_qubo(self, index_label=False, feed_dict=None):
        return self.to_bqm(feed_dict=feed_dict).to_qubo()

    def energy(self, sample, vartype, feed_dict=None):
        return self._eval(self.h, sample, feed_dict)

    def _eval(self, h, sample, feed):
        s = 0.0
        for k, c in self._poly(h, feed).items():
            x = c
            for v in k:
                x *= sample[v]
            s += x
        return s

    def decode_sample(self, sample, vartype, feed_dict=None):
        if vartype != "BINARY":
            raise ValueError("vartype should be BINARY")
        sample = dict(sample)
        missing = [v for v in self._vars if v not in sample]
        if missing:
            raise ValueError("sample misses %r" % missing[:3])
        subh = {k: self._eval(e.h, sample, feed_dict) for k, e in self._subs.items()}
        return DecodedSample({v: sample[v] for v in self._vars}, subh, self._eval(self.h, sample, feed_dict), {})

    def decode_sampleset(self, sampleset, feed_dict=None):
        return [self.decode_sample(s, "BINARY", feed_dict) for s in sampleset.samples()]
