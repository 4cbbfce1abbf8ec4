"""Stand-in for dwave.system: notes every call, answers with what it is told to."""
import dimod

CALLS = []
ANSWER = None  # callable(model) -> dimod.SampleSet
INFO = {"run": "info"}


def _answer(m):
    if ANSWER is None:
        raise RuntimeError("no solver available")
    return ANSWER(m)


class DWaveSampler(object):
    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs


class EmbeddingComposite(object):
    def __init__(self, child_sampler, **kw):
        self.child = child_sampler

    def sample(self, bqm, chain_strength=None, chain_break_method=None, chain_break_fraction=True,
               embedding_parameters=None, return_embedding=None, warnings=None, **parameters):
        CALLS.append(dict(parameters, solver="annealer", model=bqm, chain_strength=chain_strength,
                          child=type(self.child).__name__))
        return _answer(bqm)


class LeapHybridSampler(object):
    def __init__(self, **kw):
        self._properties = {"minimum_time_limit": [[1, 3.0], [1024, 3.0], [4096, 10.0]], "category": "hybrid"}

    @property
    def properties(self):
        return self._properties

    def min_time_limit(self, bqm):
        return 3.0

    def sample(self, bqm, time_limit=None, **kwargs):
        if time_limit is None:
            time_limit = self.min_time_limit(bqm)
        if time_limit < self.min_time_limit(bqm):
            raise ValueError("time limit too short")
        CALLS.append(dict(kwargs, solver="hybrid", model=bqm, time_limit=time_limit,
                          properties=dict(self._properties)))
        return _answer(bqm)


class LeapHybridCQMSampler(object):
    def __init__(self, **kw):
        self._properties = {"minimum_time_limit_s": 5.0, "category": "hybrid"}

    @property
    def properties(self):
        return self._properties

    def min_time_limit(self, cqm):
        return max(1.0, self._properties["minimum_time_limit_s"])

    def sample_cqm(self, cqm, time_limit=None, **kwargs):
        if not isinstance(cqm, dimod.ConstrainedQuadraticModel):
            raise TypeError("first argument 'cqm' must be a ConstrainedQuadraticModel")
        if time_limit is None:
            time_limit = self.min_time_limit(cqm)
        if time_limit < self.min_time_limit(cqm):
            raise ValueError("time limit too short")
        CALLS.append(dict(kwargs, solver="cqm", model=cqm, time_limit=time_limit,
                          properties=dict(self._properties)))
        return _answer(cqm)
