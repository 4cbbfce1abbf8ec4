"""Stand-in for dwave-neal: notes every call, answers with what it is told to."""
import math
import random

import dimod

CALLS = []
ANSWER = None  # callable(bqm) -> dimod.SampleSet


class SimulatedAnnealingSampler(object):
    parameters = {}
    properties = {"beta_schedule_options": ("linear", "geometric", "custom")}

    def sample(self, bqm, beta_range=None, num_reads=None, num_sweeps=None, num_sweeps_per_beta=1,
               beta_schedule_type="geometric", seed=None, interrupt_function=None, beta_schedule=None,
               initial_states=None, initial_states_generator="random", **kwargs):
        CALLS.append({
            "model": bqm, "beta_range": beta_range, "num_reads": num_reads, "num_sweeps": num_sweeps,
            "num_sweeps_per_beta": num_sweeps_per_beta, "beta_schedule_type": beta_schedule_type,
            "seed": seed, "other": kwargs,
        })
        if ANSWER is not None:
            return ANSWER(bqm)
        rng = random.Random(0 if seed is None else seed)
        reads = num_reads or 1
        sweeps = num_sweeps or 1000
        lo, hi = beta_range or (0.1, 5.0)
        vs = bqm.variables
        near = {v: [] for v in vs}
        for (u, v), b in bqm.quadratic.items():
            near[u].append((v, b))
            near[v].append((u, b))
        lin = bqm.linear
        rows = []
        for _ in range(reads):
            x = {v: rng.randint(0, 1) for v in vs}
            for k in range(sweeps):
                beta = lo * (hi / lo) ** (k / max(sweeps - 1.0, 1.0))
                for v in vs:
                    g = lin[v] + sum(b for u, b in near[v] if x[u])
                    d = -g if x[v] else g
                    if d <= 0 or rng.random() < math.exp(-beta * d):
                        x[v] = 1 - x[v]
            rows.append([x[v] for v in vs])
        return dimod.SampleSet.from_samples_bqm(
            (rows, vs), bqm, info={"beta_range": (lo, hi), "beta_schedule_type": beta_schedule_type})
