from . import CQM, ConstrainedQuadraticModel, cqm_to_bqm  # noqa
