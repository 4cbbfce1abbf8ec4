from . import SampleSet, as_samples  # noqa
