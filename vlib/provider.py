"""Hypothesis backend drawing independent values (no mutation of previous cases)."""
from hypothesis.internal.conjecture.providers import HypothesisProvider


class Independent(HypothesisProvider):
    pass
