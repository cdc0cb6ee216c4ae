"""A Hypothesis backend that draws bounded integers uniformly.

Hypothesis' own generator concentrates most draws near the shrink target (83% of
integers(0, 10**6) fall in the lowest tenth) and repeats blocks of values; the
physical ranges here are smooth, so uniform draws (with the end points somewhat
more likely) cover far more distinct behaviour.  Shrinking is Hypothesis' own."""

from hypothesis.internal.conjecture.providers import (
    AVAILABLE_PROVIDERS, HypothesisProvider,
)


class UniformProvider(HypothesisProvider):
    lifetime = "test_case"

    def draw_integer(self, min_value=None, max_value=None, *, weights=None,
                     shrink_towards=0):
        if min_value is None or max_value is None:
            return super().draw_integer(
                min_value, max_value, weights=weights,
                shrink_towards=shrink_towards,
            )
        if max_value - min_value > 100 and self._random.random() < 0.02:
            return self._random.choice((min_value, max_value))
        return self._random.randint(min_value, max_value)


AVAILABLE_PROVIDERS["uniform"] = "harness.uniform.UniformProvider"
