"""Random resonances and recorded observations, shared by the drivers of C04 - C08."""

import math
import re
import warnings

import numpy as np

from harness.core import Event, flat, groups_of, guard, parse_tla
from harness.lib import *

KT = 8.617333262e-11
U = 931.49410242


def sigma_of(E, amu, T):
    return E * math.sqrt(KT * T / (amu * U))


def regime_params(rng, regime):
    """(E, width, amu, T); regime: natural width compared to the Doppler width."""
    E = dyadic(float(10 ** rng.uniform(-1, 1.3)))
    amu = float(rng.uniform(1, 250))
    T = float(10 ** rng.uniform(0.5, 4.5))
    if rng.random() < 0.25:
        # from electron volts to several gigaelectron volts, from cold to hot, from electrons to molecules
        E = dyadic(float(10 ** rng.uniform(-6, 3.7)))
        amu = float(10 ** rng.uniform(-3, 4))
        T = float(10 ** rng.uniform(-2, 6))
    s = sigma_of(E, amu, T)
    lo, hi = [(-0.5, 0.5), (-3, -1), (1, 3), (-6, -3), (3, 5), (-1.5, 1.5)][regime]
    return E, float(s * 10 ** rng.uniform(lo, hi)), amu, T


def core_width(kind, E, width, amu, T):
    s = sigma_of(E, amu, T)
    return {"box": 0.25, "breit_wigner": width / 2, "gauss": s}.get(kind, s + width / 2)


class Caught:
    """Result of a call together with the warnings it issued."""

    def __init__(self, call):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            self.result = call()
        self.messages = [str(x.message) for x in w if issubclass(x.category, UserWarning)]

    def count(self, word):
        return sum(1 for m in self.messages if word in m)


def cdf_of(r, E):
    return r.probability_distribution.cdf(E, *r.probability_distribution_parameters)
