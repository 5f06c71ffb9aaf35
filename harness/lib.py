"""Construction of library objects from plain parameters, shared by the drivers."""

import numpy as np

from ries.constituents.state import GroundState, State
from ries.cross_section import ConstantCrossSection, CrossSection, CrossSectionWeightedSum
from ries.nonresonant.klein_nishina import KleinNishina
from ries.nonresonant.nonresonant import Nonresonant
from ries.nonresonant.xrmac import xrmac_cm2_per_g, xrmac_fm2_per_atom
from ries.resonance.breit_wigner import BreitWigner
from ries.resonance.gauss import Gauss
from ries.resonance.pseudo_voigt import PseudoVoigt, PseudoVoigtDistribution
from ries.resonance.recoil import FreeNucleusRecoil, NoRecoil
from ries.resonance.resonance import Resonance
from ries.resonance.voigt import SemiPseudoVoigtDistribution, Voigt

KINDS = ["box", "breit_wigner", "gauss", "pseudo_voigt", "voigt"]


def make_resonance(kind, initial, intermediate, amu=None, T=None, final=None, recoil=None):
    if kind == "box":
        if recoil is not None:
            return Resonance(initial, intermediate, final, recoil)
        return Resonance(initial, intermediate, final)
    if kind == "breit_wigner":
        return BreitWigner(initial, intermediate, final)
    cls = {"gauss": Gauss, "pseudo_voigt": PseudoVoigt, "voigt": Voigt}[kind]
    return cls(initial, intermediate, amu, T, final)


def simple_resonance(kind, E, width, amu, T, two_J0=0, two_J2=2):
    """Resonance at the (exactly representable) energy E with one decay channel."""
    g = GroundState("g", two_J0, 1)
    e = State("e", two_J2, 1, E, {"g": width})
    return make_resonance(kind, g, e, amu, T)


def dyadic(x, bits=20):
    """Nearest number with few binary digits, so that differences are exact."""
    import math

    if x == 0.0:
        return 0.0
    m, e = math.frexp(x)
    return math.ldexp(round(m * 2**bits), e - bits)
