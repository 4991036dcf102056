"""Reference for /repo/python_ai/ellalgo: what the Python package promises, written down independently of its code."""
from .cutting_plane import CutStatus, Options, cutting_plane
from .ell import Ell
from .ell_calc import EllCalc, EllCalcCore
