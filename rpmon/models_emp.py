"""Independent models of the empirical relations and permeability models."""
import numpy as np
from .engine import Elem, Case, DEFAULT


def _phi(lo=0.0, hi=0.6, sp=(0.1, 0.2, 0.3, 0.4), wide=None):
    return lambda r, n: dict(phi=r.u(lo, hi, n, sp=sp, wide=wide))


def _z(lo=0.0, hi=8000.0, sp=(0, 1000, 2000, 2500, 3000), wide=(-1000, 15000)):
    return lambda r, n: dict(Z=r.u(lo, hi, n, sp=sp, wide=wide))


def _krief(phi, Kg, Gg):
    b = np.exp(3 / (1 - phi) * np.log1p(-phi))
    return b * (Kg - 2 * Gg / 3), b * Gg, b * Kg


def _g_krief(r, n):
    K, G = r.mineral(n)
    return dict(phi=r.u(0, 0.6, n, sp=[0, .1, .2, .3], wide=(0, .99)), Kg=K, Gg=G)


Elem("Empirical.krief", "phi Kg Gg", _g_krief, _krief, vec="phi Kg Gg", absof="Kg Gg")


def _esti(Vp, vsh):
    s, h = 0.80416e-3 * Vp - 0.85588, 0.76969e-3 * Vp - 0.86735
    a = s + vsh * (h - s)
    return 500 * (a + s * h / (h + vsh * (s - h)))


Elem("Empirical.esti_VS", "Vp vsh", lambda r, n: dict(Vp=r.u(1700, 7000, n, sp=[2000, 3000, 4000], wide=(200, 12000)), vsh=r.u(0, 1, n, sp=[0, 1, .5])), _esti, vec="Vp vsh")
Elem("Empirical.han", "phi C", lambda r, n: dict(phi=r.u(0, .5, n, sp=[0, .2, .3], wide=(0, 1)), C=r.u(0, .6, n, sp=[0, .1], wide=(0, 1))),
     lambda phi, C: (5590 - 6930 * phi - 2810 * C, 3520 - 4910 * phi - 1890 * C), vec="phi C", atol=1e-8)
Elem("Empirical.ehrenberg", "Z", _z(), lambda Z: 0.4802422 - 0.000092200747 * Z, vec="Z", atol=1e-12)
Elem("Empirical.yu_segment_trend", "Z", _z(0, 6000, (0, 1000, 2630, 3000)), lambda Z: np.where(Z > 2630, 1200.84 + .853 * Z, 1707.998 + .66 * Z), vec="Z", sens=False, rtol=1e-9, lists=True)
Elem("Empirical.ramm_porosity", "Z HB", _z(), lambda Z, HB: (0.464 - 8.5e-5 * Z) if HB else (0.427 - 6.9e-5 * Z), vec="Z", opts=dict(HB=[DEFAULT, True, False]), defaults=dict(HB=True), atol=1e-12)


def _ramm(Z):
    a, b = 45 * np.exp(-Z / 4000), 57.5 - 0.013 * Z
    return np.where(a < b, a, b)


Elem("Empirical.ramm_porosity_segment", "Z", _z(), _ramm, vec="Z", atol=1e-9)


def _stpeter(Pe, sample):
    c = {1: ((4.21, .187, .746, 24), (2.58, .160, .781, 20)), 2: ((4.55, .298, .8, 19), (2.83, .195, .741, 16))}[sample]
    return tuple(1000 * (a + k * Pe - b / np.exp(d * Pe)) for a, k, b, d in c)


Elem("Empirical.empirical_StPeter", "Pe sample", lambda r, n: dict(Pe=r.u(0, 2, n, sp=[0, .1, 1], wide=(0, 30))), _stpeter, vec="Pe", opts=dict(sample=[DEFAULT, 1, 2]), defaults=dict(sample=1))
Elem("Empirical.Scherbaum", "Z", _z(), lambda Z: 0.51 * (Z + 2325 / 0.51), vec="Z")
Elem("Empirical.Sclater", "phi", _phi(0.005, 0.49, wide=(1e-7, 1)), lambda phi: 3.7 * (np.log(0.49) - np.log(phi)), vec="phi", atol=1e-11)
Elem("Empirical.Storvoll", "Z", _z(), lambda Z: 2600 + Z / 1.76, vec="Z")
Elem("Empirical.Hillis", "Z", _z(0, 6000, wide=(-1000, 6500)), lambda Z: 304.8e6 / (135900 - 20.22 * Z), vec="Z")


def _japsen(Z):
    v = np.where(Z < 1393, 1550 + .6 * Z, np.where(Z < 2000, 2 * Z - 400, np.where(Z < 3500, 2600 + Z / 2, 3475 + Z / 4)))
    return np.where(Z >= 5300, np.nan, v)


Elem("Empirical.Japsen", "Z", _z(0, 5299.9, (0, 1000, 1393, 2000, 3500, 5299), wide=None), _japsen, vec="Z", sens=False, rtol=1e-9, lists=True)
Elem("Empirical.hjelstuen", "Z", _z(0, 3800), lambda Z: 1870 + .55 * Z, vec="Z")
Elem("Empirical.Cp", "phi", _phi(0, 1, (0, .36, .4), wide=(-.2, 1.5)), lambda phi: 20 + phi * (14 * phi - 34), vec="phi", atol=1e-11)

# ------------------------------------------------------------------------ permeability
_d = lambda r, n: r.log(1e-6, 2e3, n, sp=[250, 100, 1e-4], wide=(1e-12, 1e7))
_ph = lambda r, n, lo=0.0, hi=0.7: r.u(lo, hi, n, sp=[.1, .2, .3, .4], wide=(lo, .98))
Elem("Permeability.Kozeny_Carman", "phi d", lambda r, n: dict(phi=_ph(r, n), d=_d(r, n)), lambda phi, d: phi * (d * phi / (1 - phi)) ** 2 / 180, vec="phi d")


def _g_kcp(r, n):
    pc = r.u(0, .1, n, sp=[0, .02, .05])
    return dict(phi=pc + r.u(0, .6, n, sp=[0, .1, .2]), phic=pc, d=_d(r, n), B=r.log(1e-3, 20, n, sp=[1, 15, 1 / 180], wide=(1e-6, 1e6)))


Elem("Permeability.Kozeny_Carman_Percolation", "phi phic d B", _g_kcp, lambda phi, phic, d, B: B * (phi - phic) * (d * (phi - phic) / (1 - (phi - phic))) ** 2, vec="phi phic d B")
_ps = lambda r, n: dict(phi=r.u(0, .5, n, sp=[.1, .2, .3], wide=(0, 1)), Swi=r.u(.02, 1, n, sp=[.1, .2, 1], wide=(1e-4, 1)))
Elem("Permeability.Owolabi", "phi Swi", _ps, lambda phi, Swi: (307 + phi ** 2 * (26552 - 34540 * Swi ** 2), 30.7 + phi ** 2 * (2655 - 3454 * Swi ** 2)), vec="phi Swi", atol=1e-8)
Elem("Permeability.Perm_logs", "phi Swi", _ps, lambda phi, Swi: ((250 * phi ** 3 / Swi) ** 2, (100 * phi ** 2.25 / Swi) ** 2, (100 * phi ** 2 * (1 / Swi - 1)) ** 2, 352 * (phi / Swi) ** 4), vec="phi Swi", atol=1e-11)
Elem("Permeability.Panda_Lake", "d C S tau phi", lambda r, n: dict(d=_d(r, n), C=r.u(0, 2, n, sp=[0, .5, 1], wide=(0, 10)), S=r.u(-1, 2, n, sp=[0, 1], wide=(-5, 10)), tau=r.u(1, 8, n, sp=[2, 2.5], wide=(.2, 60)), phi=_ph(r, n)),
     lambda d, C, S, tau, phi: phi / (72 * tau) * (d * phi / (1 - phi) * (1 + C * C * (3 + C * S)) / (1 + C * C)) ** 2, vec="d C S tau phi")
Elem("Permeability.Panda_Lake_cem", "phi d", lambda r, n: dict(phi=_ph(r, n), d=_d(r, n)), lambda phi, d: 3.34 * phi * (d * phi / (1 - phi)) ** 2, vec="phi d")
Elem("Permeability.Revil", "phi d", lambda r, n: dict(phi=_ph(r, n), d=_d(r, n)), lambda phi, d: (d * phi ** 2.25) ** 2 * (125 / 3), vec="phi d")
Elem("Permeability.Fredrich", "phi d b", lambda r, n: dict(phi=_ph(r, n, .01), d=_d(r, n), b=r.u(1.5, 3.5, n, sp=[2, 3], wide=(.1, 30))), lambda phi, d, b: phi ** 3 * (d / (1 - phi)) ** 2 / (90 * b), vec="phi d b")
Elem("Permeability.Bloch", "S C D", lambda r, n: dict(S=r.u(1, 4, n, sp=[1, 1.5, 2], wide=(.2, 20)), C=r.u(0, 100, n, sp=[0, 1, 50, 80], wide=(0, 200)), D=r.u(.05, 2, n, sp=[.1, .25, .5], wide=(1e-3, 8))),
     lambda S, C, D: (.17 * C + 9.8 / S - 6.1, np.exp(np.log(10) * (-4.67 + 1.34 * D + 4.08 / S + .0342 * C))), vec="S C D", atolf=lambda c: [1e-11, 0])
Elem("Permeability.Bernabe", "phi crf w r", lambda r, n: dict(phi=_ph(r, n), crf=r.u(0, 1, n, sp=[0, 1, .5]), w=_d(r, n), r=_d(r, n)),
     lambda phi, crf, w, r: phi * (crf * w * w / 30 + (1 - crf) * r * r / 20), vec="phi crf w r", atolf=lambda c: [1e-15 * c["phi"] * np.maximum(c["w"], c["r"]) ** 2])
