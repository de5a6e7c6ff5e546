"""Independent reference: transition-state rates and mass-action kinetics.

Written from the physics, not from the code: own expression reader, own
constants, own high-precision context.  Used as an oracle only.
"""
import re

import mpmath

from . import thermo
from .gen import MECHANISMS

KB = 8.6173324e-5       # eV / K
H = 4.135667662e-15     # eV s

ctx = mpmath.MPContext()
ctx.dps = 120


def terms(side):
    out = []
    for t in side.split(' + '):
        m = re.match(r'^(\d*)(.+)$', t.strip())
        out.append((int(m.group(1) or 1), m.group(2)))
    return out


def reaction(expr):
    parts = re.split(r'\s*<->\s*|\s*->\s*', expr)
    return terms(parts[0]), terms(parts[-1])


def num(x):
    """Exact value of a number of any mpmath context, float, numpy or int."""
    if hasattr(x, '_mpf_'):
        return ctx.make_mpf(x._mpf_)
    return ctx.mpf(float(x))


class Ref(object):
    def __init__(self, s):
        self.s = s
        m = MECHANISMS[s['mech']]
        self.m = m
        self.rxns = [reaction(r) for r in m['rxns']]
        self.ads = list(m['ads'])
        self.gases = list(m['gases'])

    @staticmethod
    def relative(e):
        """Relative energies belonging to barriers and reaction energies."""
        Gaf, Gar = [], []
        for a, d in zip(e['Ga'], e['dG']):
            if abs(a) < 1e-10 and d > 0.0:
                a = d
            Gaf.append(a)
            Gar.append(a - d)
        return {'Gaf': Gaf, 'Gar': Gar, 'dG': list(e['dG'])}

    def k(self, rel, T=None):
        T = ctx.mpf(T if T is not None else self.s['T'])
        kB, h = ctx.mpf(KB), ctx.mpf(H)
        f = lambda G: kB * T / h * ctx.exp(-num(G) / (kB * T))
        if self.s.get('algo') == 'CT':
            return self.collisions(rel, T, f)
        return [f(g) for g in rel['Gaf']], [f(g) for g in rel['Gar']]

    def collisions(self, rel, T, tst):
        """Rate constants (at 1 atm) with collision theory for adsorption steps."""
        kf, kr, kT = [], [], ctx.mpf(KB) * T
        for (a, b), Gf, Gr, dG in zip(self.rxns, rel['Gaf'], rel['Gar'], rel['dG']):
            Gf, Gr, dG = num(Gf), num(Gr), num(dG)
            gas = [x for x in a if x[1].endswith('_g')] or [x for x in b if x[1].endswith('_g')]
            shift = 0
            if gas:
                shift = gas[0][0] * num(thermo.entropy(gas[0][1], float(T), thermo.P0))
            if any(sp.endswith('_g') for _, sp in a):
                m = num(thermo.mass(gas[0][1]))
                f = (ctx.mpf(4) / 9 * ctx.exp(-Gf / kT) * num(thermo.P0) * num(9.0e-20) /
                     ctx.sqrt(2 * ctx.pi * m * num(thermo.KBJ) * T))
                kf.append(f)
                kr.append(tst(max(-ctx.log(f * ctx.mpf(H) / kT) * kT - (dG - shift), 0)))
            else:
                kf.append(tst(Gf))
                kr.append(tst(Gr - shift))
        return kf, kr

    def theta(self, cvgs, ads_names=None):
        names = ads_names or self.ads
        th = {a: num(c) for a, c in zip(names, cvgs)}
        for site, tot in zip(self.m['sites'], self.s['totals']):
            th['*_' + site] = ctx.mpf(tot) - sum(
                (v for a, v in th.items() if not a.startswith('*') and
                 a.rsplit('_', 1)[1] == site), ctx.mpf(0))
        return th

    def rates(self, cvgs, ks, ads_names=None, pressure=None):
        th = self.theta(cvgs, ads_names)
        P = pressure or self.s['pressure']

        def side(lst):
            r = ctx.mpf(1)
            for n, sp in lst:
                if sp.endswith('_l'):
                    x = ctx.mpf(self.s['conc'][sp])
                else:
                    x = ctx.mpf(P[sp]) if sp.endswith('_g') else th[sp]
                r *= x ** n
            return r
        kf, kr = [[num(x) for x in y] for y in ks]
        return ([kf[i] * side(a) for i, (a, b) in enumerate(self.rxns)],
                [kr[i] * side(b) for i, (a, b) in enumerate(self.rxns)])

    def balance(self, species, rf, rr):
        tot = ctx.mpf(0)
        for (a, b), f, r in zip(self.rxns, rf, rr):
            n = sum(c for c, sp in b if sp == species) - sum(c for c, sp in a if sp == species)
            tot += n * (f - r)
        return tot

    def dtheta(self, cvgs, ks, ads_names=None):
        rf, rr = self.rates(cvgs, ks, ads_names)
        return [self.balance(a, rf, rr) for a in (ads_names or self.ads)]

    def tof(self, cvgs, ks, gases=None, ads_names=None):
        rf, rr = self.rates(cvgs, ks, ads_names)
        return [self.balance(g, rf, rr) for g in
                list(gases or self.gases) + self.m.get('liquids', [])]


def close(a, b, rel=1e-9, abs_=0.0):
    a, b = num(a), num(b)
    return abs(a - b) <= rel * max(abs(a), abs(b)) + abs_


def close_list(xs, ys, rel=1e-9, abs_=0.0):
    return len(xs) == len(ys) and all(close(x, y, rel, abs_) for x, y in zip(xs, ys))
