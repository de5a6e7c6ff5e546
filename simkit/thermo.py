"""Reference for the thermodynamic corrections of gas energies.

Written from the documentation (Shomate equation; ideal gas partition functions), with
its own copy of the numbers.  A gas without data is not corrected.
"""
import math

KBJ, KBE, H, P0, AMU = 1.38064852e-23, 8.6173324e-5, 6.626070040e-34, 101325.0, 1.66053904e-27
EV = 0.01036427                  # eV per kJ/mol
MASS = {'H': 1.00794, 'C': 12.0107, 'N': 14.0067, 'O': 15.9994}
ROTATION = {'H2_g': (2, 87.5), 'N2_g': (2, 2.89), 'O2_g': (2, 2.08), 'CO_g': (1, 2.78),
            'NO_g': (1, 2.45), 'CO2_g': (2, 0.66), 'H2O_g': (2, 40.4, 21.1, 13.5)}
VIBRATION = {'H2_g': [6320.0], 'N2_g': [3390.0], 'O2_g': [2278.0], 'CO_g': [3120.0],
             'NO_g': [2745.0], 'CO2_g': [954.0, 1890.0, 3360.0],
             'H2O_g': [2290.0, 5160.0, 5360.0]}
LIMITS = {}                      # filled below: temperatures where the data of a gas end
SHOMATE = [
    ('H2_g', 298, 1000, (33.066178, -11.363417, 11.432816, -2.772874, -0.158558, -9.980797,
                         172.707974, 0)),
    ('H2_g', 1000, 2500, (18.563083, 12.257357, -2.859786, 0.268238, 1.977990, -1.147438,
                          156.288133, 0)),
    ('H2_g', 2500, 6000, (43.413560, -4.293079, 1.272428, -0.096876, -20.533862, -38.515158,
                          162.081354, 0)),
    ('CO_g', 298, 1300, (25.56759, 6.096130, 4.054656, -2.671201, 0.131021, -118.0089, 227.3665,
                         -110.5271)),
    ('CO_g', 1300, 1600, (35.15070, 1.300095, -0.205921, 0.013550, -3.282780, -127.8375, 231.7120,
                          -110.5271)),
    ('H2O_g', 100, 500, (36.303952, -24.11232, 63.64111, -38.9524, -0.01385, -10.23966, 237.39431,
                         0.0)),
    ('H2O_g', 500, 1700, (30.09200, 6.832514, 6.793435, -2.534480, 0.082139, -250.8810, 223.3967,
                          -241.8264)),
    ('H2O_g', 1700, 6000, (41.96426, 8.622053, -1.499780, 0.098119, -11.15764, -272.1797, 219.7809,
                           -241.8264)),
    ('CO2_g', 298, 1200, (24.99735, 55.18696, -33.69137, 7.948387, -0.136638, -403.6075, 228.2431,
                          -393.5224)),
    ('CO2_g', 1200, 6000, (58.16639, 2.720075, -0.492289, 0.038844, -6.447293, -425.9186, 263.6125,
                           -393.5224)),
    ('O2_g', 100, 700, (31.32234, -20.23531, 57.8664, -36.50624, -0.007374, -8.903471, 246.7945,
                        0.0)),
    ('O2_g', 700, 2000, (30.03235, 8.772972, -3.988133, 0.788313, -0.741599, -11.32468, 236.1663,
                         0.0)),
    ('O2_g', 2000, 6000, (20.91111, 10.72071, -2.020498, 0.146449, 9.245722, 5.337651, 237.6185,
                          0.0)),
    ('N2_g', 100, 500, (28.98641, 1.853978, -9.647459, 16.63537, 0.000117, -8.671914, 226.4168,
                        0.0)),
    ('N2_g', 500, 2000, (19.50583, 19.88705, -8.598535, 1.369784, 0.527601, -4.935202, 212.3900,
                         0.0)),
    ('NO_g', 298, 1200, (23.83491, 12.58878, -1.139011, -1.497459, 0.214194, 83.35783, 237.1219,
                         90.29114)),
]


for _row in SHOMATE:
    LIMITS.setdefault(_row[0], []).extend(_row[1:3])


def mass(gas):
    """Mass of a molecule, kg."""
    import re
    return AMU * sum(MASS[e] * int(n or 1)
                     for e, n in re.findall(r'([A-Z][a-z]?)(\d*)', gas.rsplit('_', 1)[0]))


def shomate(gas, T):
    if not gas.endswith('_g'):
        return 0.0
    for name, low, high, (a, b, c, d, e, f, g, h) in SHOMATE:
        if name != gas:
            continue

        def enthalpy(x):
            return a * x + b / 2 * x ** 2 + c / 3 * x ** 3 + d / 4 * x ** 4 - e / x + f - h

        def entropy(x):
            return a * math.log(x) + b * x + c / 2 * x ** 2 + d / 3 * x ** 3 - e / (2 * x * x) + g

        def heat(x):
            return a + b * x + c * x ** 2 + d * x ** 3 + e / x ** 2
        t, t0 = T / 1000.0, 0.29815
        if low <= T <= high:
            return EV * (t0 * heat(t0) + enthalpy(t) - enthalpy(t0) - t * entropy(t))
        if T < low < 300:        # below the data: the heat capacity stays what it is
            return EV * (t * heat(low / 1000.0) - t * entropy(low / 1000.0))
    return 0.0


def entropy(gas, T, p, m=None):
    """p in Pa."""
    if gas not in ROTATION or gas not in VIBRATION:
        return 0.0
    m = mass(gas) if m is None else m
    q = KBJ * T / p * (2 * math.pi * m * KBJ * T / H ** 2) ** 1.5
    sigma, theta = ROTATION[gas][0], ROTATION[gas][1:]
    if len(theta) == 1:
        x = theta[0] / T
        q *= 1 / (sigma * x) * (1.0 if x <= 0.01 else 1 + x / 3 + x * x / 15)
    else:
        q *= math.sqrt(math.pi) / sigma * math.sqrt(T ** 3 / math.prod(theta))
    vib = VIBRATION[gas]
    if len(vib) == 1:
        q *= math.exp(-vib[0] / (2 * T)) / (1 - math.exp(-vib[0] / T))
    else:
        for v in vib:
            q /= 1 - math.exp(-v / T)
    return -KBE * T * math.log(q)


def corrected(rxns, rel, method, T, pressure):
    """rxns: reaction expressions; pressure: {gas: atm}."""
    from simkit.refmodel import terms
    out = {x: [float(v) for v in rel[x]] for x in ('Gaf', 'Gar', 'dG')}

    def shift(side):
        return sum(n * (shomate(sp, T) if method == 'shomate' else
                        entropy(sp, T, P0 * pressure[sp]) if sp in pressure else 0.0)
                   for n, sp in terms(side))
    for i, r in enumerate(rxns):
        d = [shift(p.strip()) for p in r.replace('<->', '->').split('->')]
        if len(d) == 2:
            e0, e1 = d[0], out['dG'][i] + d[1]
            top = max(e0, e1)
            out['Gaf'][i], out['Gar'][i], out['dG'][i] = top - e0, top - e1, e1 - e0
        else:
            out['Gaf'][i] += d[1] - d[0]
            out['Gar'][i] += d[1] - d[2]
            out['dG'][i] += d[2] - d[0]
    return out
