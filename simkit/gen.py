"""Generators of benign (well-conditioned) systems.

Stiff or degenerate systems make any Newton solver crawl; the properties speak
about solvable ones, so barriers, reaction energies and pressures are kept in a
range in which rate constants differ by a few orders of magnitude only.
"""

import ast

MECHANISMS = {
    'co_ox': dict(
        rxns=['CO_g + *_s -> CO_s',
              'O2_g + 2*_s -> 2O_s',
              'CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s'],
        gases=['CO_g', 'O2_g', 'CO2_g'], sites=['s'], ads=['CO_s', 'O_s']),
    'co_ads': dict(
        rxns=['CO_g + *_s -> CO_s'], gases=['CO_g'], sites=['s'], ads=['CO_s']),
    'h2_diss': dict(
        rxns=['H2_g + 2*_s <-> H-H_2s -> 2H_s'], gases=['H2_g'], sites=['s'], ads=['H_s']),
    'ethene': dict(
        rxns=['H2_g + 2*_s <-> H-H_2s -> 2H_s',
              'C2H4_g + *_s -> C2H4_s',
              'C2H4_s + H_s <-> C2H4-H_2s -> C2H5_s + *_s',
              'C2H5_s + H_s <-> C2H5-H_2s -> C2H6_g + 2*_s'],
        gases=['H2_g', 'C2H4_g', 'C2H6_g'], sites=['s'], ads=['H_s', 'C2H4_s', 'C2H5_s']),
    'two_site': dict(
        rxns=['CO_g + *_t -> CO_t',
              'O2_g + 2*_b -> 2O_b',
              'CO_t + O_b -> CO2_g + *_t + *_b'],
        gases=['CO_g', 'O2_g', 'CO2_g'], sites=['t', 'b'], ads=['CO_t', 'O_b']),
    'no_red': dict(
        rxns=['NO_g + *_s -> NO_s',
              'NO_s + *_s <-> N-O_2s -> N_s + O_s',
              '2N_s -> N2_g + 2*_s',
              '2O_s -> O2_g + 2*_s'],
        gases=['NO_g', 'N2_g', 'O2_g'], sites=['s'], ads=['NO_s', 'N_s', 'O_s']),
    'iso': dict(
        rxns=['CO_g + *_s -> CO_s',
              'CO_s -> CO_g + *_s'],
        gases=['CO_g'], sites=['s'], ads=['CO_s']),
    'auto': dict(        # adsorbate on both sides
        rxns=['CO_g + *_s -> CO_s',
              'CO_g + CO_s + *_s -> 2CO_s',
              'O2_g + 2*_s -> 2O_s',
              'CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s'],
        gases=['CO_g', 'O2_g', 'CO2_g'], sites=['s'], ads=['CO_s', 'O_s']),
    'water': dict(       # adsorbate listed twice
        rxns=['H2O_g + *_s -> H2O_s',
              'OH_s + OH_s <-> OH-OH_2s -> H2O_s + O_s',
              'H2_g + 2*_s -> H_s + H_s',
              'O_s + H_s -> OH_s + *_s'],
        gases=['H2O_g', 'H2_g'], sites=['s'], ads=['H2O_s', 'OH_s', 'H_s', 'O_s']),
    'liquid': dict(      # a species in solution
        rxns=['H2O_l + *_s -> H2O_s',
              'CO_g + *_s -> CO_s',
              'H2O_s + CO_s <-> H2O-CO_2s -> CO2_g + H2_g + 2*_s'],
        gases=['CO_g', 'CO2_g', 'H2_g'], liquids=['H2O_l'], sites=['s'], ads=['H2O_s', 'CO_s']),
    'liquid2': dict(     # several molecules of it, into and out of solution
        rxns=['2H2O_l + 2*_s -> 2H2O_s',
              'CO_g + *_s -> CO_s',
              'CO_s + H2O_s -> CO2_g + H2_g + 2*_s',
              'H2O_s -> H2O_l + *_s'],
        gases=['CO_g', 'CO2_g', 'H2_g'], liquids=['H2O_l'], sites=['s'], ads=['H2O_s', 'CO_s']),
    'gas2': dict(        # several molecules of a gas in one step
        rxns=['2CO_g + 2*_s -> 2CO_s',
              'O2_g + 2*_s -> 2O_s',
              '2CO_s + 2O_s <-> 2CO-O_2s -> 2CO2_g + 4*_s'],
        gases=['CO_g', 'O2_g', 'CO2_g'], sites=['s'], ads=['CO_s', 'O_s']),
    'hop': dict(         # one molecule on two kinds of site
        rxns=['CO_g + *_t -> CO_t',
              'CO_g + *_b -> CO_b',
              'CO_t + *_b -> CO_b + *_t'],
        gases=['CO_g'], sites=['t', 'b'], ads=['CO_t', 'CO_b']),
    'names': dict(       # names that contain each other
        rxns=['CO_g + *_s -> CO_s',
              'H2_g + 2*_ss -> 2H_ss',
              'CO_s + H_ss <-> H-CO_s + *_ss -> HCO_s + *_ss',
              'HCO_s + H_ss <-> H-HCO_s + *_ss -> H2CO_g + *_s + *_ss'],
        gases=['CO_g', 'H2_g', 'H2CO_g'], sites=['s', 'ss'], ads=['CO_s', 'H_ss', 'HCO_s']),
    'long': dict(        # more than ten reactions
        rxns=['CO_g + *_s -> CO_s',
              'O2_g + 2*_s -> 2O_s',
              'CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s',
              'H2_g + 2*_s <-> H-H_2s -> 2H_s',
              'O_s + H_s <-> O-H_2s -> OH_s + *_s',
              'OH_s + H_s <-> H-OH_2s -> H2O_g + 2*_s',
              '2OH_s <-> OH-OH_2s -> H2O_g + O_s + *_s',
              'CO_s + OH_s <-> CO-OH_2s -> CO2_g + H_s + *_s',
              'CO_g + O_s -> CO2_g + *_s',
              'OH_s + H_s -> H2O_g + 2*_s',
              'CO_s + O_s -> CO2_g + 2*_s',
              '2OH_s -> H2O_g + O_s + *_s'],
        gases=['CO_g', 'O2_g', 'CO2_g', 'H2_g', 'H2O_g'], sites=['s'],
        ads=['CO_s', 'O_s', 'H_s', 'OH_s']),
}
SMALL = ['co_ox', 'co_ads', 'h2_diss', 'two_site', 'iso', 'auto', 'co_ox', 'h2_diss', 'two_site',
         'liquid', 'hop', 'names']
MANY = SMALL + SMALL + ['gas2', 'long', 'no_red', 'ethene', 'water',
                        'liquid2']


def energies(rng, nrxn):
    """Benign barriers and reaction energies."""
    Ga, dG = [], []
    for _ in range(nrxn):
        d = round(rng.uniform(-0.18, 0.12), 3)
        a = round(rng.uniform(0.30, 0.62), 3)
        Ga.append(a)
        dG.append(d)
    return {'Ga': Ga, 'dG': dG}


def explicit(e):
    """Explicit relative energies as the solver accepts them."""
    return {'Gaf': list(e['Ga']), 'Gar': [a - d for a, d in zip(e['Ga'], e['dG'])],
            'dG': list(e['dG'])}


def mkm(rng, mechs=None, precision=None):
    """A random mean-field system (JSON-able description)."""
    name = rng.choice(mechs or sorted(MECHANISMS))
    m = MECHANISMS[name]
    totals = [1.0] if len(m['sites']) == 1 else [0.5, 0.5]
    if rng.random() < 0.25:
        totals = [round(rng.uniform(0.4, 1.0), 2) for _ in totals]
        s = sum(totals)
        if s > 1.0:
            totals = [round(t / s, 2) for t in totals]
    return {
        'mech': name,
        'pressure': {g: round(rng.uniform(0.1, 1.5), 3) for g in m['gases']},
        'conc': {x: round(rng.uniform(0.1, 1.5), 3) for x in m.get('liquids', ())},
        'totals': totals,
        'T': round(rng.uniform(420, 620), 1),
        'energies': energies(rng, len(m['rxns'])),
        'dps': precision or rng.choice([30, 40, 50, 60, 100]),
        'tol': rng.choice([1e-8, 1e-10, 1e-12, 1e-15]),
        'maxit': rng.choice([30, 60, 100]),
        'rootfinding': 'MDNewton',
    }


def collisions(rng, s, p):
    """Some systems get their adsorption rates from collision theory."""
    if s['mech'] in ('liquid', 'liquid2') or rng.random() >= p:
        return
    s['algo'] = 'CT'


def collision_energies(rng, s, e):
    """Energies without the entropy of gases, as collision theory wants them."""
    from . import thermo
    from .refmodel import reaction
    for i, r in enumerate(MECHANISMS[s['mech']]['rxns']):
        gas = [x for x in reaction(r)[0] if x[1].endswith('_g')]
        if gas:
            e['Ga'][i] = round(rng.uniform(0.0, 0.15), 3)
            e['dG'][i] += gas[0][0] * thermo.entropy(gas[0][1], s['T'], thermo.P0)
            e['dG'][i] = round(e['dG'][i] + rng.uniform(-0.4, 0.0), 3)
    return e


def setup_dict(s, **extra):
    m = MECHANISMS[s['mech']]
    defs = {g: {'pressure': p} for g, p in s['pressure'].items()}
    for x, c in s.get('conc', {}).items():
        defs[x] = {'concentration': c}
    for site, tot in zip(m['sites'], s['totals']):
        defs['*_' + site] = {'site_name': site, 'type': 'site', 'total': tot}
    d = dict(rxn_expressions=list(m['rxns']), species_definitions=defs,
             temperature=s['T'], parser='RelativeEnergyParser',
             solver='SteadyStateSolver', corrector='ThermodynamicCorrector',
             rootfinding=s['rootfinding'], tolerance=s['tol'],
             decimal_precision=s['dps'], max_rootfinding_iterations=s['maxit'])
    if s.get('algo') == 'CT':
        d.update(rate_algo='CT', unitcell_area=9.0e-20, active_ratio=4. / 9)
    if 'archived' in s:
        d['archived_variables'] = list(s['archived'])
    d.update(extra)
    return d


def construct(M, d, env, s, name='setup.mkm', **kw):
    """A model from its set-up data: for one system in five, from a file."""
    if int(round(s['T'] * 10)) % 5 or not all(literal(v) for v in d.values()):
        return M(setup_dict=d, **kw)
    env.sim.probes['set-up-file'] += 1
    env.put(name, '# set-up\n' + ''.join('%s = %r\n' % x for x in d.items()))
    return M(setup_file=name, **kw)


def literal(v):
    try:
        return ast.literal_eval(repr(v)) == v
    except (ValueError, SyntaxError):
        return False


def guess(rng, s):
    """A physically meaningful random starting point."""
    m = MECHANISMS[s['mech']]
    out = []
    for a in m['ads']:
        site = a.rsplit('_', 1)[1]
        tot = s['totals'][m['sites'].index(site)]
        n = sum(1 for x in m['ads'] if x.rsplit('_', 1)[1] == site)
        out.append(round(rng.uniform(0.02, 0.9) * tot / n, 4))
    return out


def hybrid(rng, s):
    """Parameters of a deterministic sequence of new guesses (see next_guess)."""
    return [[round(rng.random(), 4), round(rng.uniform(0.3, 0.7), 6)]
            for _ in MECHANISMS[s['mech']]['ads']]


def next_guess(s, par, k):
    """The k-th new guess: physical, and spread over all physical ones."""
    m = MECHANISMS[s['mech']]
    share, out = {}, []
    for a, (x0, step) in zip(m['ads'], par):
        site = a.rsplit('_', 1)[1]
        free = share.get(site, s['totals'][m['sites'].index(site)])
        x = (x0 + (k + 1) * step) % 1.0
        c = free * (0.02 + 0.95 * x)
        share[site] = free - c
        out.append(c)
    return out


def build(node, s, env, logger_level=10, explicit_data=True, **extra):
    """Builds a model through the public interface (in the active node)."""
    MKM = node.mod('scaks.models.micro_kinetic_model').MicroKineticModel
    model = construct(MKM, setup_dict(s, **extra), env, s, 'setup_%d.mkm' % node.rank,
                      logger_level=logger_level)
    if explicit_data:
        model.parser.parse_data(energy_data={k: list(v) for k, v in s['energies'].items()})
    model.solver.get_data()
    return model
