"""Which module decides which property, how many sessions per tier, and how much must be seen.

SPECS[pid]: quick / thorough = sessions; need = {observation kind: minimum of a quick run}
(fewer than half of it makes the run inconclusive); rule = how cases are made.
"""
CHECKS, SPECS = {}, {}


# Quick runs are this many times the numbers below (7 to 40 s on eight cores).
TIMES = {**dict.fromkeys(['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C25', 'C26'], 18), 'C09': 14,
         **dict.fromkeys(['C08', 'C10', 'C11'], 10), 'C12': 4, 'C13': 4, 'C14': 2, 'C15': 4, 'C16': 2, 'C17': 2, 'C18': 3, 'C19': 5, 'C20': 4, 'C24': 4, 'C27': 4}


# Thorough runs are this many quick ones (about eight minutes on eight cores).
DEEP = {'C01': 36, 'C02': 80, 'C03': 48, 'C04': 20, 'C05': 18, 'C06': 46, 'C07': 26, 'C08': 17, 'C09': 19, 'C10': 19, 'C11': 23, 'C12': 16,
        'C13': 20, 'C14': 17, 'C15': 38, 'C16': 15, 'C17': 17, 'C18': 16, 'C19': 40, 'C20': 15, 'C21': 22, 'C22': 36, 'C23': 23, 'C24': 21,
        'C25': 25, 'C26': 46, 'C27': 18, 'C28': 15, 'C29': 15, 'C30': 15, 'C31': 12, 'C32': 15, 'C33': 15, 'C34': 16, 'C35': 8}


# One session in so many is the first thing a process does (the others follow each other in one process).
NEWBORN = {**dict.fromkeys(['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C25', 'C26'], 60), **dict.fromkeys(['C09', 'C10', 'C11', 'C12'], 40),
           'C08': 20, 'C19': 40, 'C28': 3, 'C29': 3, 'C30': 10, 'C31': 0, 'C32': 10, 'C33': 10, 'C34': 0, 'C35': 8}


def add(pid, module, quick, need, rule, assumptions=()):
    CHECKS[pid] = module
    f = TIMES.get(pid, 1)
    SPECS[pid] = dict(newborn=NEWBORN.get(pid, 12), quick=quick*f, thorough=quick*f*DEEP[pid], need={k: v*f if v > 1 else v for k, v in need.items()}, rule=rule, assumptions=list(assumptions))


NT = 'An observation is one call of the public API judged by the oracle; distinct_nontrivial counts distinct inputs among them. '

add('C01', 'laminate', 1200, {'Q_0': 2000, 'Invariants': 1000, 'v21': 1000},
    NT+'Random orthotropic and isotropic plies (five unit systems, boundary and negative Poisson ratios, e2>e1, ints) and a sibling of each differing in one constant.')
add('C02', 'laminate', 800, {'echo': 2000, 'rejected': 8000, 'readonly': 1000},
    NT+'Valid argument sets, then every argument in turn replaced by a non-number, NaN or an out-of-range value.')
add('C03', 'laminate', 800, {'equal': 2000, 'different': 8000},
    NT+'Equal pairs built in different notations, and pairs differing in exactly one constant, angle, ply or lamination parameter, down to one ulp.')
add('C04', 'laminate', 800, {'ply stiffness': 10000, 'ply transform': 10000, 'z_position': 3000},
    NT+'Random stackings of 1-48 plies, one-respect siblings of each, all angles incl. beyond +-90.')
add('C05', 'laminate', 800, {k: 1500 for k in ('A', 'B', 'D', 'ABD')},
    NT+'As C04; matrices read in random order and repeatedly.')
add('C06', 'laminate', 500, {k: 300 for k in ('rotation', 'mirror', 'reversal', 'half turn', 'thickness', 'stiffness', 'split ply', 'symmetric', 'antisymmetric')},
    NT+'Random laminate and nine related laminates per session.')
add('C07', 'laminate', 800, {'xiA': 2000, 'xiD': 2000, 'A': 500, 'B': 500, 'D': 500, 'round trip': 200},
    NT+'Stacking-defined laminates and lamination-parameter laminates of feasible random parameters.')
add('C08', 'laminate', 240, {'ABD': 400, 'calculate_stress': 500, 'epsilon0': 200, 'load changed': 100, 'result still intact': 5000},
    NT+'30-step random histories over 5-8 objects that share materials, lists and dicts.')
LN = NT+'Random laminates (orthotropic, isotropic, mixed, cores), siblings, and load vectors of one to six components, both signs, ints, scaled by 1000.'
add('C09', 'strength', 600, {'equilibrium': 2000, 'epsilon0': 2000}, LN)
add('C10', 'strength', 500, {'strain table': 2000, 'stress table layout': 1000}, LN)
add('C11', 'strength', 400, {'strain transform': 5000, 'stress transform': 5000, 'hooke': 5000}, LN)
add('C12', 'strength', 500, {'margins': 10000, 'critical margin_t1': 50, 'critical margin_c1': 50, 'critical margin_t2': 50,
                                    'critical margin_c2': 50, 'critical margin_s': 50}, LN+' Orthotropic plies with positive allowables.')
PL = NT+'Random plates: laminate or lamination parameters, sides, loads of every sign pattern and magnitude, boundary conditions in every notation, m and n 1-26; one-respect siblings. '
add('C13', 'plate', 240, {'notation': 400, 'edge condition': 800, 'K and KG': 400, 'coupled K and KG': 80}, PL)
add('C14', 'plate', 240, {'K and KG': 500, 'm != n': 250, 'high order': 40}, PL)
add('C15', 'plate', 160, {'coupled K and KG': 250, 'with B': 100, 'ww block': 60}, PL)
add('C16', 'plate', 400, {'eigenpair': 3000, 'critical factor': 800, 'critical factor far from 1': 300}, PL)
add('C17', 'plate', 240, {k: 50 for k in ('load scale', 'stiffness scale', 'thickness scale', 'size', 'size and thickness', 'axes exchanged', 'turned upside down', 'mirror y', 'mirror x', 'half turn')}, PL)
add('C18', 'plate', 300, {'refinement': 80, 'restraint': 50, 'interaction': 80, 'compression': 80, 'mixture': 60, 'closed form': 60}, PL)
add('C20', 'plate', 160, {'surface': 400, 'oblong grid': 200}, PL)
add('C27', 'plate', 160, {'repeated analysis': 250, 'result still intact': 900}, PL)
add('C19', 'tables', 320, {'integral': 8100, 'shape function': 600, 'product': 20000},
    NT+'Every entry: 9 tables x 30 x 30, 50 shape functions at 12 points, 2500 products at 12 points each (random points change with the seed).')
add('C25', 'nastran', 800, {'sequence': 10000, 'with blocks': 3000, 'symmetric': 3000, 'with pm': 3000, 'documented example': 1},
    NT+'Random expressions of the notation: signed and decimal angles, repetition, plus-minus, blocks with multipliers, symmetry, blanks.')
add('C26', 'nastran', 800, {'card': 8000, 'odd ply count': 2000, 'even ply count': 2000, 'misfit rejected': 500},
    NT+'Cards of 1-80 plies, scalars and lists for every argument, SOUT in every form, with and without offset.')
OP = NT+'Random panels: orthotropic constants, aspect ratios, seven load cases, six edge conditions, m and n 2-4; both region shapes. '
add('C21', 'optimize', 120, {'optimum': 80, 'optimum, triangle': 30, 'optimum, parabola': 25}, OP)
add('C22', 'optimize', 100, {'optimum': 80}, OP)
add('C23', 'optimize', 160, {'warnings': 300, 'warned': 100, 'silent': 60, 'scaled loads': 12, 'scaled loads, weight': 6}, OP)
add('C24', 'optimize', 96, {'plot': 90, 'contour value': 1000, 'infeasible point': 800, 'border line': 150}, OP)
add('C28', 'schedule', 560, {'interrupted': 2800, 'result still intact': 5000, 'repeated analysis': 30, 'stored results after an interrupt': 60},
    NT+'Histories as in C08 and C27; steps are begun, interrupted before a random line of the library (1 to several thousand lines in), and made again.')
add('C29', 'schedule', 800, {'threads run': 700, 'switches': 1000, 'ply stiffness': 200, 'K and KG': 200, 'eigenpair': 200, 'calculate_stress': 100},
    NT+'2-4 threads with 1-4 calls each on shared, unread objects; the schedule (one stop at a chosen line, or a switch at every line with probability 0.01 to 0.5) is drawn from the seed.')
add('C30', 'schedule', 400, {'buckling_analysis': 300, 'calculate_stress': 300, 'plot_eigenvalue': 60, 'minimize_panel_weight': 40, 'rejected LaminateProperty': 300, 'import': 6},
    NT+'One pass over the public interface per session, on random laminates and plates, accepted and rejected calls.')
add('C31', 'settings', 64, {'process': 150, 'tapped calls': 25000, 'flag -OO': 8, 'flag -O': 6, 'setting PYTHONHASHSEED': 12, 'setting printoptions': 10, 'setting pandas': 10, 'setting decimal': 10}, NT+'Each session is a process with its own interpreter flags, environment and library settings that runs sessions of three other checks.')
add('C32', 'settings', 1400, {'deepcopy of a LaminateProperty': 300, 'pickle of a PlateStructure': 150, 'copy of a LaminateStrength': 150, 'together of a LaminateStrength': 150, 'result of another process': 800, 'K and KG': 2000, 'ply stiffness': 1500, 'eigenpair': 2000}, NT+'Objects are copied, deep-copied, pickled alone or together, or sent to another process and back, between reads.')
add('C33', 'ownership', 2400, {'edit: list append': 300, 'edit: dict item': 300, 'edit: inner list append': 30, 'read after an edit': 8000, 'container used again': 800, 'constraints shown edited': 400, 'stored modes': 800, 'result changed: A': 60, 'result changed: B': 60, 'result changed: D': 60, 'result changed: ABD': 60, 'result changed: Q_0': 60, 'result changed: Q_layup': 60, 'result changed: T_layup': 60, 'result changed: z_position': 60, 'result changed: xiA': 40, 'result changed: xiD': 60, 'result changed: epsilon0': 100, 'result changed: calculate_stress': 60, 'result changed: calculate_maxstressmargin': 60, 'result changed: buckling_analysis': 150, 'result changed: calc_K_KG_D': 100, 'definition after edits': 6000}, NT+'Lists, arrays and dictionaries given to laminates and plates are edited, refilled and used again between reads; so are the constraints a plate shows.')
add('C34', 'lasting', 36, {k: 4 for k in ('materials', 'laminates', 'parameters', 'strength', 'plates', 'coupled plates', 'one plate again', 'one laminate again', 'one strength analysis again', 'copies', 'sequences', 'cards', 'rejected', 'maximised', 'minimised', 'pictures', 'design spaces', 'comparisons')},
    'An observation is one phase of a long run: live objects and allocated blocks before and after it. Eighteen runs of 120 to 4800 steps each (objects made, read, analysed and dropped; one object analysed again and again; copies; cards; rejected calls; optimisations; pictures), random inputs in every step.')
add('C35', 'lasting', 240, {'OrthotropicMaterial': 1000, 'IsotropicMaterial': 1000, 'LaminateProperty': 500, 'LaminateProperty, parameters': 500, 'LaminateStrength': 500, 'PlateStructure': 250, 'buckling_analysis': 250,
    'plot_eigenvalue': 40, 'build_pcomp': 1000, 'maximize_buckling_load': 40, 'minimize_panel_weight': 30, 'by position': 2000, 'defaults left out': 2000},
    NT+'Each random call is made plainly and then in random spellings: any number of arguments by position, keywords in any order, defaults given or left out, int, float and numpy numbers, lists, tuples and arrays, names or motions of edges.')
