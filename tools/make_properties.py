#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and known_findings.jsonl (all committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAT, PROP, STR = 'composipy/core/material.py', 'composipy/core/property.py', 'composipy/core/strength.py'
STRUCT, VAL = 'composipy/core/structure.py', 'composipy/utils/validators.py'
BK, FN, II, SF = ('composipy/pre_integrated_component/'+x for x in ('build_k.py', 'functions.py', '_ii_F.py', '_S.py'))
MB, MW, UT = ('composipy/optimize/'+x for x in ('_maximize_buckling.py', '_minimize_panel_weight.py', 'utils.py'))
NA = 'composipy/nastranapi/pcomp_generator.py'

P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=()):
    P.append(dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': list(observe), 'hook_needed': None},
                  _t=technique, _n=note))


ORC = 'runtime monitors on the public API judged by an independent reference oracle, under randomised workloads'
MET = 'runtime monitors checking relations between observed executions (metamorphic oracle), under randomised workloads'
HIS = 'online history monitors (reference model + immutability of inputs and results) over random operation sequences'
TR = 'Trusts numpy/scipy linear algebra and the reference formulas in vlib/oracle.py, which share no code or table with the library. Held on the executions observed, nothing more.'

prop('C01', 'Ply stiffness is the inverse of the ply compliance',
     'For every orthotropic or isotropic ply, the reported ply stiffness matrix is the inverse of the plane-stress compliance built from its elastic constants, the minor Poisson ratio satisfies v21/e2 = v12/e1, and the five stiffness invariants of an orthotropic ply reproduce the stiffness of the ply rotated to any angle. This holds for every admissible set of constants, unit system and order of reading.',
     ['inputs'], 'all admissible elastic constants (including zero or negative Poisson ratio, e2 > e1, the isotropic limit) in any units',
     'One orthotropic ply with fixed constants is compared; isotropic plies, the invariants and the other constants are never looked at.',
     [MAT], [('Q_0, v21, Invariants', MAT)], ORC, TR, ['ply stiffness', 'minor Poisson ratio', 'invariants'])
prop('C02', 'Constructors reject bad input, echo good input, and stay read-only',
     'Materials, laminates and plates reject arguments that are not real numbers, are NaN, or lie outside the documented range (negative moduli, thickness, allowables or sides; Poisson ratio outside [-0.5, 0.5]; series sizes that are not integers of at least 1; a plate property that is not a laminate; a ply list of another length than the stacking) with ValueError, and lamination-parameter definitions without bending parameters or thickness with KeyError. Accepted arguments are read back with exactly the value given, arguments left out have their documented defaults, and the attributes of materials and plates cannot be reassigned.',
     ['inputs'], 'every argument of every constructor, every kind of bad value, boundaries included, positional or by keyword',
     'No test constructs anything invalid or reads an attribute back.',
     [MAT, PROP, STRUCT, VAL], [('number and type validators', VAL), ('constructors', MAT), ('constructor', STRUCT), ('constructor', PROP)],
     'runtime monitors on constructors (echo, rejection, read-only), under generated valid and single-fault invalid calls', 'Exceptions are judged by type. '+TR)
prop('C03', 'Materials and laminates are equal exactly when their definition is',
     'Two materials of the same kind are equal exactly when all their constants, thickness and allowables are equal, whatever their names; two laminates are equal exactly when they have the same angles and equal plies in the same order, or, when defined by lamination parameters, the same parameters, thickness and material. Equality is symmetric, agrees with inequality, does not depend on the notation used to build the objects or on what was computed from them, and a laminate never equals something that is not a laminate.',
     ['inputs', 'histories'], 'pairs of objects differing in nothing, in the notation only, or in exactly one constant by as little as one ulp',
     'No test compares two objects.', [MAT, PROP], [('__eq__', MAT), ('__eq__', PROP)], ORC, TR)
prop('C04', 'Ply stiffness in laminate axes, ply transforms and ply positions',
     'For every ply of a laminate, the reported ply stiffness in laminate axes is the ply stiffness rotated by the ply angle for any angle in degrees, and the reported transformation matrices take stresses and engineering strains from laminate to ply axes. The reported ply interfaces start at minus half the total thickness, increase by the thickness of each ply from the bottom up, and end at plus half.',
     ['inputs'], 'all stackings (any number of plies, any angle, mixed materials and thicknesses)',
     'A few stackings of one material are checked through A, B, D only.', [PROP], [('Q_layup, T_layup, z_position', PROP)], ORC, TR)
prop('C05', 'A, B, D are the through-thickness integrals of the ply stiffnesses',
     'For every stacking, the extensional, coupling and bending stiffness matrices are the integrals over the thickness of the rotated ply stiffness times 1, z and z squared, with z measured from the mid-plane and the first ply at the bottom. The combined 6x6 matrix is their assembly [[A, B], [B, D]], whichever of them was read before.',
     ['inputs', 'histories'], 'all stackings (symmetric or not, mixed materials and thicknesses, one to many plies), all orders of reading',
     'Six fixed laminates, mostly of one material.', [PROP], [('A, B, D, ABD', PROP)], ORC, TR)
prop('C06', 'Laminate stiffness is objective: rotation, mirror, reversal, scaling, splitting',
     'The laminate stiffness matrices are symmetric and jointly positive definite; rotating all plies rotates them as tensors, changing the sign of all angles changes the sign of the shear-coupling terms only, and turning the laminate upside down changes the sign of B only. Half turns of plies and cutting a ply in two change nothing, stiffness and thickness scale them by the corresponding powers, and symmetric laminates have B = 0.',
     ['inputs'], 'all stackings and all rotations, scalings and cuts of them',
     'Tests compare numbers of single laminates, never two related laminates.', [PROP], [('A, B, D, ABD', PROP)], MET, TR)
prop('C07', 'Lamination parameters and the laminates they define agree',
     'The lamination parameters reported for a stacking are the thickness-weighted averages of cos 2t, sin 2t, cos 4t, sin 4t (plain for extension, weighted with 12 z squared / T squared for bending), lie in the feasible region, and a laminate defined by them and its thickness has the same A and D, and B = 0. A laminate defined by lamination parameters has the A and D these parameters determine for its ply material and thickness (A = 0 when no extensional parameters are given), and reports the parameters it was given.',
     ['inputs'], 'all stackings; all feasible lamination parameters, thicknesses and ply materials',
     'Two stackings and one set of parameters are tested.', [PROP, MAT], [('xiA, xiD, A, B, D', PROP), ('Invariants', MAT)], ORC, TR)
prop('C08', 'Laminate and strength results do not depend on the history of calls',
     'Every result read from a laminate or a strength analysis is the one determined by its definition and current loads, no matter which results were read before, in which order, how often, or on which other objects sharing the same plies, lists or dictionaries. Nothing given by the caller is modified, results already returned do not change later, and changing a load of a strength analysis changes its next results accordingly.',
     ['histories', 'inputs'], 'all interleavings of reads, analyses and load changes over several objects that share their inputs',
     'Every test reads one object once.', [PROP, STR, MAT], [('cached matrices', PROP), ('cached Q_0', MAT), ('tables from current loads', STR)], HIS, TR)
prop('C09', 'Laminate stresses are in equilibrium with the applied loads',
     'The in-plane stresses reported ply by ply, integrated through the thickness, recover the applied membrane forces, and their first moments about the mid-plane recover the applied moments. The reported mid-plane strains and curvatures, multiplied by the laminate stiffness, give the applied loads, also for laminates defined by lamination parameters.',
     ['inputs'], 'all laminates and all combinations of the six load components',
     'One symmetric laminate under one load.', [STR, PROP], [('epsilon0, calculate_stress', STR)], ORC, TR)
prop('C10', 'Strains vary linearly through the thickness and tables are laid out bottom up',
     'The reported laminate strains at the bottom and top of each ply are the mid-plane strains plus z times the curvatures for the applied loads, so they are continuous between plies. The strain and stress tables have two rows per ply, from the bottom ply to the top ply and bottom before top, carrying the ply number, the height, the position label and the ply angle of that row.',
     ['inputs'], 'all laminates and load combinations', 'One laminate, strain columns only.', [STR], [('calculate_strain, calculate_stress', STR)], ORC, TR)
prop('C11', 'Ply-axis stresses and strains are consistent with laminate axes and Hooke\'s law',
     'In every row, the strains and stresses in ply axes are the laminate-axis ones rotated by the ply angle (engineering shear strain), and stress is ply stiffness times strain in both systems of axes. The strain energy computed in either system is the same.',
     ['inputs'], 'all laminates, angles, and load combinations', 'One laminate, one load, strains only.', [STR, PROP], [('ply-axis tables', STR)], ORC, TR)
prop('C12', 'Maximum-stress margins state allowable over demand minus one per ply and mode',
     'For every ply face, each margin is the allowable of its mode divided by the magnitude of the stress of that mode, minus one, and infinite when the stress has the other sign; each row carries the ply number, position and angle of the stresses it was computed from. The critical mode of a row is the one with its lowest margin.',
     ['inputs'], 'all laminates of orthotropic plies with positive allowables, infinite ones included (mixed materials too), all load combinations', 'No test calls it.', [STR, MAT], [('calculate_maxstressmargin', STR)], ORC, 'Zero allowables and isotropic plies are outside the claim. '+TR)
prop('C13', 'Boundary conditions restrain exactly the motions named, in any notation',
     'Each edge restrains exactly the displacements and slopes of u, v and w listed for it, independently per field and edge, and the name of a condition, the list of its motions in any order, and the global keyword mean the same, edge by edge. Buckling modes vanish, and have zero slope, on the edges where that is required, and no restraint is added elsewhere.',
     ['inputs', 'configurations'], 'all combinations of restrained motions on the four edges, all notations, all series sizes', 'Only a handful of symmetric conditions, through the first buckling factor.', [STRUCT], [('translation of constraints into index lists', STRUCT)], ORC, TR)
prop('C14', 'Bending stiffness and geometric matrices are the energy Hessians',
     'For a plate in bending, the stiffness matrix is the Hessian of the bending strain energy, and the geometric stiffness matrix that of the work of the membrane forces, over the shape functions the boundary conditions leave, for every D (with bend-twist coupling), side lengths, loads, boundary conditions and series sizes.',
     ['inputs', 'configurations'], 'all plates, m and n from 1 up to the size of the tables', 'Only the first buckling factor of a few plates with m = n is tested.', [STRUCT, BK, FN, II], [('calc_K_KG_D', STRUCT), ('k33, kG33', BK), ('integral tables', II)], ORC, TR)
prop('C15', 'Coupled stiffness matrix is the Hessian of the laminate energy',
     'With membrane-bending coupling, the assembled stiffness matrix is the Hessian of the full laminate strain energy in u, v and w, hence symmetric and positive semi-definite, and the geometric matrix acts on w only. Its bending part equals the matrices of the pure bending formulation.',
     ['inputs', 'configurations'], 'all laminates (unsymmetric too), sides, boundary conditions and series sizes', 'No test calls it.', [STRUCT, BK, FN, II], [('calc_K_KG_ABD', STRUCT), ('k11..k33', BK)], ORC, TR)
prop('C16', 'Buckling analysis returns the lowest positive load factors and their modes',
     'The buckling analysis returns as many factors as asked for (at most the number of shape functions minus two), in ascending order and starting with the lowest positive one (negative ones, where there are not enough positive ones, follow in ascending order), for any magnitude and combination of loads. Every factor with its vector satisfies the stability equation (K + factor KG) x = 0, and the last results stay readable from the plate.',
     ['inputs', 'configurations'], 'all plates whose bending stiffness is positive definite and on which the loads do work, all load magnitudes over many decades, all numbers of factors', 'Loads of unit magnitude and the first factor of a few plates.', [STRUCT, BK], [('buckling_analysis', STRUCT)], ORC, 'Compared in the reciprocal of the factor, so that factors beyond the numerical resolution are not judged. '+TR)
prop('C17', 'Buckling factors obey the scaling and symmetry laws of plates',
     'Buckling factors are inversely proportional to the loads and proportional to the moduli, to the cube of the thickness and to the inverse square of the plate size. Exchanging the axes of the whole problem, mirroring it (angles, shear load and edges together), turning the plate by half a turn, or turning the laminate upside down leaves them unchanged.',
     ['inputs'], 'all plates and all scalings and symmetries of them', 'Tests never compare two plates.', [STRUCT, BK, PROP], [('buckling_analysis', STRUCT)], MET, TR)
prop('C18', 'Critical load is a Ritz upper bound and monotone',
     'Adding shape functions never raises the critical factor, adding restraints or removing compression never lowers it, the interaction of load cases is convex, and the critical load is concave in the bending lamination parameters. For simply supported specially orthotropic plates it is never below the exact solution and reaches it with enough terms.',
     ['inputs', 'configurations'], 'all plates and refinements, restraints, load combinations and mixtures', 'A few plates with fixed series sizes and loose tolerances.', [STRUCT, BK, PROP], [('buckling_analysis', STRUCT)], MET, TR)
prop('C19', 'Shape functions and their tabulated integrals are exact',
     'Every tabulated integral over the unit interval pair of products of shape functions and their first and second derivatives equals the integral of the shape functions (four end cubics and the integrated Legendre polynomials), for every pair of orders and both orders of the arguments. Every tabulated shape function, and every product of two of them, has the value of that polynomial at every point.',
     ['inputs'], 'all 9 kinds of integrals times 30 x 30 orders, 50 shape functions, 2500 products', 'The tests exercise orders up to about ten through one number.', [II, SF, FN], [('tables', II), ('tables', SF), ('lookup', FN)],
     'runtime monitors reading every table entry, judged by exact polynomials and Gauss quadrature', 'Complete over the table entries at the sampled points. Entries of the end cubics at high order are decimals with errors up to 1e-8, allowed for. '+TR)
prop('C20', 'The plotted buckling shape is the mode asked for',
     'Plotting a buckling mode draws one surface over the whole plate, on a grid of the requested numbers of points along x and y, whose height is the deflection of the mode of the requested number, up to scale. It works for any grid, mode number, boundary condition and series size, before or after an explicit analysis.',
     ['inputs', 'histories'], 'all plates, grids and mode numbers, with or without a preceding analysis', 'No test plots.', [STRUCT, SF, FN], [('plot_eigenvalue', STRUCT)],
     'runtime monitor on the drawing call, judged by an independent evaluation of the mode', TR)
prop('C21', 'Buckling maximisation returns a feasible, truthful and near-optimal laminate',
     'When the maximisation of the buckling load reports success, the lamination parameters it returns lie in the feasible region asked for (triangle or parabola, within 1e-4), and the value it returns is the negative critical factor of the normalised loads at those parameters. Except for a rare stall of the solver where two buckling modes change order (a few per cent of the load then), no feasible parameters give a critical load more than one or two per cent higher.',
     ['inputs', 'configurations'], 'all panels, thicknesses, units, load cases, edge conditions and both regions', 'One panel with tolerance 10 %.', [MB, UT, PROP, STRUCT], [('maximize_buckling_load', MB), ('constraints, normalisation', UT)], ORC,
     'Judged against a global search of an independent model: 10 % for a single run, 1 % where six panels next to it show the same; runs that report failure are counted but not judged. '+TR)
prop('C22', 'Panel weight minimisation returns a panel that just carries the load',
     'When the minimisation of the panel weight reports success, the panel it returns has feasible lamination parameters (within 1e-4) and does not buckle under the given loads. No feasible panel is thinner by more than half a per cent (a few per cent where the solver stalls, as it rarely does), and the reported objective is the cube of the thickness returned.',
     ['inputs', 'configurations'], 'all panels, load cases, magnitudes, units, edge conditions and starting points', 'One panel with tolerance 10 %.', [MW, UT, PROP, STRUCT], [('minimize_panel_weight', MW)], ORC,
     'The needed thickness comes from a global search of an independent model (critical load is cubic in thickness): 4 % of slack for a single run, 0.3 % where six panels next to it show the same. '+TR)
prop('C23', 'Optimisation depends on load proportions and warns as documented',
     'Multiplying all loads by a positive factor leaves the optimum of the buckling maximisation unchanged and multiplies the minimum thickness by the cubic root of the factor. A warning about missing compression is issued exactly when both normal loads are non-negative and there is no shear, and one about normalisation exactly when some load exceeds one in magnitude.',
     ['inputs'], 'all load combinations around the limits, all factors', 'One load combination; warnings are not looked at.', [UT, MB, MW], [('normalisation and load checks', UT)], MET, 'Converged pairs are compared within 2 %. '+TR)
prop('C24', 'The optimisation plot shows the true design space',
     'The plot of a buckling maximisation shows, on a square grid of the requested number of points over both lamination parameters, the critical factor of the given loads at every feasible point and nothing at infeasible points. The border drawn is the border of the region used, and the marker is at the optimum returned.',
     ['inputs', 'configurations'], 'all panels, load magnitudes, both regions, all grid sizes', 'Plotting is switched off in the tests.', [UT, MB], [('plot_optimization', UT)],
     'runtime monitor on the drawing calls, judged by an independent model of the panel', TR)
prop('C25', 'Stacking notation expands to the plies it denotes',
     'For every expression of the stacking notation (signed or decimal angles, repetition counts with or without braces, alternating plus-minus plies, parenthesised groups with multipliers, square brackets, blanks, and a trailing s or S for symmetry), the result is the list of ply angles it denotes, in order. The expansion of one expression does not depend on those expanded before.',
     ['inputs', 'histories'], 'all expressions of the notation', 'No test calls it.', [NA], [('build_sequence', NA)], ORC,
     'Groups are not nested and carry a multiplier. A plus-minus unit with count n means n alternating plies, as implemented; the documented example differs and is a known finding. '+TR)
prop('C26', 'PCOMP cards read back as the laminate they were built from',
     'A strict free-format reader of the generated entry finds the property number, the offset (or none), and for every ply, in order, the material, thickness, angle and stress output request given, in entries of at most ten fields with continuation marks in the first and tenth field. Single values apply to every ply, the default output request marks the first and last ply only, and lists that do not match the number of plies are rejected.',
     ['inputs'], 'all ply counts (odd and even), all mixtures of scalars and lists, all output requests', 'No test calls it.', [NA], [('build_pcomp', NA)],
     'runtime monitor on the generator, judged by reading its output back with an independent strict parser', TR)
prop('C27', 'Plate results do not depend on the history of calls',
     'Matrices, buckling factors and modes of a plate are those its definition determines no matter which analyses or plots ran before on it or on other plates sharing the laminate, the constraints or the default arguments, and repeating an analysis, or asking for more factors, gives the same lowest factors. Nothing given by the caller is modified, and results already returned do not change later.',
     ['histories', 'inputs'], 'all interleavings of analyses, plots and reads over several plates that share their inputs', 'Every test analyses one plate once.', [STRUCT, PROP], [('index lists and stored results', STRUCT), ('cached matrices', PROP)], HIS, TR)

prop('C28', 'An interrupted call leaves laminates, analyses and plates as usable as before',
     'When a call is broken off by an exception that arises in the middle of it (such as KeyboardInterrupt from Ctrl-C), at whatever line, every later read or analysis of the same objects, and of objects that share plies, laminates or constraints with them, gives the results their definition determines, as if the interrupted call had never been made. Results already returned and inputs given by the caller are not changed by it.',
     ['crash_points', 'histories', 'inputs'], 'an interrupt before any line of the library, in any read, analysis, construction or plot of a history over several objects, any number of times',
     'No test interrupts a call.', [PROP, STR, STRUCT, MAT, BK], [('cached matrices', PROP), ('stored results', STRUCT), ('mid-plane strains', STR)],
     'fault injection (KeyboardInterrupt raised before a chosen line of the library) under online history monitors with a reference model',
     'Interrupts fall between lines of Python; what happens inside numpy or scipy is not interrupted. '+TR)
prop('C29', 'Threads that share objects get the results they would get alone',
     'Threads that read or analyse shared plies, laminates, strength analyses, constraints and plates (apart from plotting, loading and reassigning them) at the same time each get the results the definitions determine, for every interleaving of their calls. What is read from the objects after the threads have ended is right too, and the objects given are unchanged.',
     ['schedules', 'histories', 'inputs'], 'all interleavings of two or more threads that read matrices, strains, stresses, margins, Ritz matrices and buckling factors of shared objects, or build new ones from shared plies',
     'No test uses threads, and a free-running one would see few interleavings.', [PROP, STR, STRUCT, MAT, BK], [('cached matrices', PROP), ('index lists and stored results', STRUCT)],
     'seeded deterministic thread scheduler (switches at chosen lines or bytecodes of the library) with offline judging of the recorded results by a reference model',
     'Threads switch between lines (in a part of the runs, bytecodes) of the library only. '+TR)
prop('C30', 'Calls leave the process as they found it',
     'Importing the package, constructing, reading, analysing, optimising and writing cards leave the process as it was: no output, no files written or removed, no processes or connections started, and random generators, numpy error handling and print options, warning filters, environment, working directory, matplotlib settings and open figures unchanged. Lists, dictionaries and arrays given as arguments are not modified. Exempt are the figures of plots, the messages of optimisations and of non-silent analyses, the warnings documented for loads, and the number of digits pandas shows. Rejected calls are no exception.',
     ['histories', 'inputs'], 'all calls of the public interface, accepted or rejected, in any order, under any settings of the caller',
     'Tests look at returned values only.', [MAT, PROP, STR, STRUCT, BK, MB, MW, UT, NA], [('the whole public interface', MAT)],
     'runtime monitors on the process (interpreter audit hook, snapshots of global state around each call) under randomised workloads', TR)

prop('C31', 'Results do not depend on the settings of the interpreter or the libraries',
     'All of the properties above hold whatever the program of the caller has set: optimisation flags of the interpreter (-O, -OO), hash seed, encodings, locale, time zone, working directory, order of imports, garbage collection, decimal precision, numpy print options, numpy error handling that ignores or warns, pandas display options, matplotlib style and backend, and seeds of the random generators. In particular the validation of arguments does not vanish under -O, and cards do not change with print options.',
     ['configurations', 'inputs'], 'all combinations of interpreter flags, environment variables and library settings (other than those that turn warnings into errors)',
     'The tests run in one process with one set of settings.', [VAL, MAT, PROP, STR, STRUCT, MB, MW, NA], [('the whole public interface', PROP)],
     'the runtime monitors and oracles of C01-C27 in child processes under generated interpreter flags, environments and library settings',
     'One version of Python and of each library. '+TR)
prop('C32', 'Objects survive copying and pickling',
     'Materials, laminates, strength analyses and plates can be copied, deep-copied and pickled, alone or together with objects they share, at any time, whatever was computed from them before. The copy has the definition of the original, is equal to it where equality is defined, and gives the results this definition determines, in this process or in another; using a copy, or changing the loads of a copied strength analysis, leaves the original as it was.',
     ['histories', 'inputs'], 'all points of a history of reads and analyses at which any object is copied by any of the protocols',
     'No test copies anything.', [MAT, PROP, STR, STRUCT], [('attributes and caches of the objects', PROP)], HIS, TR)
prop('C33', 'Objects own their definition and their results',
     'Laminates, strength analyses and plates keep the definition they were built with: changing, refilling or using again the lists, arrays and dictionaries given to constructors, the constraints a plate shows, or the matrices, vectors, lists and tables that were returned (in place, by the program that got them) changes no later result of any object, old or new, and nothing a plate stores of its analysis. (What the attributes stacking, plies and layup of a laminate hold is the definition itself and not meant.)',
     ['histories', 'inputs'], 'all edits of any container given or returned, at any point of a history of constructions, reads and analyses',
     'No test changes a list or a matrix after it was given or returned.', [MAT, PROP, STR, STRUCT], [('constructors', PROP), ('constructor, constraints', STRUCT), ('cached matrices', PROP), ('Q_0', MAT)], HIS, TR)
prop('C34', 'Objects no longer used are released',
     'Materials, laminates, strength analyses, plates and their results that the program has let go of are released: the memory in use does not grow with the number of objects made, read, copied, compared or analysed, of analyses repeated on one object, of optimisations, pictures (closed by the caller), stacking sequences and cards, or of rejected calls, beyond a fixed amount such as that of a cache of limited size (a thousand entries).',
     ['histories', 'inputs'], 'all runs of any length: studies over many laminates and panels, one object analysed again and again',
     'Every test makes a handful of objects and ends.', [MAT, PROP, STR, STRUCT, MB, MW, UT, NA], [('the whole public interface', PROP)],
     'runtime monitors on the heap (weak references to every object made, blocks allocated by the interpreter) in the course of long randomised runs',
     'Growth is seen from about one block in two steps on. '+TR)
prop('C35', 'Equivalent calls give equal results',
     'The results of materials, laminates, strength analyses, plates, buckling analyses, mode plots, PCOMP cards and both optimisations depend on the values of the arguments only: not on whether they are given by position (in the documented order) or by keyword, nor on whether documented defaults are written out or left out, on numbers being Python ints, floats or numpy scalars, on sequences being lists, tuples or (for angles, lamination parameters and starting points) arrays, or on edge conditions being named or listed, in any order or case.',
     ['inputs'], 'all spellings of all calls of the public interface',
     'Each test spells its call in one way.', [MAT, PROP, STR, STRUCT, NA, MB, MW], [('signatures and defaults', STRUCT), ('signatures and defaults', MB), ('signatures and defaults', MW)],
     'runtime monitors comparing observed executions of equivalent calls; the optimisations, and all results indirectly, against the reference model', 'Keywords are those documented at this commit. '+TR)

FIXED = [
    ('C16', 'ff5a1d7', 'buckling_analysis returned the factors closest to one instead of the lowest positive ones'),
    ('C13', 'ee6f900', 'TY/RY and TZ/RZ restraints of the y edges were taken from the list of u'),
    ('C15', '7e0641a', 'wrong factors in the membrane and coupling terms of the coupled stiffness'),
    ('C15', '20f3fb6', 'block vw of the coupled stiffness matrix held block wu'),
    ('C12', 'e4bbe69', 'bot and top labels of the margins exchanged'),
    ('C02', 'b385c89', 'IsotropicMaterial without allowables was rejected'),
    ('C02', 'bffab79', 'missing xiD or T did not raise KeyError'),
    ('C07', 'ba2e65f', 'xiA and xiD of a laminate defined by lamination parameters raised'),
    ('C03', '7cd55d8', 'all laminates defined by lamination parameters were equal'),
    ('C20', '2355864', 'plot_eigenvalue failed for different numbers of points along x and y'),
    ('C25', 'c9ce68a', 'an upper case S was not a symmetry sign'),
    ('C26', 'c38869d', 'continuation marks in the wrong fields'),
    ('C02', 'fec6c79', 'nan was accepted as a number'),
    ('C22', 'b05210f', 'success reported at panels 2 to 50 times too thick'),
    ('C21', '63961ed', 'success reported at the start, 20 % below the optimum, where the critical load is a small number (thin panels, SI units)'),
    ('C13', '246174f', 'in a dictionary that named some edges and listed the motions of others, the named edges were left free'),
    ('C28', '132a22c', 'an interrupted read of A, B, D, Q_layup or T_layup left a partial result that later reads returned'),
    ('C29', '132a22c', 'threads reading A, B, D, Q_layup or T_layup of a laminate at the same time got wrong or partial results'),
    ('C33', 'a901a5b', 'changing a list or dictionary after it was given to a laminate changed parts of its definition (stacking, lamination parameters), so that results contradicted each other'),
    ('C33', '6a057bf', 'changing the dictionary of constraints after it was given, or as shown by a plate with the default constraints, changed this and other plates'),
    ('C33', '6b9d8a7', 'changing a returned matrix (Q_0, A, B, D, Q_layup, T_layup, eigenvectors) or the constraints shown in place changed later results'),
    ('C22', '50274bf', 'success reported at panels up to eight times (from far starts, a thousand times) too thick in SI units'),
]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'})+'\n')
    man = {'version': 1, 'setup_cmd': 'true',
           'checks': [dict(property=p['id'], quick_cmd=f"python3 run.py {p['id']} --tier quick", thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
                           technique=p['_t'], level='exploration', level_note=p['_n']) for p in P],
           'not_applicable': [],
           'notes': 'The instrumentation wraps the public API of composipy at run time from the harness (vlib/taps.py); nothing in /repo is guarded, so there is no hooks entry.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    with open(os.path.join(HERE, 'known_findings.jsonl'), 'w') as f:
        f.write(json.dumps({'property': 'C25', 'key': 'doc-example', 'status': 'known',
                            'what': r"build_sequence('[\pm45_{1}/0_2/90/(0/90)_1]s'), the example of its documentation, returns [45, 0, 0, 90, 0, 90] and its mirror; documented is [45, -45, 0, 90, 0, 90] and its mirror"})+'\n')
        for pid, c, w in FIXED:
            f.write(json.dumps({'property': pid, 'status': 'fixed', 'commit': c, 'key': '', 'what': w, 'entry': f'fixed: property={pid} {c} {w}'})+'\n')


if __name__ == '__main__':
    main()
