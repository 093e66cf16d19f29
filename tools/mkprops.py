#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are reviewed in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

ATOM, TERM, UTIL, HELP, TS, IO = ('atomtoolkit/' + f for f in
    ('atom.py', 'term.py', 'util.py', 'atom_helpers.py', 'transition_strengths.py', 'IO.py'))
GRO, LS, SPEC, WIG, ENV = ('atomtoolkit/' + f for f in
    ('render/grotrian.py', 'render/lineshapes.py', 'render/spectra.py', 'wigner.py', 'environment.py'))

ENV = 'atomtoolkit/environment.py'

prop('C01', 'Hyperfine and Zeeman structure is complete and exact',
 'For every fine-structure level of angular momentum J in an atom of nuclear spin I, the hyperfine sublevels are exactly F = |I-J|, ..., I+J in unit steps, and each of them has exactly the Zeeman sublevels mF = -F, ..., F in unit steps, (2I+1)(2J+1) states in total. '
 'Each sublevel is reachable under its own "F=..." / "mF=..." key, carries those quantum numbers (and the configuration, term and J of its parent), and belongs to the same level and atom. '
 'This does not depend on whether the sublevels are generated on first access or when the level is added.',
 ['inputs', 'configurations'], 'all half-integers I, J >= 0; lazy or eager generation',
 'The tests use I=0 or I=1/2 and J<=5/2 and only count sublevels.', [ATOM, TERM, UTIL],
 [('populate_sublevels', ATOM), ('lazy_compute_sublevels', ATOM), ('Term.make_term_copy', TERM)],
 ['level.keys()/values()/len()', 'level["F=.."]["mF=.."].term'])

prop('C02', 'Hyperfine shifts follow the A, B, C multipole formula',
 'A hyperfine sublevel is displaced from its fine-structure level by A<I.J> plus the standard electric-quadrupole (B) and magnetic-octupole (C) interaction energies, with <I.J> = [F(F+1)-I(I+1)-J(J+1)]/2 and the conventional normalisation in which the F=I+J sublevel moves by A*I*J + B/4 + C. '
 'The B contribution is zero unless I and J are both at least 1, the C contribution unless both are at least 3/2, and the (2F+1)-weighted sum of the shifts of a level is zero for every A, B, C.',
 ['inputs'], 'all I, J, F allowed by angular momentum addition; all real A, B, C',
 'No test checks a hyperfine shift; the formula is rational in I, J, F with case splits at small spins.', [ATOM],
 [('HFLevel.compute_hf_shift', ATOM)], ['sublevel.shift_Hz', 'sublevel.level', 'sublevel.level_Hz'])

prop('C03', 'Zeeman shifts follow the Lande vector-coupling rule',
 'A Zeeman sublevel is displaced from its hyperfine level by gF*mF*muB*B plus its quadratic coefficient times B squared, where gF = gJ*[F(F+1)+J(J+1)-I(I+1)]/[2F(F+1)] and gF=0 for F=0, and gJ is the Lande factor of the fine-structure level. '
 'In particular B=0 leaves every Zeeman sublevel at the energy of its hyperfine level, +mF and -mF move oppositely when there is no quadratic coefficient, and the state F=mF=I+J moves by gJ*J*muB*B.',
 ['inputs'], 'all I, J, F, mF; all real gJ, B and quadratic coefficients',
 'No test uses a non-zero field.', [ATOM],
 [('HFLevel.compute_gF', ATOM), ('ZLevel.shift_Hz', ATOM), ('mu_B', 'atomtoolkit/__init__.py')],
 ['zlevel.shift', 'zlevel.level', 'hflevel.gF'])

prop('C04', 'Energies stay consistent through any history of edits',
 'At every moment the absolute energy of every hyperfine and Zeeman sublevel equals the current energy of its fine-structure level plus the hyperfine and Zeeman shifts implied by the current hyperfine coefficients, magnetic field and quadratic coefficients, whatever sequence of reads and edits preceded. '
 'Assigning an energy to a level or to any sublevel makes that level or sublevel read back the assigned energy, moves every other sublevel of the same fine-structure level by the same amount, and leaves all other levels where they were.',
 ['histories', 'inputs'], 'histories of up to 3 edits (energy of a level/hyperfine/Zeeman sublevel, A, B, C, magnetic field, quadratic coefficient) with reads in between; all real values',
 'The tests assign one energy to an atom with no hyperfine structure and no field, and read it back.', [ATOM],
 [('HFLevel.level setter', ATOM), ('EnergyLevel.level_Hz', ATOM), ('shift_Hz', ATOM)],
 ['level.level', 'level.shift', 'Atom.B', 'level.hfA/hfB/hfC'])

prop('C05', 'Transition frequencies are level differences and can be assigned',
 'At every layer (fine, hyperfine, Zeeman) the frequency of a transition is the absolute difference of the current energies of its two levels, and its wavelength is the speed of light divided by it. '
 'Assigning a frequency to a transition at any layer makes that transition report the assigned frequency, provided its two levels are, before and after, in the same energy order as the fine-structure levels they belong to; levels not linked to it by assigned transitions do not move.',
 ['inputs', 'configurations'], 'all level energies, hyperfine coefficients, fields and assigned frequencies that keep the order of the levels; every layer',
 'The tests assign a frequency on an atom with no hyperfine or Zeeman structure, where every layer has the same frequency.', [ATOM],
 [('BaseTransition.freq_Hz', ATOM), ('set_frequency', ATOM), ('Atom.enforce_consistency', ATOM)],
 ['transition.freq', 'transition.set_frequency', 'level.level'])

prop('C06', 'Assigned frequencies stay satisfied across a network of levels',
 'After any sequence of frequency assignments and re-assignments to transitions that form no closed loop, every transition that was assigned a frequency reports the last frequency assigned to it, and every level not connected to any assigned transition keeps its energy. '
 'In each connected group of assigned transitions the level that is lowest (by more than a tie) when an assignment is made stays where it is. '
 'If assigned transitions close a loop with inconsistent frequencies, the inconsistency is reported as a warning.',
 ['histories', 'inputs'], 'sequences of up to 4 assignments on networks of up to 4 levels (chains, V, Lambda, star, two components that merge); all order-preserving energies and frequencies',
 'The tests assign frequencies to a single transition; consistency of chains after re-assignment is never observed.', [ATOM],
 [('Atom.enforce_consistency', ATOM), ('Transition.set_frequency', ATOM), ('Atom.add_transition', ATOM)],
 ['transition.freq', 'transition.set_freq', 'level.level', 'warnings'], [dict(name='fixed', meaning='whether the propagation has placed a level', where=ATOM)])

prop('C07', 'Fine-structure selection rules are exact',
 'A transition between two fine-structure levels is flagged E1-allowed exactly when |J-J\'|<=1<=J+J\' and the parities differ, M1-allowed exactly when |J-J\'|<=1<=J+J\' and the parities agree, and E2-allowed exactly when |J-J\'|<=2<=J+J\', the parities agree and the two levels are distinct. '
 'Parity is odd exactly when the term symbol carries the odd-parity mark, and the flags do not depend on the order in which the two levels are given or on which is higher.',
 ['inputs'], 'all half-integers J, J\' of the same integrality, both parities, either order, all energies',
 'No test looks at the allowed types of a transition.', [ATOM, TERM],
 [('Transition.transition_allowed', ATOM), ('Term.parity', TERM)], ['transition.allowed_types'])

prop('C08', 'Sub-transitions are exactly those the selection rules permit',
 'The hyperfine components of a transition contain every pair (F, F\') whose strength for the leading allowed multipole (dipole if E1 or M1 is allowed, otherwise quadrupole) is non-zero and no pair forbidden for all allowed multipoles; in particular |F-F\'| <= k <= F+F\' for a multipole of rank k. '
 'The same holds for the Zeeman components (mF, mF\') of a hyperfine component, with |mF-mF\'| <= k. '
 'Each component of a transition between two distinct levels whose sublevels do not interleave in energy connects one sublevel of each of the two levels, appears once, is reachable under its key in either order (unless the reversed key is that of another component), and points back to its parent.',
 ['inputs', 'configurations'], 'all I, J, J\' within bounds, all parities, all F, mF',
 'The tests fetch one component of one transition; forbidden components are never looked for.', [ATOM, WIG],
 [('populate_subtransitions', ATOM), ('_compute_sublevel_pairs', ATOM), ('HFTransition/ZTransition.transition_allowed', ATOM)],
 ['transition.keys()', 'transition.subtransitions()', 'transition[(..,..)]'])

prop('C09', 'Hyperfine component strengths obey the multiplet sum rule',
 'The relative strengths of the hyperfine components of an allowed transition are non-negative, and the components that start from (or end on) one hyperfine sublevel F of a level of angular momentum J sum to (2F+1)/(2J+1), for dipole and quadrupole transitions alike. '
 'Each component\'s A coefficient is its parent\'s A times its relative strength, and the strength does not depend on the order in which the two levels are given.',
 ['inputs'], 'all I, J, J\', F; dipole and quadrupole; all A',
 'No test reads the strength or A coefficient of a component.', [ATOM, WIG],
 [('HFTransition.compute_linewidth', ATOM)], ['hftransition.rel_strength', 'hftransition.A'])

prop('C10', 'Zeeman component strengths obey the isotropic sum rule',
 'For a hyperfine component between F and F\', the relative strengths of its Zeeman components are non-negative and sum to 1/(2F+1) over the components attached to any one Zeeman sublevel of F, and to 1/(2F\'+1) for any one of F\', for dipole and quadrupole transitions alike. '
 'Each Zeeman component\'s A coefficient is its parent\'s A times its relative strength, reversing the sign of both mF leaves it unchanged, and it does not depend on the order in which the two levels are given.',
 ['inputs'], 'all F, F\', mF, mF\'; dipole and quadrupole; all A',
 'No test reads the strength or A coefficient of a Zeeman component.', [ATOM, WIG],
 [('ZTransition.compute_linewidth', ATOM)], ['ztransition.rel_strength', 'ztransition.A'])

prop('C11', 'Lifetimes and branching ratios account for every decay channel',
 'The branching ratios of a level are the A coefficients of the transitions that lead from it down to other levels divided by their sum: they cover exactly those lower levels, are non-negative and sum to one. '
 'The lifetime is 2*pi divided by the sum of the same A coefficients, and is infinite when there are none. This holds for every set of energies whose order has not changed since the transitions were created and every set of A coefficients whose sum is positive. '
 'If a transition leading from the level has no A coefficient, branching ratios are refused with a ValueError.',
 ['inputs', 'configurations'], 'levels with up to 3 decay channels and up to 2 transitions to higher levels, all positive A in any frequency unit, all energy orders',
 'The tests check three fixed numbers.', [ATOM],
 [('Atom.compute_branching_ratios', ATOM), ('Atom.state_lifetime', ATOM), ('Atom.linked_levels', ATOM)],
 ['Atom.compute_branching_ratios', 'Atom.state_lifetime', 'Atom.linked_levels'])

prop('C12', 'Every equivalent way of naming a level reaches the same object',
 'A level added to an atom is returned by its name and by each of its aliases (sublevels can be given aliases, too), integer index n returns the n-th lowest level by current energy and slices return that range, and the composite names "<level> F=.. mF=..", "<level> F=.." and, for I=0, "<level> mJ=.." reach the same sublevel objects as stepwise access. '
 'Iteration, length and containment reflect exactly the levels added and not deleted, a deleted level is no longer reached by name or alias, and an unknown name raises KeyError.',
 ['inputs', 'histories'], 'up to 4 levels added in any order with all energies (ties excluded for indices), energies changed afterwards, aliases, one deletion',
 'The tests access one atom with fixed energies.', [HELP, ATOM],
 [('LevelStructure.__getitem__', HELP), ('Atom.add_level', ATOM), ('BaseLevel.__getitem__', ATOM)],
 ['atom.levels[...]', 'len(atom.levels)', 'iter(atom.levels)'])

prop('C13', 'Every equivalent way of naming a transition reaches the same object',
 'A transition added to an atom is returned by the pair of its levels or of their names in either order, by each of its aliases, by the pair of energy ranks of its levels, and its components are reached equally by composite names in either order (fine, F, F and mF, and for I=0 mJ) and stepwise, whatever order the levels were added in and whatever their energies are now, as long as the sublevels of the two levels do not interleave in energy. '
 'Adding a transition also adds those of its levels that are not in the atom yet. Asking for a transition that was never added raises KeyError, and adding or deleting one transition does not affect the others. The levels linked to a level are exactly those it has transitions with, each with that transition. Components can be given aliases, too.',
 ['inputs', 'histories'], '3 levels added in any order, all energies (also changed later), all pairs connected or not, I=0 and I=1/2',
 'The tests fetch transitions from the first-added, lowest level only.', [HELP, ATOM],
 [('TransitionStructure.__getitem__', HELP), ('Atom.add_transition', ATOM), ('BaseTransition.__getitem__', ATOM)],
 ['atom.transitions[...]', 'transition[...]'])

prop('C14', 'Automatic transition generation finds exactly the allowed pairs',
 'Generating all transitions of an atom (whose levels have integer J throughout or half-integer J throughout, below 20) for a chosen set of multipole types creates exactly one transition for each pair of levels that is allowed for at least one chosen type (including a level with itself where that is allowed), and none for any other pair. '
 'Transitions that were already present are kept unchanged, and a second call adds nothing.',
 ['inputs', 'configurations'], '3 levels, all J up to 4, both parities, all non-empty selections of E1/M1/E2, any transition already present',
 'There is no test of transition generation (a TODO).', [ATOM],
 [('Atom.populate_transitions', ATOM)], ['Atom.populate_transitions', 'atom.transitions'])

prop('C15', 'Hyperfine coefficient files round-trip',
 'Writing an atom\'s hyperfine coefficients to a CSV file and applying that file to another atom with the same levels gives every level the same A, B and C coefficients, changes nothing else, and ignores rows for levels that do not exist there. '
 'A blank template sets all coefficients to zero, and a default A replaces exactly the A coefficients that are zero.',
 ['inputs', 'configurations'], 'all real coefficients, levels in any order, subsets of levels missing from the receiving atom',
 'There is no test of the IO module.', [IO, ATOM], [('generate_hf_csv', IO), ('apply_hf_csv', IO)],
 ['level.hfA/hfB/hfC after apply_hf_csv'])

prop('C16', 'Saved atoms load back identical',
 'An atom saved to a file and loaded from it has the same name, nuclear spin and magnetic field, the same levels, aliases and transitions, and gives the same energies, shifts, frequencies, strengths and A coefficients for all of them, including generated sublevels and components, and can be edited afterwards like the original. '
 'The file is written under exactly the given name if it already ends in ".atom" and under that name plus ".atom" otherwise; loading a file that holds anything else is refused with an error.',
 ['inputs', 'configurations'], 'all real energies, coefficients, fields, A and frequencies; all file names up to 10 characters over letters, dots and slashes; sublevels generated or not',
 'The test saves an atom and only compares the name.', [ATOM], [('Atom.save', ATOM), ('Atom.load', ATOM)],
 ['Atom.save', 'Atom.load'])

prop('C17', 'Table import creates every listed level and transition faithfully',
 'Building an atom from a level table with any index and distinct levels creates one level per row (up to the requested number of rows) with that row\'s name, energy, percentages and Lande factor (an estimate where the table has none), whether J is written as a fraction, a decimal or a number. '
 'Loading a transition table adds, for each row whose two levels exist in the atom, a transition between them with that row\'s A coefficient and frequency where these are given, and skips exactly the other rows. The same holds for tables read from CSV files with any names of the columns.',
 ['inputs', 'configurations'], 'tables of up to 3 rows, all energies, Lande factors, A and frequencies; missing entries; J given as fraction or decimal; rows whose levels are missing',
 'There is no test of import from tables (a TODO).', [ATOM, TERM, IO],
 [('Atom.from_dataframe', ATOM), ('EnergyLevel.from_dataframe', ATOM), ('MultiTerm.from_dataframe', TERM), ('Atom.populate_transitions_df', ATOM), ('load_level_data', IO), ('load_transition_data', IO)],
 ['atom.levels', 'atom.transitions'])

prop('C18', 'Quantum-number notation round-trips',
 'Formatting any integer or half-integer quantum number (of either sign) as a fraction and parsing it back returns the same number, integers are written without denominator and half-integers as odd numerator over 2. '
 'The spectroscopic letter of each orbital angular momentum and the angular momentum of each letter are mutually inverse, independent of letter case for L from 0 to 20, and any text that is not a single known letter is rejected (an empty text gives no value).',
 ['inputs'], 'all half-integers; all fraction strings of up to 3-digit numerators; all L from 0 to 19; all strings of up to 2 characters',
 'The tests check a dozen values.', [UTIL],
 [('float_to_frac', UTIL), ('frac_to_float', UTIL), ('let_to_l', UTIL), ('l_to_let', UTIL)], ['util functions'])

prop('C19', 'Term symbols are parsed to the quantum numbers they denote',
 'For a term symbol written in the documented notation for LS, JJ, JK or LK coupling, with or without odd-parity marks, the coupling scheme is recognised and the extracted quantum numbers are exactly those written: L and S of an LS term, the core and outer L, S and J of a JJ term (except the spin of an outer part written as a single electron), core and outer L, S, core J and K for JK, and L, K, core and outer L and S for LK. '
 'Quantum numbers that a scheme does not define are reported as absent.',
 ['inputs'], 'all terms of the documented shapes with symbolic multiplicity digits, letters and (half-)integer fractions, optional parity marks',
 'The tests check 19 fixed term symbols.', [UTIL],
 [('get_term_coupling', UTIL), ('get_quantum_nums', UTIL), ('parse_*_term', UTIL)], ['util.get_quantum_nums', 'Term attributes'])

prop('C20', 'Terms keep their identity through naming, copying and mixing',
 'A term\'s full name is its configuration, term symbol and J, followed by F and mF when given; its short name is the innermost of these parts. '
 'A copy made for a sublevel has the same configuration, symbol, J, percentage and quantum numbers plus the requested F and mF, and leaves the original unchanged; copies of a mixed term copy every component. '
 'A mixed term behaves like its component of largest percentage, whatever order the components are given in, and keeps all its components.',
 ['inputs'], 'all J, F, mF, percentages; up to 3 components in any order',
 'The tests copy terms without sublevel quantum numbers and mix two terms in one order.', [TERM],
 [('Term.__init__', TERM), ('Term.make_term_copy', TERM), ('MultiTerm', TERM)], ['Term attributes', 'MultiTerm attributes'])

prop('C21', 'Estimated Lande factors are exact for LS terms and mean values for mixtures',
 'For an LS-coupled term with L, S, J the estimated Lande factor is 1 + 1.0023*[J(J+1)+S(S+1)-L(L+1)]/[2J(J+1)], and 0 for J=0. '
 'For a term in another coupling it is the average of the LS values weighted with the probabilities of the LS components, and for a mixed term the average over its components weighted with their percentages, so that it does not depend on the overall scale of the percentages. '
 'A Lande factor supplied by the user is used as given.',
 ['inputs'], 'all L, S, J; all percentages of up to 2 components; JJ, JK and LK terms within bounds',
 'No test checks a Lande factor.', [ATOM, TS], [('EnergyLevel.compute_gJ', ATOM)], ['level.lande'])

prop('C22', 'Recoupling to LS preserves probability',
 'Converting a JJ-, JK- or LK-coupled state to LS coupling lists each allowed pair (L, S) once, L running over the couplings of the two orbital momenta (the given L for LK) and S over the couplings of the two spins, and the squared amplitudes sum to one for every state that satisfies the angular-momentum triangle rules; pairs that cannot couple to J have amplitude zero, and two states differing only in an intermediate quantum number are orthogonal. '
 'The human-readable form reports the same components as percentages with term symbol 2S+1 and letter L.',
 ['inputs'], 'all J, Jc, Jo, K, L and core/outer angular momenta satisfying the triangle rules',
 'There is no test of the coupling conversions (a TODO).', [TS, UTIL],
 [('JJ_to_LS', TS), ('JK_to_LS', TS), ('LK_to_LS', TS), ('term_to_LS', UTIL)], ['JJ_to_LS/JK_to_LS/LK_to_LS', 'util.term_to_LS'])

prop('C23', 'Tensor matrix elements and strengths agree and obey the sum rules',
 'The strength of an electric-dipole, magnetic-dipole or quadrupole component is the squared modulus of its matrix element, for tensor components and for a given (real) polarisation and propagation direction alike. '
 'Summed over all final hyperfine and Zeeman states and all tensor components, the strength out of any state of the multiplet is 1/(2J+1) whatever F and mF, and strengths summed over all Zeeman states of both levels do not depend on the orientation of polarisation and propagation. '
 'The averaged strength of an electric- or magnetic-dipole component is the mean over three perpendicular polarisations. '
 'Light along the quantisation axis and circularly polarised drives changes of m by +1 only for one handedness and by -1 only for the other (x+iy and x-iy for dipoles, the reverse for quadrupoles); dipole light polarised along the axis drives only components that keep m.',
 ['inputs'], 'all I, J0, F0, M0, J1, F1, M1; ranks 1 and 2; all real polarisation vectors and wave vectors',
 'There is no test of this module.', [TS],
 [('tkq_transition_strength', TS), ('tkq_mel', TS), ('E1/M1/E2_mel_geom', TS), ('E1/M1/E2_transition_strength_geom', TS)],
 ['transition_strengths functions'])

prop('C24', 'Line shapes have the stated centre, height and width',
 'For every positive width, a Lorentzian, Gaussian or phase-modulated Lorentzian line is non-negative, symmetric about its centre and scales linearly with its amplitude; Lorentzian and Gaussian have their maximum, equal to the amplitude, at the centre and a Lorentzian falls to half of it at half its width from the centre. '
 'A modulated line is the sum of Lorentzians at the carrier and at plus and minus each sideband spacing, weighted with squared Bessel functions; when the number of sidebands is left to the line shape, those it leaves out are weak (at the modulation depth d and with n sidebands, (d/2)^n/n! is at most 0.01). Sampling a line shape returns the requested number of points spanning its window symmetrically about the centre; the window of a Lorentzian or Gaussian extends over `padding` widths (standard deviations) to either side, and a natural linewidth given with a Lorentzian line adds to its width. '
 'Voigt lines (of a given Gaussian standard deviation and full Lorentzian width) also reach their amplitude at the centre, and thermal lines have the standard deviation sqrt(kT/mc^2) relative to the frequency and are Gaussian, Lorentzian or Voigt lines depending on whether one width exceeds the other by a factor of 25.',
 ['inputs'], 'all positions, centres, positive widths and amplitudes; up to 3 sidebands',
 'There is no test of the render package.', [LS],
 [('lorentzian/gaussian/voigt/mod_lorentzian', LS), ('ThermalLineShape', LS), ('LineShape.compute', LS)], ['lineshape functions', 'LineShape.compute'])

prop('C25', 'Grotrian layout places levels where their energies and options say',
 'In a Grotrian diagram a fine-structure level is drawn as a horizontal line of the requested width centred on its column (J by default plus the requested shift) at its energy plus the requested shift; with realistic spacing hyperfine and Zeeman sublevels are drawn at heights displaced from it by their shifts times the requested scales, and hyperfine lines and squeezed Zeeman ladders of the largest F span exactly the requested width. '
 'With schematic spacing the hyperfine lines are equally spaced, Zeeman ladders lie at the height of their hyperfine line, and values in between interpolate linearly. A function given as strategy determines the lines of its level, and a diagram\'s default strategy those of levels added without one. Bounding boxes contain all points they bound, extended by the requested padding, and arrow anchors 1 to 9 address the corners, edges and centre of the box of the innermost drawn level as documented. '
 'Rendering draws every visible line once, and every requested box and bracket, each in its own colour and width. The quick diagram (`draw_levels`) shows every level at (J, energy in THz) and a line for every transition between different levels, and leaves the atom as it was.',
 ['inputs', 'configurations'], 'all energies, hyperfine coefficients, fields, widths, shifts, scales; I, J within bounds',
 'There is no test of the render package.', [GRO],
 [('_compute_level_row', GRO), ('_compute_hflevel_row', GRO), ('_compute_zlevel_row', GRO), ('Grotrian.bbox', GRO), ('compute_arrow', GRO), ('draw_levels', GRO)],
 ['the tables of line end points and boxes', 'arrow end points'])

prop('C26', 'Angular-momentum coefficients are exact zeros when forbidden',
 'The 3j, 6j and 9j coefficients used throughout the package return the value of the underlying library for every allowed argument set, and a number equal to zero for every argument set that violates a selection rule, including those the library rejects with an error. '
 'This holds for either backend and on repeated calls.',
 ['inputs', 'configurations'], 'all half-integer arguments within bounds; backend answers arbitrary or raising; repeated calls',
 'No test calls these functions directly.', [WIG], [('wignerPicker', WIG)], ['wigner3j, wigner6j, wigner9j'])

prop('C27', 'Plotted spectra show every line at its frequency and relative strength',
 'Plotting a set of transitions draws one curve per transition, centred at that transition\'s frequency in the requested unit with height equal to its relative strength times any amplitude assigned to it, and the total curve is, wherever all curves are sampled, the sum of the (interpolated) individual curves. '
 'Hyperfine and Zeeman spectra contain every component of the given transitions exactly once, and by default the label of a Zeeman component names F and mF of both its levels. Spectra for a given temperature and laser linewidth use a Lorentzian of that linewidth at zero temperature and otherwise a line broadened according to temperature and mass.',
 ['inputs', 'configurations'], 'up to 3 lines with all frequencies, strengths, amplitudes and line widths',
 'There is no test of the render package.', [SPEC, LS],
 [('plot_transitions', SPEC), ('plot_hyperfine_spectrum', SPEC), ('plot_zeeman_spectrum', SPEC)], ['curves handed to matplotlib'])

prop('C28', 'Tables downloaded from NIST are cleaned without losing or inventing levels',
 'The importer requests the table of the given species in the given order. The cleaned table has exactly one row for each J (or one row if no J is given) of each listed level with a known energy that precedes the ionisation limit (whether or not the table gives the limit with a number, in brackets, without value or not at all), in the listed order and numbered from 0, '
 'with its energy in cm^-1 and in Hz, J, Lande factor (missing if not listed), configuration and term without prefix letter (taken from the percentages where the term column has none), the leading percentage (100 where none are listed), and the second component with the parts of its configuration that the source leaves out restored and, in JJ coupling, its term. '
 'A table that is saved is written under the requested name and reads back with the same contents.',
 ['inputs', 'configurations'], 'tables of up to 3 rows of every layout that the importer documents; all energies, Lande factors, quantum numbers and percentages', 'No test touches the importer, which needs the network.', [IO],
 [('_load_NIST_data', IO), ('load_NIST_data', IO), ('load_level_data', IO)], ['IO.load_NIST_data'])

prop('C29', 'Light fields carry the stated intensity and directions',
 'For a light field of intensity I and (complex) unit polarisation the electric field amplitude lies along the polarisation and satisfies c*epsilon0*|E|^2/2 = I, and the magnetic amplitude is (k x E)/c, so that for a transverse field of unit direction k it is perpendicular to k and E and |B| = |E|/c. '
 'A polarisation whose norm differs from one by more than 1e-6 is rejected.',
 ['inputs'], 'all non-negative intensities, all complex polarisation vectors, all directions',
 'There is no test of this module.', [ENV], [('LightField.E', ENV), ('LightField.B', ENV), ('LightField.__init__', ENV)],
 ['LightField.E()', 'LightField.B()', 'AssertionError on construction'])

prop('C30', 'Atoms generated from tables are complete and consistent',
 'An atom generated from a level table (optionally limited to its first rows), a hyperfine file and a transition table or the types of transitions has exactly the requested levels with the energies listed, the hyperfine coefficients of the file (zero where the file has none), '
 'the listed transitions among its levels with their A coefficients (or, without table, every pair of levels connected by an allowed transition of the requested types; electric dipole by default) at the difference of the energies, and one internal transition for each level; '
 'a frequency assigned afterwards moves only the levels it concerns. An internal transition leads from a level to itself with frequency zero and is of magnetic dipole type (none for J = 0); '
 'its hyperfine and Zeeman components appear once each, exactly where dipole selection rules allow them, lower sublevel first, with the difference of the sublevel energies as frequency.',
 ['inputs', 'history'], 'all energies, coefficients, fields; all J up to 20 for internal transitions; tables of up to three levels',
 'There is no test of generate_full_from_dataframe or of internal transitions.', [IO, ATOM],
 [('generate_full_from_dataframe', IO), ('Atom.populate_internal_transitions', ATOM), ('apply_hf_csv', IO)],
 ['Atom.levels', 'Atom.transitions', 'Transition.values()', 'freq'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
