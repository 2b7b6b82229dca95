"""Property records; `python3 tools/props.py` writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
P = []
NA = []


def p(pid, title, statement, over, text, why, files, mech, note=None, na=None):
    rec = {'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
           'why_tests_cant': why,
           'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    assert len(title) <= 80, title
    P.append((rec, note))
    if na:
        NA.append({'property': pid, 'reason': na})


BETA = ['wilson/run/smeft/beta.py']
BM = [('one-loop beta functions of all 67 SMEFT parameters', 'wilson/run/smeft/beta.py:beta')]
ALLC = 'every value of the SM parameters and of all dimension-six coefficients, as complex tensors'
T1 = ('The repository compares the beta functions with external reference numbers at a handful of parameter points (and '
      'only where the basis files are installed); a statement about every tensor structure needs the formula itself.')

p('R01', 'SMEFT running is covariant under flavour rotations',
  'If the flavour indices of all Yukawa matrices and Wilson coefficients are rotated by independent unitary matrices for '
  'q, u, d, l and e, the SMEFT beta functions rotate in the same way. Every index of every term is contracted with an '
  'index of the same field in the conjugate representation.',
  ['inputs'], ALLC, T1, BETA, BM,
  'decides every contraction of every term; two-sided for index errors that change the flavour type, blind to a swap of '
  'two indices of the same type (that is R02, R03, R08)')
p('R02', 'SMEFT running preserves hermiticity and index symmetries of the operators',
  'Coefficients that satisfy the hermiticity, symmetry and Fierz relations of their operators keep satisfying them under '
  'the SMEFT running, and real coefficients and couplings stay real.',
  ['inputs'], ALLC + ' that satisfy the operator symmetries', T1, BETA, BM,
  'exact identity of normal forms; three defects of the tree are listed as known findings')
p('R03', 'SMEFT running respects CP',
  'If all Yukawa matrices and Wilson coefficients are replaced by their CP conjugates, the running is CP conjugated as '
  'well: no CP-violating coefficient is generated from CP-conserving input.',
  ['inputs'], ALLC, T1, BETA, BM, 'reality pattern of every coefficient of the normal form')
p('R04', 'SMEFT running is linear in the coefficients with the right power of couplings',
  'The running of every dimension-six coefficient is linear in the dimension-six coefficients, independent of the Higgs '
  'mass, and each of its terms has the power of couplings that one loop dictates; the running of the SM parameters '
  'has dimension-six terms only proportional to the Higgs mass squared.',
  ['inputs'], ALLC, T1, BETA, BM, 'grading of every monomial')
p('R05', 'SMEFT running commutes with the dual rotation of field strengths',
  'In the space of the field-strength operators and dipoles, replacing every field strength by its dual, with the '
  'corresponding rotation of dipole phases, maps the running to itself: each CP-odd bosonic coefficient mixes exactly '
  'like its CP-even partner.',
  ['inputs'], ALLC + ' restricted to the field-strength and dipole coefficients', T1, BETA, BM,
  'exact identity of normal forms on the stated sub-sector')
p('R06', 'SMEFT running treats up- and down-type quarks as mirror images',
  'With vanishing hypercharge coupling and without lepton Yukawas, exchanging the right-handed up and down quarks (with '
  'the Higgs doublet and its conjugate) maps the SMEFT running to itself.',
  ['inputs'], ALLC + ' at vanishing hypercharge coupling, lepton Yukawa couplings and the coefficients without mirror',
  T1, BETA, BM, 'exact identity of normal forms on the stated sub-sector')
p('R07', 'SMEFT beta functions are complete, ordered, pure and can be switched off',
  'A beta function of the right shape is returned for every parameter and coefficient, in the order of the integration '
  'vector; computing it modifies neither its input nor a cached intermediate result. With new physics switched off, '
  'the running of the SM parameters is unchanged and no coefficient runs.',
  ['inputs', 'histories'], ALLC + ', and any earlier evaluations',
  'Tests evaluate the function on a few inputs and never look at aliasing, caches or the entries order.',
  BETA + ['wilson/util/common.py'], BM, 'effects and shapes of all entries')
p('R08', 'Every anomalous dimension of the SMEFT running has its one-loop value',
  'The coefficient of every term in the one-loop running of SM parameters and Wilson coefficients equals the published '
  'value (up to deviations recorded as known findings).',
  ['inputs'], ALLC, T1, BETA, BM,
  'comparison of the exact normal form with a committed table; the table was extracted from the pinned tree and '
  'cross-checked by R01-R06, so it detects change, and errors the tree already has only where R01-R06 see them')

EF = ['wilson/util/common.py', 'wilson/util/__init__.py']
EM = [('conversion between coefficient dictionaries and tensors', 'wilson/util/common.py:EFTutil')]
ET = ('Tests round-trip random points of one of the two EFTs where basis files are installed; normalisation and index '
      'errors in rarely used operators are invisible to round trips that are wrong in both directions.')
p('E01', 'Tensors built from a coefficient dictionary represent the same Lagrangian',
  'For any dictionary of non-redundant SMEFT or WET coefficients, the tensors built from it sum to the same Lagrangian, '
  'have all symmetries of their operators, and vanish where no coefficient is given; the input is not modified.',
  ['inputs'], 'every dictionary of Warsaw or JMS coefficients', ET, EF, EM, 'exact linear forms, every tensor entry')
p('E02', 'Non-redundant coefficients read off from tensors are exact and invertible',
  'From any tensors with the operator symmetries, exactly the non-redundant coefficients of the represented Lagrangian '
  'are returned; going from dictionary to tensors and back, or from tensors to dictionary and back, changes nothing.',
  ['inputs'], 'every set of symmetric coefficient tensors of SMEFT and WET', ET, EF, EM,
  'exact linear forms, every coefficient')
p('E03', 'Symmetrisation of tensors is a projection that keeps the reference entries',
  'Symmetrising arbitrary coefficient tensors keeps the entries that define the non-redundant coefficients and fills all '
  'others as the operator symmetry demands, without modifying the input.',
  ['inputs'], 'every set of coefficient tensors of SMEFT and WET', ET, EF, EM, 'exact linear forms, every entry')
p('E04', 'Packing coefficients into the integration vector is lossless',
  'Converting a set of coefficients to the flat vector used by the integrator and back is the identity in both '
  'directions, whatever the order in which the coefficients are given.',
  ['inputs'], 'every set of coefficients and every vector of the right length',
  'Tests do not exercise the vector layout of all operators.', EF, EM, 'every component')

QF = ['wilson/util/qcd.py']
QM = [('running with flavour thresholds', 'wilson/util/qcd.py:alpha_s, m_b, m_c, m_s')]
QT = 'Tests compare a dozen numbers; they sample neither all flavour numbers nor the special scales and argument errors.'
p('J01', 'Running couplings and masses use consistent flavour thresholds',
  'For every allowed number of flavours, the strong coupling and the b, c and s masses are obtained from the reference '
  'value by steps that change the number of active flavours one at a time at the threshold of the flavour concerned, '
  'where the coupling used has the same number of flavours and scale as the quantity it evolves. The requested loop '
  'order and reference coupling are used in every step, and all quantities use the same thresholds.',
  ['inputs'], 'every positive scale, flavour number, reference coupling and loop order', QT, QF, QM,
  'typestate on every path; rundec itself is trusted')
p('J02', 'Running couplings and masses: reference point and invalid requests',
  'At its reference scale and flavour number each quantity equals its input value, at the same scale with another number '
  'of flavours it is the decoupled value, and non-positive scales or unsupported flavour numbers raise a ValueError.',
  ['inputs'], 'the reference scales and every class of invalid arguments', QT, QF, QM, 'every class of arguments')

GF = ['wilson/wcxf/classes.py']
GT = ('The tests create a few objects; the statement quantifies over all coefficient values, documents, registry contents and '
      'histories of registration.')
p('G01', 'Wilson coefficient values survive conversion between numbers and Re/Im entries',
  'Every coefficient entry of a WC object (a real number, a text number or a dictionary with optional Re and Im) is read as the '
  'complex number it denotes, on first and later accesses, by item, dictionary and table; missing coefficients are zero; and '
  'dict2values writes entries that are read back as the same numbers.',
  ['inputs'], 'every value of every coefficient', GT, GF, [('value accessors', 'wilson/wcxf/classes.py:WC')],
  'exact, symbolic values')
p('G02', 'Dumping and loading EFT, basis and coefficient files restores every attribute',
  'Dumping an EFT, Basis or WC object to JSON or YAML, to a string or a stream, writes exactly its public attributes; loading the '
  'document gives an object with the same attributes; other formats are rejected and style options reach the library.',
  ['inputs'], 'every object and every format and stream combination', GT, GF, [('dump and load', 'wilson/wcxf/classes.py:WCxf')],
  'the json and yaml libraries are modelled as faithful')
p('G03', 'Translating and matching apply exactly the registered function',
  'WC.translate and WC.match return the same object for the same basis, otherwise call the one function registered for exactly '
  'these EFTs and bases with the coefficients, scale, parameters and sectors of the call, and return its non-zero values with '
  'the right labels and scale; without a registered function they raise ValueError; the input is never modified.',
  ['inputs'], 'every set of registered translators and matchers, value, parameter and sector choice', GT, GF,
  [('dispatch', 'wilson/wcxf/classes.py:WC.translate'), ('application', 'wilson/wcxf/classes.py:Translator')],
  'exact call trace against registries with decoys')
p('G04', 'EFT, basis, translator and matcher registries stay consistent',
  'Each class keeps its own registry: after any history of definitions, redefinitions and deletions a lookup gives the last '
  'definition or KeyError, listings reflect the registry, a child basis inherits and overrides the sectors of its parent without '
  'modifying it, and a rejected definition leaves the registry as it was.',
  ['inputs', 'histories'], 'histories of registration, lookup, deletion and inheritance', GT, GF,
  [('registries', 'wilson/wcxf/classes.py:NamedInstanceClass'), ('inheritance', 'wilson/wcxf/classes.py:Basis')],
  'representative histories with several EFTs and bases')
p('G05', 'Validation rejects every class of inconsistent basis or coefficient file',
  'Basis.validate raises ValueError for an undefined EFT, unknown sectors, coefficients occurring in several sectors and LaTeX '
  'errors; WC.validate raises for unknown EFTs, bases and coefficients (also with value zero); consistent files pass.',
  ['inputs'], 'every class of invalid file', GT, GF, [('validators', 'wilson/wcxf/classes.py:Basis.validate')], 'every class of file')
p('G06', 'The LaTeX check releases its temporary directory and always gives a verdict',
  'For every outcome of the LaTeX run (missing program, success, failure, with or without log file) the check returns a verdict '
  'that reflects the exit status and, unless asked to keep it, removes the temporary directory it created.',
  ['inputs', 'fault_sequences'], 'every outcome of the external program', 'The tests never run without latex or with a failing file.', GF,
  [('LaTeX check', 'wilson/wcxf/classes.py:_testtex')], 'all outcomes of the system calls')
p('G07', 'Text views of bases and coefficients show what the objects contain',
  'The text and HTML views list the EFT, basis and scale, every coefficient with its value, and every basis entry under its '
  'sector with its LaTeX form and whether it is real or complex.',
  ['inputs'], 'every basis and coefficient object', GT, GF, [('views', 'wilson/wcxf/classes.py:Basis.__str__')],
  'structurally distinct objects with symbolic values')

CT = ('The tests convert one example file; signs, conjugations, symmetry factors and error paths of the thousands of entries are not '
      'covered.')
CV = 'wilson/wcxf/converters/'
p('I01', 'EOS parameters are the SM value plus the matching coefficient',
  'Every EOS parameter equals its Standard Model value (central, min and max alike) plus the real or imaginary part, as its name says, '
  'of the coefficient of that name; lepton-universal parameters take the common electron and muon coefficient and non-universal '
  'input is refused; only parameter files marked as relevant are read.',
  ['inputs'], 'every coefficient value and kind of parameter name', CT, [CV + 'eos.py'], [('conversion', CV + 'eos.py:wcxf2eos')],
  'all kinds of names, symbolic values')
p('I02', 'Command line tools do what their options say and report failure',
  'Every subcommand of wcxf and the converter scripts reads the given file or standard input, applies the conversion, translation, '
  'matching or validation its arguments ask for, writes the result in the requested format to the requested output, and ends with '
  'non-zero exit status and without writing a result when the input or the arguments are invalid.',
  ['inputs', 'configurations'], 'every combination of options and every class of input file', CT, ['wilson/wcxf/cli.py', CV + 'yamljson.py'],
  [('entry points', 'wilson/wcxf/cli.py'), ('format conversion', CV + 'yamljson.py')],
  'argparse is the real library, json, yaml and pylha are modelled as faithful')
p('I03', 'DsixTools files and coefficients are converted without loss',
  'Writing SM parameters and symmetric SMEFT coefficients in the DsixTools format and reading them back restores every element, in the blocks and under the numbers that format defines, whether '
  'or not redundant and zero elements are skipped; WCxf coefficients are made dimensionless with the right power of the high scale '
  'and recovered with their names, values and scale; other EFTs and bases are refused.',
  ['inputs'], 'every set of SM parameters and symmetric coefficients', CT, [CV + 'dsixtools.py', CV + 'dsixtools_definitions.py'],
  [('reader and writer', CV + 'dsixtools.py:wc_lha2dict, wc_dict2lha'), ('WCxf interface', CV + 'dsixtools.py:SMEFTio')],
  'every tensor element; pylha is trusted')
p('I04', 'SMEFTsim cards contain every coefficient with its sign, phase and normalisation',
  'In the SMEFTsim parameter card of either model set and input scheme, every coefficient of the Warsaw basis that SMEFTsim knows '
  'appears once, under its own label and index, multiplied by the squared cutoff and divided by the number of equal tensor '
  'elements, as modulus and phase if it is complex and as signed number if it is real; absent coefficients are zero.',
  ['inputs', 'configurations'], 'every set of coefficients, model set and input scheme', CT, [CV + 'smeftsim.py'],
  [('filling of the card', CV + 'smeftsim.py:smeftsim_card_fill')], 'every card entry; labels give the meaning of entries')

BT = ('The tests round-trip a few random points where basis files are installed; the statement covers every flavour index of every '
      'operator and every value of the parameters.')
p('B01', 'Flavour rotations act on every index with the matrix of its own field',
  'Rotating the fields q, u, d, l, e by unitary matrices transforms every Wilson coefficient and Yukawa matrix on each of its indices with '
  'the matrix of that field (conjugated for conjugate fields), whichever operators are present, in both implementations of the rotation; the '
  'input is not modified.',
  ['inputs'], 'every unitary rotation and every set of coefficients', BT,
  ['wilson/util/smeft_warsaw.py', 'wilson/run/smeft/classes.py'],
  [('rotation of coefficients', 'wilson/util/smeft_warsaw.py:flavor_rotation'), ('rotation of coefficients and SM parameters', 'wilson/run/smeft/classes.py:SMEFT._flavor_rotation')],
  'exact identity of tensor networks for all operators and subsets of one')
p('B02', 'After running, coefficients are returned in the default weak basis',
  'After SMEFT running, all coefficients and Yukawa matrices are rotated to the basis in which the effective down-quark and charged-lepton '
  'mass matrices (including dimension-six contributions) are diagonal, with the standard CKM and PMNS phase conventions.',
  ['inputs'], 'every set of coefficients and Yukawa matrices', BT, ['wilson/run/smeft/classes.py'],
  [('rotation to the default basis', 'wilson/run/smeft/classes.py:SMEFT._rotate_defaultbasis')],
  'the singular value decompositions and the rephasing of ckmutil are opaque')
p('B03', 'Warsaw, Warsaw-up and Warsaw-mass bases are related by the CKM matrix',
  'Translating between the Warsaw and Warsaw-up bases rotates every quark-doublet index with the CKM matrix built from the given (or default) '
  'parameters, in opposite directions for the two translators; the Warsaw-mass basis differs by the rotations that diagonalise the up-quark and neutrino masses.',
  ['inputs'], 'every set of coefficients and parameters', BT, ['wilson/translate/smeft.py', 'wilson/util/smeft_warsaw.py'],
  [('translators', 'wilson/translate/smeft.py:warsaw_to_warsaw_up, warsaw_up_to_warsaw, warsaw_to_warsawmass')],
  'every coefficient of the basis with a symbolic CKM matrix; ckmutil is trusted')

HT = ('Tests compare runs at a few points where basis files are installed; wiring errors for other options, orders of calls or parameters go unnoticed.')
p('H01', 'SMEFT evolution solves dC/dln(mu) = beta/(16 pi^2) from input to output scale',
  'The leading-logarithm result is C + beta(C)/(16 pi^2) ln(mu_out/mu_in); the integrated result is the solution of the RGEs with the given '
  'initial values at the output scale, for every coefficient; solver options and the switch for new-physics contributions are respected and '
  'the continuous solution gives all coefficients and SM parameters at any scale in between.',
  ['inputs', 'configurations'], 'every set of coefficients, pair of scales and option', HT, ['wilson/run/smeft/rge.py', 'wilson/run/smeft/beta.py'],
  [('evolution', 'wilson/run/smeft/rge.py:smeft_evolve, smeft_evolve_leadinglog, smeft_evolve_continuous')],
  'the beta function and the ODE solver are opaque (R01-R08 and X01)')
p('H02', 'SM parameters and observables are inverse functions of each other',
  'The SM couplings computed from observables in the presence of dimension-six coefficients reproduce these observables (masses, CKM elements, '
  'couplings, Fermi constant); the Higgs potential parameters and (v, m_h) are inverse to each other; unphysical inputs are refused.',
  ['inputs'], 'every physical set of observables and dimension-six coefficients', HT, ['wilson/run/smeft/smpar.py'],
  [('couplings from observables', 'wilson/run/smeft/smpar.py:smeftpar'), ('observables from couplings', 'wilson/run/smeft/smpar.py:smpar')],
  'symbolic identities, decided by values at generic points where roots occur')
p('H03', 'The SMEFT class runs the given coefficients with consistent SM parameters',
  'The SMEFT class starts from exactly the given coefficients, determines the SM parameters at the electroweak scale in the presence of the '
  'coefficients and runs them up, and returns the solution at the output scale in the default basis, labelled with scale and basis; '
  'accuracy and solver options are respected, calls do not change its state, and other EFTs, bases or options are refused.',
  ['inputs', 'configurations', 'histories'], 'every set of coefficients, scale, option and sequence of calls', HT, ['wilson/run/smeft/classes.py'],
  [('SMEFT class', 'wilson/run/smeft/classes.py:SMEFT')], 'evolution, extraction and rotation are uninterpreted functions (H01, H02, B02)')

p('H04', 'match_run composes running, matching and translation; caching is transparent',
  'Wilson.match_run returns the coefficients obtained by translating to the running basis, running to the matching scales, matching and '
  'translating to the requested basis, with the options and parameters in force, for every pair of EFTs, bases and scales; repeated calls, '
  'earlier calls and option changes never alter results, options are validated and defaults of the class never leak between instances; '
  'equal objects have equal hashes that change with values and options.',
  ['inputs', 'configurations', 'histories'], 'every input EFT, output EFT, basis, scale, option, sector restriction and sequence of calls', HT, ['wilson/classes.py'],
  [('match_run', 'wilson/classes.py:Wilson.match_run'), ('options', 'wilson/classes.py:ConfigurableClass'), ('plot data', 'wilson/classes.py:RGsolution')],
  'translators, matchers and runners are opaque; SMEFT translators do not depend on the sectors argument')
p('H05', 'WET running solves the RGE with the QCD and QED anomalous dimensions',
  'WETrunner.run returns the first-order-in-alpha_e, leading-log QCD solution of the RGE for the given anomalous dimensions for every sector, number of '
  'flavours, order option and pair of scales, with dipoles and gluonic operators rescaled by the running masses and couplings at the two '
  'scales; only coefficients of the requested sectors and the basis are returned, parameters given by the user are used and '
  'nothing is modified.',
  ['inputs', 'configurations', 'histories'], 'every set of coefficients, EFT, pair of scales, parameter and option', HT,
  ['wilson/run/wet/rge.py', 'wilson/run/wet/classes.py', 'wilson/run/wet/definitions.py'],
  [('evolution', 'wilson/run/wet/rge.py:run_sector, getUs, getUe'), ('runner', 'wilson/run/wet/classes.py:WETrunner')],
  'anomalous dimension matrices are opaque (exact spectral decompositions); running masses and alpha_s are uninterpreted (J01, J02)')

HD = 'Tests evolve a few coefficients between two scales; the matrices have tens of thousands of entries for all operators, sectors and numbers of flavours.'
p('D01', 'Each entry of the WET anomalous dimension matrices has its established value',
  'For 3, 4 and 5 flavours, every pair of Wilson coefficients of the WET has the established one-loop QCD and QED anomalous dimension as a function of the '
  'fermion masses, entered in the row and column of these coefficients in the matrix used for the sector; all coefficients of the basis are covered.',
  ['inputs', 'configurations'], 'every pair of coefficients, number of flavours and value of the masses', HD,
  ['wilson/run/wet/adm.py', 'wilson/run/wet/definitions.py'],
  [('matrices', 'wilson/run/wet/adm.py:adm_s_*, adm_e_*'), ('sectors and order of coefficients', 'wilson/run/wet/definitions.py:sectors, coeffs')],
  'established values: table of the audited tree (after the fix of the three-gluon entries), cross-validated by D02 and D03')
p('D02', 'WET anomalous dimensions respect flavour universality, flavour numbers, parity',
  'QCD and QED do not distinguish generations or chiralities: relabelling the generations of the up quarks, down quarks, charged leptons or neutrinos '
  '(together with their masses), or a parity transformation, turns the anomalous dimensions into each other; operators with different flavour quantum numbers never mix.',
  ['inputs', 'configurations'], 'every entry, permutation of generations and number of flavours', HD,
  ['wilson/run/wet/adm.py', 'wilson/run/wet/definitions.py'],
  [('matrices', 'wilson/run/wet/adm.py:adm_s_*, adm_e_*'), ('sectors and order of coefficients', 'wilson/run/wet/definitions.py:sectors, coeffs')],
  'operators without partner of opposite chirality (neutrinos) are exempt from the parity relation')
p('D03', 'WET anomalous dimensions agree with the closed one-loop formulas',
  'Semileptonic and leptonic operators with distinct flavours, Delta F = 2, baryon number violating, dipole and gluonic operators run with the anomalous dimensions that follow '
  'from the electric charges and colour factors at one loop, including the running of the masses and couplings in their normalisation.',
  ['inputs', 'configurations'], 'every operator of these classes, number of flavours and value of the masses', HD,
  ['wilson/run/wet/adm.py', 'wilson/run/wet/rge.py'],
  [('matrices', 'wilson/run/wet/adm.py:adm_s_*, adm_e_*'), ('normalisation', 'wilson/run/wet/rge.py:scale_C')],
  'independent formulas; classes without simple closed form are covered by D01 and D02 only')

TW = ['wilson/translate/wet.py', 'wilson/translate/__init__.py']
HF = 'Translations are sums over thousands of coefficients with CKM elements, masses and couplings; a test compares a few of them at one value of the parameters.'

p('F01', 'Translations between WET bases are mutually inverse and composable',
  'Translating Wilson coefficients between two bases of the WET, WET-4 or WET-3 and back returns the same values for every coefficient both bases contain, and two routes between the same bases '
  '(through JMS, flavio or Bern) give the same result; the EOS basis holds the real and imaginary parts of these coefficients.',
  ['inputs', 'configurations'], 'every coefficient of the JMS, flavio, Bern, EOS and FlavorKit bases, every value of the coefficients and of the parameters', HF,
  TW + ['wilson/data/flavorkit_jms.json'],
  [('translators', 'wilson/translate/wet.py:JMS_to_flavio, flavio_to_JMS, JMS_to_Bern, Bern_to_JMS, flavio_to_Bern, Bern_to_flavio, JMS_to_EOS, JMS_to_FlavorKit, FlavorKit_to_JMS'), ('wrappers', 'wilson/translate/__init__.py')],
  'names of the bases from a snapshot, since the basis files are not part of the repository')
p('F02', 'Every translated WET coefficient has its established definition',
  'Each coefficient of the flavio, Bern, EOS, formflavor, FlavorKit and JMS bases is given in terms of the input coefficients, CKM elements, masses and couplings by its established formula.',
  ['inputs', 'configurations'], 'every translator between WET bases, every output coefficient and every value of inputs and parameters', HF,
  TW + ['wilson/data'],
  [('translators', 'wilson/translate/wet.py'), ('normalisation tables', 'wilson/data/*.json')],
  'established formulas: table of the audited tree (after fixes), cross-validated by F01 and F03')
p('F03', 'WET translations respect flavour rephasings, flavour labels and parity',
  'A translated coefficient changes under rephasing of the quark and lepton fields as its flavour label says, involves only input operators with the flavours of the label, has the same coefficients for every '
  'assignment of generations, and left-handed and right-handed partners are translated alike.',
  ['inputs', 'configurations'], 'every coefficient of the flavio, Bern, formflavor and FlavorKit bases and every rephasing', HF,
  TW, [('translators', 'wilson/translate/wet.py')])
p('F04', 'WET translations are linear, sector-wise and use the given parameters',
  'A translation does not modify its input, is linear, treats missing coefficients as zero, restricts the result exactly to the requested sectors whatever kind of container they are given in, uses default '
  'parameters with the overrides given by the user, and acts on WET-4 and WET-3 as on the WET.',
  ['inputs', 'configurations'], 'every translator, every set of sectors, every subset of input coefficients and of parameters', HF,
  TW, [('translators', 'wilson/translate/wet.py'), ('wrappers', 'wilson/translate/__init__.py'), ('parameters', 'wilson/parameters.py')])
p('F05', 'Higgs-Warsaw up and Warsaw bases are translated into each other',
  'Translating SMEFT coefficients from the Warsaw or Warsaw up basis to the Higgs-Warsaw up basis and back is the identity for every coefficient and every value of the parameters, the routes through '
  'Warsaw up and Warsaw agree, every coupling has its established definition, and hermitian coefficients stay hermitian.',
  ['inputs', 'configurations'], 'every coefficient of the Warsaw, Warsaw up and Higgs-Warsaw up bases, every value of the electroweak parameters and unitary CKM matrix', HF,
  ['wilson/translate/smeft_higgs.py', 'wilson/translate/__init__.py'],
  [('Higgs basis', 'wilson/translate/smeft_higgs.py')])

CF = 'The matching conditions must hold for all values of the coefficients and parameters in all flavour components; tests compare single points.'
p('C01', 'Tree-level SMEFT-to-WET matching equals integrating out W and Z',
  'For every set of Warsaw-up coefficients, the tree-level WET coefficients are, to first order in the dimension-six coefficients, those obtained by integrating out the W and Z bosons with their modified couplings and '
  'masses in the G_F, m_W, alpha_e input scheme, plus the direct four-fermion, dipole and baryon-number-violating contributions with the symmetry and Fierz factors of the operators; the pure SM contribution is '
  'subtracted, so vanishing coefficients give vanishing results, and the coefficient that mediates muon decay is not shifted.',
  ['inputs'], 'every WET operator and flavour component, every SMEFT coefficient, every value of G_F, m_W and alpha_e', CF,
  ['wilson/match/smeft_tree.py'], [('tree-level matching', 'wilson/match/smeft_tree.py:_match_all_array')])
p('C02', 'One-loop matching is covariant, hermitian and equal to the published result',
  'For every set of coefficients, the one-loop matching contribution to every WET operator has the hermiticity and exchange symmetries of that operator, transforms covariantly under rephasing and relabelling of the '
  'fermion fields of the three generations (with the CKM matrix and the masses), vanishes without dimension-six coefficients, depends on the parameters the user gives, and has the established contribution of every '
  'SMEFT operator at every scale.',
  ['inputs', 'configurations'], 'every WET operator and flavour component, every SMEFT coefficient, all masses, couplings, CKM elements and scales', CF,
  ['wilson/match/smeft_loop.py'], [('one-loop matching', 'wilson/match/smeft_loop.py:_match_all_array')])
p('C03', 'Matchers compose basis changes and matching conditions faithfully',
  'Every registered matcher from the SMEFT to the WET evaluates the tree-level conditions (and the one-loop ones exactly if the parameter loop_order is 1) on the coefficients of the Warsaw up basis with the symmetries of '
  'the operators, with the parameters of the user completed by the defaults and at the given scale, rotates all left-handed down-type quarks to the mass basis with the CKM matrix, returns one coefficient per '
  'independent component with its symmetry factor, and agrees with matching in the Warsaw up and JMS bases followed by translation; matchers to theories with fewer flavours pass on exactly the coefficients that '
  'exist there. Inputs and defaults are not changed.',
  ['inputs', 'configurations'], 'every registered matcher, every coefficient, every combination of given parameters', CF,
  ['wilson/match/__init__.py', 'wilson/match/smeft.py', 'wilson/util/wet_jms.py'],
  [('matchers', 'wilson/match/__init__.py'), ('match_all', 'wilson/match/smeft.py:match_all'), ('rotate_down', 'wilson/util/wet_jms.py:rotate_down')])

XT = 'No test can bound it for all inputs.'
p('X01', 'Numerical integration of the RGEs stays within the requested tolerance',
  'The numerical solution of the running of coefficients agrees with the exact solution within the requested tolerance.',
  ['inputs'], 'every initial condition and pair of scales', XT, ['wilson/run/smeft/rge.py'],
  [('numerical integration', 'wilson/run/smeft/rge.py:smeft_evolve')],
  na='the error of an adaptive Runge-Kutta integration (scipy) depends on run-time step control and floating-point '
     'values; no sound static bound is in reach')
p('X02', 'Iterative extraction of SM parameters converges',
  'The iterative determination of high-scale SM parameters from low-scale inputs in the presence of dimension-six '
  'coefficients converges to parameters that reproduce the inputs.',
  ['inputs'], 'every set of coefficients and scales', XT,
  ['wilson/run/smeft/smpar.py', 'wilson/run/smeft/classes.py'],
  [('fixed-point iteration', 'wilson/run/smeft/classes.py:SMEFT')],
  na='convergence of a fixed-point iteration of a numerical ODE solution is a quantitative run-time property')
p('X03', 'Running quark masses and strong coupling have the stated perturbative accuracy',
  'The running coupling and quark masses agree with the solution of the multi-loop RGE to the accuracy of the '
  'tabulated decoupling and beta function coefficients.',
  ['inputs'], 'every scale and input value', XT, ['wilson/util/qcd.py'],
  [('rundec calls', 'wilson/util/qcd.py')],
  na='the numbers are produced by the external compiled library rundec, whose source is not part of the repository')


def main():
    from vlib import core, checks
    checks.load_all()
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
        for rec, note in P:
            fh.write(json.dumps(rec) + '\n')
    na = {x['property'] for x in NA}
    man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q vlib check.py', 'checks': [], 'not_applicable': NA,
           'notes': 'Every check parses the current source under /repo and interprets it abstractly; nothing of the '
                    'package is imported or executed. See DESIGN.md.'}
    for rec, note in P:
        pid = rec['id']
        if pid in na:
            continue
        if pid not in core.REG:
            print('NO CHECK for', pid)
            continue
        f, level, technique = core.REG[pid]
        man['checks'].append({'property': pid, 'quick_cmd': 'python3 check.py %s --quick' % pid,
                              'thorough_cmd': 'python3 check.py %s --thorough' % pid,
                              'technique': 'static analysis: ' + technique, 'level': level,
                              'level_note': note or technique})
    for pid in core.REG:
        if pid not in {r['id'] for r, n in P}:
            print('NO RECORD for', pid)
    d = open(os.path.join(ROOT, 'DESIGN.md')).read()
    a, b = '|----|----|\n', '<!-- end of table -->'
    i = d.index(a) + len(a)
    j = d.index(b) if b in d else len(d)
    rows = ''.join('| %s | **%s.** %s. Bound: %s |\n' % (r['id'], r['title'], core.REG[r['id']][2][:1].upper() +
                   core.REG[r['id']][2][1:], n or 'none') for r, n in P if r['id'] in core.REG)
    rows += ''.join('| %s | not applicable: %s |\n' % (x['property'], x['reason']) for x in NA)
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as fh:
        fh.write(d[:i] + rows + b + d[j + len(b) if b in d else j:])
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')


main()
