"""The properties, in one place."""


def P(id, title, statement, over, qtext, why, files, mech, note, **k):
    return dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
                anchors={'files': ['termfactory/' + f for f in files], 'mechanism': [{'name': a, 'where': b} for a, b in mech]}, note=note, **k)


GEN = ('Deductive for the functions listed in the evidence as proved; anything listed there as not proved is covered only by the '
       'bounded cases. Trusts the pyvc VC generator, z3 and the modelled Python semantics.')

PROPS = [
    P('C01', 'Only complete in-range truncations are accepted',
      'The truncation check of every generator accepts a dictionary exactly when it holds every key of that ansatz, no other key, and each value lies '
      'between one and that key\'s maximum. Anything else makes the generator raise before any output file is written, and an acceptable truncation is never rejected '
      'by the check.',
      ['inputs', 'configurations'], 'all key sets and all integer values', 'no test exercises the truncation verification',
      ['truncations.py', 'truncation_keys.py', 'latex_full_cc.py', 'latex_zhz.py', 'latex_eT_zhz.py', 'code_full_cc.py', 'code_eT_zhz.py'],
      [('verification', 'truncations.py:_verify_*_truncations'), ('entry points', 'generate_* functions')], GEN),
    P('C02', 'Truncations survive saving to and loading from JSON unchanged',
      'Saving any accepted truncation dictionary to a JSON file and loading it back yields an equal dictionary with the same enum keys, the saved file '
      'maps each key\'s string name to its value, the dictionary handed to the save function is left as it was, and loading a file whose contents are not an acceptable '
      'truncation raises.',
      ['inputs', 'histories'], 'all accepted truncations', 'no test exercises saving or loading',
      ['truncations.py', 'truncation_keys.py'], [('conversion and files', 'truncations.py, truncation_keys.py')], GEN),
    P('C03', 'Operator enumeration is complete and duplicate-free at every truncation',
      'For every truncation the generated projection operators, Hamiltonian terms and cluster operators are exactly the (creation, annihilation) '
      'pairs whose total rank is admitted by that truncation, each once, with the rank and name that match its indices. The Taylor expansion '
      'of order K contains, for each k up to K, every ordered product of k cluster operators exactly once, with the identity at order zero.',
      ['inputs', 'configurations'], 'all non-negative ranks and orders, ground and excited state',
      'tests compare a few small ranks (at most 3) with stored lists', ['latex_full_cc.py', 'latex_zhz.py', 'latex_eT_zhz.py'],
      [('operator generators', 'latex_full_cc.py:57-189, latex_zhz.py:85-111, latex_eT_zhz.py:35-111')], GEN),
    P('C04', 'Operator products are kept exactly when all their indices can pair off',
      'A product of a projection, optional exponential factors, a Hamiltonian term and cluster operators is kept exactly when its creation and '
      'annihilation counts balance, no cluster operator has to contract with another of its own kind, and neither the projection nor the '
      'Hamiltonian term has to contract with itself. Every kept product appears in its original order and multiplicity, and nothing else is added.',
      ['inputs'], 'all ranks, all product lengths, all lists of candidate products',
      'tests run each filter on one or two hand-written lists', ['latex_full_cc.py', 'latex_zhz.py', 'latex_eT_zhz.py'],
      [('product filters', 'latex_full_cc.py:276-403, latex_zhz.py:422-507, latex_eT_zhz.py:115-350')], GEN),
    P('C05', 'Every admissible distribution of indices is enumerated exactly once',
      'For every kept product the enumeration of how the cluster indices are shared between the projection and the Hamiltonian (and the other '
      'cluster operators where the ansatz allows it) contains every assignment that stays within the partners\' capacities and no other. '
      'Each operator is labelled connected exactly when it touches the Hamiltonian, and products differing only in operator order are merged into one.',
      ['inputs'], 'all ranks and product lengths', 'tests list the distributions for single small products',
      ['latex_full_cc.py', 'latex_zhz.py', 'latex_eT_zhz.py'],
      [('distribution enumeration', 'latex_full_cc.py:406-517, latex_zhz.py:510-716, latex_eT_zhz.py:353-978')], GEN),
    P('C06', 'Every term conserves and pairs all of its indices',
      'In every term the generators emit, the indices of the projection and of the Hamiltonian are each fully accounted for by their contractions '
      'with the other operators, and the number of indices the projection shares with the Hamiltonian agrees seen from both sides. '
      'A candidate assignment is emitted exactly when this balance is possible.',
      ['inputs'], 'all ranks and all assignments within capacity', 'tests check a handful of labelled terms',
      ['latex_full_cc.py', 'latex_zhz.py', 'latex_eT_zhz.py'],
      [('explicit connection labelling', 'latex_full_cc.py:520-561, latex_zhz.py:719-801, latex_eT_zhz.py:981-1076')], GEN),
    P('C07', 'Connected, linked and unlinked terms form a partition by connection type',
      'Every term is placed in exactly one of the three groups, keeping the order of the input: fully connected when every cluster operator touches '
      'the Hamiltonian (or there is none), unlinked disconnected when some cluster operator alone takes every index of the projection, and linked '
      'disconnected otherwise.',
      ['inputs'], 'all lists of labelled terms of any rank and length', 'tests classify two lists',
      ['latex_full_cc.py'], [('classification', 'latex_full_cc.py:654-711')], GEN),
    P('C08', 'f-term removal drops exactly the projection-Hamiltonian contractions',
      'With f-term removal requested, precisely the terms in which a creation index of the projection contracts directly with the Hamiltonian are '
      'dropped and every other term stays in place; without it nothing is dropped. In full cc equations the f and f-bar prefactors are reported, with the right power, exactly for the terms with such contractions.',
      ['inputs', 'configurations'], 'all term lists, both settings', 'tests use one list per setting',
      ['latex_full_cc.py', 'latex_zhz.py', 'latex_eT_zhz.py'], [('f term removal', 'latex_full_cc.py:564-580, 1129-1141')], GEN),
    P('C09', 'Index labels pair exactly the contracted indices and expose the free ones',
      'In every written LaTeX term each summation label occurs exactly twice, once as an upper and once as a lower index of two different operators that the '
      'contraction joins, and the labels occurring once are exactly those of the projection operator, each on the side the projection asks for. No label is '
      'missing, reused across contractions or skipped, in condensed and uncondensed terms, whatever the truncation.',
      ['inputs', 'configurations'], 'all operators of any rank for the labelling functions; files up to the listed truncations', 'tests compare labels of a few small terms',
      ['latex_full_cc.py', 'latex_zhz.py', 'latex_eT_zhz.py'],
      [('labelling', 'latex_full_cc.py:715-834, latex_zhz.py:962-1047, latex_eT_zhz.py:1424-1632')],
      'The labelling functions are proved for all ranks and list lengths; that their labels match up across the operators of a written term is checked by reading files back (bounded). ' + GEN),
    P('C10', 'Prefactors equal the combinatorial weight of the contraction',
      'The numerical prefactor of every written term equals the documented weight: for full cc the factorial of the number of different amplitudes on the '
      'Hamiltonian over the factorials of its index counts and of the number of amplitudes; for the z ansaetze the inverse factorials of all operators times the ways to choose '
      'and pair their indices. Cancelling common factors never changes the value.',
      ['inputs', 'configurations'], 'all operators of any rank and any number of amplitudes', 'tests compare prefactors of a few small terms',
      ['latex_full_cc.py', 'latex_zhz.py', 'latex_eT_zhz.py'],
      [('prefactors', 'latex_full_cc.py:956-1080, latex_zhz.py:1245-1366, latex_eT_zhz.py:1136-1346')], GEN),
    P('C11', 'Generated W operators are the exponential expansion of the amplitudes',
      'Calling the generated W operator code for any order it supports returns, for any amplitudes, the sum over all ordered products of amplitudes '
      'whose ranks add up to that order, each divided by the factorial of the number of factors and of each rank, symmetrized over the mode indices. '
      'The ansatz and truncation flags leave out exactly the products they exclude, and no supported order is missing.',
      ['inputs', 'configurations'], 'all amplitudes and tensor sizes, every order 1..6, truncation level and ansatz',
      'tests compare generated text with stored files for single settings', ['code_w_equations.py', 'helper_funcs.py'],
      [('W generator', 'code_w_equations.py:66-520')],
      'The prefactor function is proved for all ranks; the generated code is evaluated symbolically (all tensors) for every order and flag setting the generator supports. ' + GEN),
    P('C12', 'Every term of the theory is written once, in the group it belongs to',
      'For every projection operator within the truncation the written LaTeX file holds one equation, whose right-hand side contains every term of the theory admitted '
      'by the truncation exactly once, under the connection group (or ansatz product) it belongs to, and no other term. Splitting and condensing long lines loses and repeats nothing.',
      ['inputs', 'configurations'], 'the listed truncations, ground and excited state, both f-term settings', 'tests compare a few small files with stored text',
      ['latex_full_cc.py', 'latex_zhz.py', 'latex_eT_zhz.py'],
      [('equation assembly', 'latex_full_cc.py:1144-1390, latex_zhz.py:1369-1720, latex_eT_zhz.py:1635-2110')],
      'The assembly functions, from the term filters to the whole file, are proved for lists of any length with the term builders as abstract callees (themselves proved under C03-C10). Stand-in for the condensed and split layouts: written files are parsed and compared with the specification pipeline.'),
    P('C13', 'Optimized generated code computes the same quantities as the default code',
      'For every order, ansatz and truncation the optimized W operator and amplitude functions, fed with the contraction paths that the generated '
      'path functions build for that truncation, return exactly what the unoptimized functions return for the same amplitudes.',
      ['inputs', 'configurations'], 'all amplitudes and tensor sizes, every order 1..6, truncation level and ansatz',
      'no test runs generated code', ['code_w_equations.py', 'code_dt_equations.py'],
      [('optimized generators', 'code_w_equations.py:118-340, code_dt_equations.py:100-420')],
      'The call lists and contraction-path lists of both generators are proved, for every partition, to name the same arrays with the same subscripts in the same order; '
      'the string assembly of whole files is a bounded check, complete over the finite generator inputs, that executes the generated code on formal tensors.'),
    P('C14', 'Options select exactly the requested generator, settings and output file',
      'The command line and the generate functions call exactly one generator: the one of the requested ansatz (or of the ansatz the truncations belong to) and output kind, '
      'with the truncations, ground/excited state, f-term and LHS/RHS settings as given or at their defaults, writing to the file named after them. '
      'Truncations of another ansatz, an unknown ansatz, or contradictory or missing truncation sources raise and generate nothing.',
      ['inputs', 'configurations'], 'all option combinations, all truncation values', 'no test runs the driver or the glue',
      ['driver.py', '_glue_.py', 'truncation_keys.py'], [('option handling', 'driver.py, _glue_.py')], GEN),
    P('C15', 'Generated residuals are the projected Hamiltonian acting on W',
      'For every order p the generated residual is the sum over Hamiltonian terms with m creation and n annihilation indices (m at most p) of the term '
      'contracted with W of order p-m+n, divided by m! n! (p-m)!, each pair of indices contracted once. Terms whose W operator is absent, '
      'or quadratic terms switched off by the truncation, are left out; nothing else is.',
      ['inputs', 'configurations'], 'all orders for coefficients and labels, orders 0..6 for the generated code, all tensors',
      'tests compare generated text with stored files', ['code_residual_equations.py'],
      [('residual generator', 'code_residual_equations.py:60-560')], GEN),
    P('C16', 'W equations in LaTeX list every partition once with its coefficient',
      'The LaTeX W equations contain, for each order, every product of amplitudes whose ranks add up to that order exactly once, with coefficient one over the '
      'factorials of the repetition counts. The partition helpers behind the W and amplitude generators return every partition of their kind exactly once '
      'in the documented order.',
      ['inputs'], 'prefactors for all counts; partitions of n <= 12 and equations up to order 8', 'tests list partitions for one n',
      ['latex_w_equations.py', 'helper_funcs.py'], [('partitions', 'helper_funcs.py'), ('W latex', 'latex_w_equations.py')], GEN),
    P('C17', 'Generated full cc and e^T z code evaluates the terms of the theory',
      'For every order the functions in the generated code of the full cc and e^T z ansaetze, run on any amplitudes, Hamiltonian and z tensors symmetric in their mode indices, '
      'return exactly the sum of the terms of the theory in their group: each Hamiltonian term contracted with the amplitudes (and z), with the combinatorial weight of that contraction, '
      'with the surface indices chained in every order of the amplitudes, and with the output indices in the order of the projection. A term is left out exactly '
      'when a truncation flag of one of its operators is off, and the optimized functions return what the plain ones do. The excited state of a generator without support for it raises.',
      ['inputs', 'configurations'], 'labels, groups and prefactors for all ranks and list lengths; whole generated files for the listed truncations, all tensors and all truncation flag settings',
      'tests compare generated text with stored files for small truncations and never run it', ['code_full_cc.py', 'code_eT_zhz.py'],
      [('full cc code', 'code_full_cc.py'), ('e^T z code', 'code_eT_zhz.py')],
      'Label, einsum component and prefactor functions are proved; that the written functions add up to the theory is checked by running the written files on formal tensors (bounded). ' + GEN),
    P('C18', 'Generated amplitude derivatives subtract exactly the disconnected products',
      'For every order k the generated amplitude equation is the symmetrized residual minus W times epsilon over k! minus every ordered product of one amplitude derivative '
      'with other amplitudes that the ansatz treats as disconnected, each with the exponential coefficient. A truncation that excludes the order raises.',
      ['inputs', 'configurations'], 'all amplitudes, every order 1..6, truncation level and ansatz', 'tests compare generated text for single settings',
      ['code_dt_equations.py', 'helper_funcs.py'], [('dt generator', 'code_dt_equations.py')],
      'The prefactor function is proved for all ranks; the generated code is evaluated symbolically (all tensors) for every order and flag setting. ' + GEN),
    P('C19', 'Left-hand sides list every derivative and energy product of the projection',
      'The left-hand side written for a projection operator is i times the sum, over every product of amplitudes whose indices match the projection, of its time derivative by the '
      'product rule and of the product times epsilon, each once and labelled with the indices of the projection. In the z ansaetze it is i times the derivative '
      'of the amplitude with the indices of the projection.',
      ['inputs', 'configurations'], 'the listed truncations', 'tests compare single small left-hand sides',
      ['latex_full_cc.py', 'latex_zhz.py', 'latex_eT_zhz.py'], [('left-hand sides', 'latex_full_cc.py:1392-1495')],
      'The functions that write left-hand sides are proved for all ranks and product lists; written left-hand sides are also parsed and compared with an independent enumeration (bounded).'),
    P('C20', 'Output depends only on the options',
      'Generating twice with equal options writes byte-identical files, in any process, whatever the string hash seed, whatever was generated before in the same process, and whatever the order of the '
      'truncation keys.',
      ['histories', 'configurations'], 'all options, processes and histories (frames); the listed option sets, hash seeds and generation orders (files)', 'tests fix the hash seed and run each generator once',
      ['latex_full_cc.py', 'latex_zhz.py', 'latex_eT_zhz.py', 'code_full_cc.py', 'code_eT_zhz.py', 'code_w_equations.py'],
      [('file generators', 'generate_* functions')], 'Frame contracts (modular effect analysis of every function the generators reach): nothing outlives a call, nothing but arguments and constants is read, no order of a string set reaches the output; '
      'functions the evidence lists as open, and the files as a whole, by the bounded stand-in: files written under different hash seeds and orders are compared.',
      technique='frame contracts checked function by function on the /repo source by the pyvc effect checker; bounded comparison of files'),
]
NA = []
