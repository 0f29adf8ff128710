ST = 'explicit-state exploration of the real code, compared step by step with a reference model'
EX = 'bounded-exhaustive enumeration of executions of the real code against a reference model'
TECH.update({
 'C01': (EX, 'Every energy on, beside and between every bound of all small group structures and the shipped ones is mapped by the real function and compared with a scan over the groups; larger structures than the bound are covered only by the shipped ones.'),
 'C02': (EX, 'The real writer is run on generated ACE libraries for all subsets of sampled quantities, factor patterns, layouts, sums and sample counts within the bounds; each written file is compared number by number with a model. Trusts the generator and the assumption that distinct arrays have distinct texts.'),
 'C03': (ST, 'All presence patterns of a ten (twelve) reaction universe, every constituent of every sum, and all operation histories within the depth are executed; the model is an own copy of the ENDF sum rules.'),
 'C04': (ST, 'All operation sequences within the depth on a real editor, every quantity read in every way after every step and compared with a table of values.'),
 'C05': (ST, 'All density patterns and setting sequences within the bounds on real tables; the model integrates the density itself. Tolerances 1e-6/1e-7 because the base file has 11 digits.'),
 'C06': (EX, 'All random orderings of a bounded number of samples are enumerated by controlling the random source; all placements of non-samplable groups; stratification is checked with exact quantiles.'),
 'C07': (EX, 'All random orderings of small sample sets are enumerated and the joint ordering is compared with an independently computed score matrix; correlation matrices and group relabellings over a small alphabet are enumerated for large sample counts. The dependence at large sample counts is judged with a tolerance.'),
 'C08': (EX, 'All sign patterns of small sample matrices, all options and all sampling types are enumerated through the real front end.'),
 'C09': (EX, 'All symmetric matrices over a small alphabet up to the size bound are loaded through the real store and compared with an eigenvalue model.'),
 'C10': (EX, 'All symmetric matrices over a small alphabet up to the size bound are factored and multiplied back; all conversions over a wide alphabet of scales.'),
 'C11': (ST, 'All sequences of store operations within the depth on a real HDF5 file against a dictionary model, with reopening between steps.'),
 'C12': (EX, 'The converter is compiled from /repo and run on all encodings of all small matrices, all data-set orders and requests; a Python decoder is the model.'),
 'C13': (ST, 'All matrices over a small alphabet, all zero placements and all storing sequences through the real conversion into a real store.'),
 'C14': (EX, 'All option combinations within the bounds; every generated deck is executed by an interpreter of the tape discipline of the NJOY modules.'),
 'C15': ('exhaustive enumeration of configurations and of fault points, on the real chain with recording stand-in programs', 'Every program invocation of every configuration is made to fail once; stand-in programs replace NJOY and the converter.'),
 'C16': (EX, 'All small libraries over lengths, header styles, table counts and selections are written by an independent generator and read by the real reader, in text and binary.'),
 'C17': (EX, 'All number fields of a small grammar, all records over lengths across line ends, all record sequences and small tapes.'),
 'C18': (EX, 'All small tables over a value alphabet, region splits and laws, evaluated at and between all points, integrated and compared with closed forms.'),
 'C19': (EX, 'All generated nuclides over subsets of reaction and distribution kinds are exported and imported by the real code and compared field by field.'),
 'C20': ('stateless exploration of all interleavings of the ranks of the real program under a controlled scheduler', 'The ranks run as threads with a stand-in communicator; every interleaving at collective operations and file openings is explored for small sizes, all completion orders (and single preemptions) for larger ones. Ranks are not preempted between those points.'),
 'C21': (EX, 'All nuclides, states and identifier conventions are enumerated.'),
 'C22': (ST, 'All contents over a colliding alphabet, all searches and all replacement sequences within the depth against a list model.'),
 'C23': (EX, 'All generated tables over subsets of reaction kinds, laws, nu-bar, photon and probability-table forms are written by an independent generator, read by the real code and compared field by field with the specification they were generated from.'),
 'C24': (EX, 'All evaluations over sequences of decay modes, radiation types and small yield tables are written by an independent generator, read by the real code and compared value by value.'),
 'C25': (EX, 'All generated evaluations over reaction, law and nu-bar forms are written by an independent generator, read by the real code and compared field by field with the specification they were generated from. Resonance cross sections are left to C38.'),
 'C26': (ST, 'All table shapes are written by an independent generator, read by the real code and compared value by value, and all sequences of adding temperatures, other materials and HDF5 round trips up to the depth are explored on the real code against a reference model of the states.'),
 'C27': (ST, 'All sequences of registered files and path spellings, all places of the index and all histories of registering, exporting and reading up to the depth are executed on the real code against a reference list.'),
 'C28': (EX, 'All evaluations over orders, coefficient patterns, nu-bar forms and sets of tabulated components are written by an independent generator, read by the real code and compared with the formulas of the ENDF manual at every energy of the grid, before and after storage.'),
 'C29': (EX, 'All ordinate sequences over a small alphabet and all functions of a set are linearized and thinned by the real code and the tolerance is judged at every point.'),
 'C30': (EX, 'All generated File 2 sections over formalisms, l-values, resonances, radius options and sequences of ranges and isotopes are read by the real code and compared value by value.'),
 'C31': (ST, 'All generated File 2/32 pairs are read by the real code and compared with an independently built matrix; all subsets of subsets to the depth are explored and the samples of each compared with a reference drawn with the same (controlled) random numbers.'),
 'C32': (EX, 'All small windowed multipole sets are evaluated by the real code at all energies of a grid and compared with a direct evaluation of the formula (broadened fits with the broadening integral).'),
 'C33': (EX, 'All generated photo-atomic and relaxation evaluations and ACE tables are read and exported by the real code and compared value by value with the specification they were generated from.'),
 'C34': (ST, 'All options and all sequences of runs that succeed, fail or lack an output are executed on the real code with a stand-in for NJOY that interprets the deck card by card and delivers known tables; tapes, files and data objects are compared with the model.'),
 'C35': (EX, 'For every kind of data object every single difference at every place is made in one of two independently built objects, and the comparison by the real code is judged in both directions.'),
 'C36': (ST, 'Every bounded sequence of assignments, list operations and identifier operations is executed on the real objects and compared, step by step, with a model that keeps the last accepted value (a plain list; the set of identifiers in use).'),
 'C37': (EX, 'The density function is executed at every point of a grid over its whole range and compared with an independent evaluation of the formulation (saturation from the forward equation, not its inverse); every limit is approached from both sides.'),
 'C38': (ST, 'All generated resonance ranges are read and reconstructed by the real code (its Cython source compiled from the tree as the build script does) and compared with independently written formulas; every order of using a range and its copies, and every sequence of ranges of a nuclide, is executed.'),
 'C39': (EX, 'All small distributions are written by the real code and read back by an independent reader; all small trees with all placements of text are laid out by the real code and compared with the rule element by element.'),
 'C40': (EX, 'All plots over a bounded space of reactions, group structures, samples and options are made by the real code; the artists of each figure at the moment it is saved are read and compared with the stored and sampled values at points inside every group and cell.'),
})
