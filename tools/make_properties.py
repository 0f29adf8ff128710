#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one dict per property, written out as JSON lines)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Group values land on exactly the right continuous energies",
 "When group-wise values (groups numbered from the highest energy down) are spread onto a list of continuous energies, every energy receives the value of the group whose interval (lower bound, upper bound] contains it, the overall minimum energy itself counting as part of the lowest group, and every energy below the minimum or above the maximum receives the stated out-of-range value. An explicit larger maximum or smaller minimum energy extends only the top or the bottom group, and a maximum below the top bound or a minimum equal to the lowest upper bound is rejected. The inputs are not modified and the order or repetition of the energies makes no difference.",
 ["inputs", "configurations"], "all group structures up to a size bound, the shipped structures, all energies on, just beside and between every bound, all min/max/out-of-range options",
 "One unit test maps eight hand-picked energies onto one three-group structure and never asks for an energy on the lowest bound, an unsorted or repeated energy, or another out-of-range value.",
 ["ASAPy/XsecSampler.py"], [("map_groups_to_continuous", "ASAPy/XsecSampler.py:map_groups_to_continuous")],
 observe=["return value of map_groups_to_continuous"])

prop("C02", "A sampled ACE file is the base file times the group factors, nothing else",
 "For every sample, the written ACE file holds, for each sampled reaction that is not a sum of other sampled reactions (and total nu-bar, and the prompt fission spectrum up to its renormalisation), the base values multiplied point by point by that sample's group factors, so points outside the group range and points where the base value is zero keep their base value. Redundant sums present in the file follow the sampled reactions, and every other number of the file (header, control arrays, energy grid, other reactions, distributions) is the same as in the base file. One file is written per sample that all sampled reactions have, and a group-wise table is written per reaction that lists the group bounds, the base group data and exactly the factors that were used.",
 ["inputs", "configurations", "histories"], "all subsets of sampled reactions (cross sections, nu-bar, fission spectrum) of the generated libraries, all factor patterns from a small alphabet, all zero/threshold layouts, both ACE header styles",
 "The existing tests that touch ACE files need a library file that is not in the repository and cannot run; none runs the sampling writer.",
 ["ASAPy/XsecSampler.py", "ASAPy/AceIO.py", "ASAPy/data/neutron.py", "ASAPy/data/reaction.py"],
 [("write_sampled_data", "ASAPy/XsecSampler.py:write_sampled_data"), ("AceEditor", "ASAPy/AceIO.py:AceEditor"), ("WriteAce", "ASAPy/AceIO.py:WriteAce")],
 observe=["ACE files and csv files written to the working directory"])

prop("C03", "Redundant cross sections always follow the reactions they sum",
 "After any sequence of cross-section changes followed by applying the sum rules, every summed cross section present in the table (total, nonelastic, inelastic, (n,2n), fission, absorption, disappearance and the (n,p), (n,d), (n,t), (n,3He), (n,alpha) sums) that has a changed constituent equals its original value plus the total change of its constituents at each of its own energies, where a constituent sum that is not itself present is represented by its own constituents. Sums without a changed constituent, and all other reactions, keep their values, each constituent is counted exactly once, and applying the rules again changes nothing.",
 ["inputs", "histories"], "all subsets of reactions present up to a bound over every kind of constituent, all subsets and orders of changes, repeated application",
 "The sum-rule test needs the missing library file, changes one reaction once and looks at one sum.",
 ["ASAPy/AceIO.py"], [("apply_sum_rules", "ASAPy/AceIO.py:AceEditor.apply_sum_rules")],
 state=[("adjusted_mts", "reactions changed so far", "ASAPy/AceIO.py:AceEditor")], observe=["get_sigma for every reaction after apply_sum_rules"])

prop("C04", "An ACE editing session behaves like a table of independent values",
 "Through any sequence of reads and writes, reading a reaction, nu-bar or the fission spectrum returns what was last written to it (or the base value if never written), reading the unadjusted value always returns what is in the file, writing one quantity changes no other quantity and no energy grid, and the set of adjusted quantities is exactly those written. A write of the wrong length or to a quantity that is not in the file raises an error and changes nothing; reading at other energies interpolates linearly in the current values and gives zero outside the range. A temperature that is given is accepted exactly when it is in the file, with or without the trailing K.",
 ["histories", "inputs"], "all operation sequences up to a depth over get/set (valid, wrong length, absent) on cross sections, nu-bar and the fission spectrum",
 "The existing tests that touch the editor need a missing library file, and even then make one change and one read.",
 ["ASAPy/AceIO.py"], [("AceEditor.get_sigma/set_sigma/get_nu_distro/get_chi_distro/get_energy", "ASAPy/AceIO.py:AceEditor")],
 state=[("table/original_table", "current and base data", "ASAPy/AceIO.py:AceEditor.__init__")], observe=["return values of the getters after every step"])

prop("C05", "A perturbed fission spectrum stays a normalised distribution",
 "Whatever non-negative, not everywhere zero spectrum is set, for each incident energy the stored probability density is the requested one divided by its own integral, so it is proportional to the request, and the stored cumulative distribution starts at zero, never decreases, ends at one and at every outgoing energy equals the integral of the stored density under the interpolation law of the table. Setting the base spectrum back, or setting any spectrum twice or after another one, gives the same result as setting it once from the base file. A request of the wrong shape is rejected.",
 ["inputs", "histories"], "all density patterns from a small alphabet on tables of up to a few outgoing energies, both interpolation laws, all sequences of up to three settings",
 "The one existing test needs the missing library file and checks a single perturbation of one nuclide.",
 ["ASAPy/AceIO.py"], [("set_chi_distro", "ASAPy/AceIO.py:AceEditor.set_chi_distro")], observe=["get_chi_distro"])

prop("C06", "Each sampled group is a stratified draw from exactly its own distribution",
 "For every random outcome, the n values drawn for a group are one value in each of the n equal-probability strata of that group's requested distribution (normal, lognormal or uniform with the given mean and standard deviation), so lognormal values are positive and all values are finite. Groups that cannot be sampled (no standard deviation, no correlation data, or zero mean when lognormal) hold their mean in every sample and leave the other groups' draws intact. The result always has one row per sample and one column per group, in the caller's group order, and an unsupported distribution is rejected.",
 ["inputs", "schedules"], "all placements of non-samplable groups, all distributions, all sample counts up to a bound, all random orderings of a bounded number of samples",
 "The statistical tests draw a few thousand samples once and compare moments with loose tolerances; they cannot see a biased stratum, a swapped column or a group that should have been held fixed.",
 ["ASAPy/CovManipulation.py"], [("sample_with_corr", "ASAPy/CovManipulation.py:sample_with_corr"), ("lhs_uniform_sample, lhs_normal_sample", "ASAPy/CovManipulation.py")],
 observe=["return value of sample_with_corr and lhs_* functions"])

prop("C07", "Sampled groups are correlated the way the covariance says, group by group",
 "For every random outcome, the dependence between the sampled groups is the requested one: the scores that decide the joint ordering of the samples have exactly the requested correlation matrix (after the normal-to-lognormal transformation when lognormal) whenever there are more samples than groups, the draw is not degenerate and the matrix is positive definite. Perfectly correlated groups are ordered identically and perfectly anti-correlated ones oppositely (normal and uniform), uncorrelated blocks do not influence each other, and the dependence achieved for a pair of groups does not depend on the order in which the groups are listed, also when a fallback factorisation is involved. Groups left out of the sampling do not change which correlation the others get.",
 ["inputs", "schedules"], "all correlation matrices over a small alphabet up to a size bound (including singular and indefinite ones), all group relabellings, all random orderings within a bound",
 "The existing tests check three two- or three-variable positive definite cases statistically with one permutation of the variables.",
 ["ASAPy/CovManipulation.py"], [("sample_with_corr, col_independent_matrix, rank, order", "ASAPy/CovManipulation.py"), ("gmw_cholesky", "ASAPy/CovManipulation.py:gmw_cholesky")],
 observe=["return value of sample_with_corr"])

prop("C08", "Delivered samples: negatives handled exactly, relative values match full",
 "When negative samples are to be removed, a sample is delivered exactly when none of its group values is negative, in the original order, renumbered from zero without gaps, with no group row lost; when they are to be set to zero only the negative entries change, and otherwise nothing does. The relative samples times the group means equal the full samples wherever the mean is not zero, groups with zero mean get the relative factor one, and correlated, uncorrelated and uniform types each use their own distribution and correlation. Losing samples raises an error exactly when that was asked for, and an unknown sampling type is rejected.",
 ["inputs", "configurations"], "all sign patterns of sample matrices up to a bound, all option combinations, all sampling types, all placements of zero means",
 "No existing test checks the sampler front end; only the group mapping function of that module is tested.",
 ["ASAPy/XsecSampler.py"], [("XsecSampler.sample", "ASAPy/XsecSampler.py:XsecSampler.sample"), ("sample_xsec", "ASAPy/XsecSampler.py:sample_xsec")],
 observe=["return values of XsecSampler.sample and sample_xsec"])

prop("C09", "Loading covariance data conditions the correlation matrix without distorting it",
 "Data loaded for sampling has its correlation matrix scaled to a unit diagonal and its lower and upper energy bounds in the right roles whichever way round they were stored. A matrix that is safely positive definite is delivered unchanged; otherwise only its non-positive eigenvalues are raised to a tiny positive value, so the result is symmetric, positive definite and differs from the stored one by no more than the negative part removed. Groups without correlation data stay without it, the stored data is not modified, and the covariance computed from the loaded data is the product of correlation and standard deviations.",
 ["inputs", "configurations"], "all symmetric matrices over a small alphabet up to a size bound, all placements of groups without data, both bound conventions, scaled and unscaled diagonals",
 "No existing test covers the loading or the repair of correlation matrices.",
 ["ASAPy/XsecSampler.py"], [("XsecSampler.__init__, load_zaid_mt, calc_cov", "ASAPy/XsecSampler.py:XsecSampler")],
 observe=["std_dev_df, corr_df, calc_cov of a loaded sampler"])

prop("C10", "Covariance conversion and modified Cholesky factorisation are exact",
 "Converting standard deviations and a correlation matrix to a covariance and back returns the same correlation matrix and the squared standard deviations on the diagonal, for any signs, sizes and orders of magnitude. The modified Cholesky factorisation of any symmetric matrix returns a permutation, a lower triangular factor and non-negative shifts such that the reordered matrix plus the shifts equals the factor times its transpose; the shifts are negligible when the matrix is well inside the positive definite cone. The arguments are not modified.",
 ["inputs"], "all symmetric matrices over a small alphabet up to a size bound, all scalings from a wide alphabet",
 "Existing tests factor two matrices and convert one.",
 ["ASAPy/CovManipulation.py"], [("correlation_to_cov, cov_to_correlation", "ASAPy/CovManipulation.py"), ("gmw_cholesky", "ASAPy/CovManipulation.py:gmw_cholesky")],
 observe=["return values"])

prop("C11", "The covariance store keeps every entry under its own key",
 "Through any sequence of additions to a covariance store, each entry (material, reaction pair) reads back exactly the data last added under that key, with group labels running from one and the energy columns intact, and adding one entry never changes, hides or removes another. Data that is malformed (correlation not square or with mismatched labels, energy bounds not strictly decreasing) is rejected before anything is stored, leaving earlier content, including an earlier entry under the same key, as it was. Closing and reopening the store changes nothing.",
 ["histories", "inputs"], "all sequences of up to a bounded number of additions (valid, malformed, overwriting) over colliding keys, with reopening in between",
 "Two unit tests check the shape of one empty frame each.",
 ["ASAPy/AsapyCovStorage.py"], [("add_corr_to_store, add_stddev_to_store, create_*_df, check_*", "ASAPy/AsapyCovStorage.py")],
 observe=["HDF5 store content"])

prop("C12", "The BOXER converter reproduces exactly the arrays that were encoded",
 "For every valid BOXER-format tape, every requested group-bound vector, cross section, standard deviation vector or covariance matrix is written out and read back as exactly the encoded numbers (to the printed precision) in the documented order, whatever mix of repeat, copy-from-above and new-value runs, line breaks and symmetric or full storage encodes it. Several data sets on one tape, requested in the order in which they are on the tape, do not disturb each other. A request for data that is not on the tape is reported as an error instead of returning other data.",
 ["inputs", "histories"], "all BOXER encodings (run-length, carry-down, symmetric and full) of all matrices over a small alphabet up to a size bound, all orders of data sets and requests",
 "Existing tests read three finished converter outputs; the converter itself is never run.",
 ["boxer2mat/boxer2mat.f", "ASAPy/EndfToCov.py"], [("boxr", "boxer2mat/boxer2mat.f"), ("read_boxer_out_matrix", "ASAPy/EndfToCov.py:read_boxer_out_matrix")],
 observe=["fort.21 written by the converter, arrays returned by the reader"])

prop("C13", "Converted covariance output is stored faithfully and ready for sampling",
 "For every converter output, the stored entry has, per group, the adjacent energy bounds, the cross section, its absolute standard deviation as relative deviation times cross section, and a symmetric correlation matrix that is the covariance divided by the diagonal deviations, limited to [-1, 1]. Groups without cross section or without covariance get finite, neutral values, never NaN or infinity, and do not disturb the other groups. Output that reports a converter error stores nothing and leaves an existing store untouched, and storing one reaction never changes another already in the store.",
 ["inputs", "histories"], "all matrices over a small alphabet (including zero, negative-diagonal and over-correlated ones) up to a size bound, all zero-cross-section placements, all orders of storing several reactions including failed ones",
 "Existing tests read three converter outputs and never run the conversion into a store.",
 ["ASAPy/EndfToCov.py", "ASAPy/AsapyCovStorage.py"], [("process_cov_to_h5", "ASAPy/EndfToCov.py:process_cov_to_h5")],
 observe=["HDF5 store content"])

prop("C14", "Every generated NJOY deck is a sound chain of modules and tapes",
 "For every combination of processing options, temperatures and nuclide, every module of the generated deck reads only tapes that are inputs or were written by an earlier module of the right kind (pointwise data, group data, covariance data, plot data), no tape is written twice, and every announced output tape is written by the module that produces that kind of output for that temperature. The material number, the temperatures, the group bounds, the requested reactions and the flux weighting appear in every module that needs them, the shipped group structures are the published ones, and thermal decks name the table and nuclides of their material. Options that cannot be satisfied raise an error instead of producing a deck.",
 ["configurations", "inputs"], "all combinations of the module switches, nu-bar and spectrum options, zero to three temperatures, plotted reactions, flux weightings and group structures",
 "No existing test generates a deck.",
 ["ASAPy/njoy.py"], [("make_njoy_run, make_pendf", "ASAPy/njoy.py")],
 observe=["returned commands, input tapes and output tapes"])

prop("C15", "The covariance chain delivers each reaction's own result or fails loudly",
 "For every list of reactions, temperatures and nu-bar/spectrum options, the covariance chain runs the processing code once with the generated deck and then the converter for every covariance tape and reaction, and each delivered matrix file and output file is the one produced for that tape and reaction. If either program fails at any step the chain raises an error and later steps do not run, and in every case the caller's input files are left unchanged and temporary files do not outlive the call. Every configuration can use a scratch folder or the output folder with the same delivered files. The program built on the chain stores the covariances of every requested or available reaction on the named group structure, or reports what is missing.",
 ["configurations", "fault_sequences"], "all combinations of reaction lists, one or two temperatures, nu-bar, spectrum and folder options, with a failure injected at every program invocation",
 "No existing test runs the chain; NJOY is not available to the tests.",
 ["ASAPy/EndfToCov.py", "ASAPy/njoy.py"], [("run_cover_chain, run_program", "ASAPy/EndfToCov.py"), ("run", "ASAPy/njoy.py:run")],
 observe=["files in the output folder, recorded program invocations, exceptions"])

prop("C16", "ACE libraries read back every table and number, in text or binary",
 "Reading an ACE library returns, for each requested table and in file order, exactly the name, mass ratio, temperature, pointer arrays and data values in the file, for old and new style headers, any number and length of tables, numbers written without an exponent letter, and any selection of table names. Converting a text library to binary and reading it gives the same tables as reading the text. Asking for a single table that is not there is an error.",
 ["inputs", "configurations"], "all libraries of up to three tables over all residues of the data length modulo the line length, record-boundary lengths, both header styles, exponent-less numbers, all table selections, text and binary",
 "No existing test reads an ACE file that is present in the repository.",
 ["ASAPy/data/ace.py"], [("Library, get_table, ascii_to_binary, Table", "ASAPy/data/ace.py")],
 observe=["Table objects returned"])

prop("C17", "ENDF records and evaluations are read exactly as the format defines",
 "Every ENDF number field (any sign, exponent with or without letter) is read as the number it denotes, and every control, list, one- and two-dimensional table and compact correlation record (two to six digits) is read to exactly its own length with all values and interpolation regions in place, so that consecutive records follow each other. An evaluation exposes the text of each of its sections under its own file and reaction numbers, with the material and target data of its header, and a tape of several materials yields all of them in order. Both ENDF reader modules agree.",
 ["inputs", "histories"], "all number-field shapes over a small grammar, all record lengths across line boundaries, all sequences of up to three records, all tapes of up to three materials and several section layouts",
 "No existing test reads an ENDF file.",
 ["ASAPy/endf.py", "ASAPy/data/endf.py"], [("float_endf, get_*_record, Evaluation, get_evaluations", "ASAPy/data/endf.py, ASAPy/endf.py")],
 observe=["return values of record readers, Evaluation.section/target/info/reaction_list"])

prop("C18", "Tabulated functions interpolate and integrate by their declared laws",
 "A tabulated function returns its tabulated value at every tabulated point (either limit at a discontinuity), between points the value of the interpolation law (histogram, linear-linear, linear-log, log-linear, log-log; the logarithmic ones for positive values) of the region that contains the point, and zero outside its range but for rounding of the end points; array and scalar evaluation agree. Its running integral starts at zero and at every tabulated point equals the exact integral of that interpolant, in every region layout. Combinations of functions equal the pointwise combinations, sums of tabulated functions equal the pointwise sums at all tabulated points, and writing a function to ACE or HDF5 form and reading it back gives the same function.",
 ["inputs"], "all tables of up to four points over a small value alphabet, all splits into regions, all five laws per region, evaluation at and between all points",
 "No existing test evaluates a tabulated function directly.",
 ["ASAPy/data/function.py"], [("Tabulated1D, Polynomial, Combination, Sum, Regions1D", "ASAPy/data/function.py")],
 observe=["return values"])

prop("C19", "Data exported to HDF5 and imported again is the same data",
 "Incident-neutron data read from an ACE library, exported to HDF5 and imported again has the same nuclide identity, temperatures, energy grids, reactions, Q-values, reference frames, cross sections, products, yields and distributions as before, with several temperatures and several nuclides per file, and a second export and import changes nothing. Reactions that are exact sums may be left out of the file and are then rebuilt, so that every cross section still evaluates to the same values at every energy. A file that does not state its format version is rejected.",
 ["inputs", "configurations"], "all generated nuclides over subsets of reaction kinds, thresholds, fission with every nu-bar form, distribution kinds, probability tables and export modes",
 "No existing test exports or imports HDF5 nuclear data.",
 ["ASAPy/data/neutron.py", "ASAPy/data/reaction.py", "ASAPy/data/product.py", "ASAPy/data/energy_distribution.py"], [("export_to_hdf5/from_hdf5", "ASAPy/data/neutron.py:IncidentNeutron"), ("to_hdf5/from_hdf5", "ASAPy/data/*.py")],
 observe=["objects read back"])

prop("C20", "Parallel sampling runs write every sample exactly once, same as a serial run",
 "For any number of parallel processes and any interleaving of their work, the set of files written by the sampling program (sampled libraries and group-wise tables) and their contents are the same as those of a single-process run with the same random draws, each file being written once, by exactly one process, and no process waits for ever. All processes use the samples drawn by the first one, of the requested reactions that are in the library, or without a request of all stored reactions of that nuclide. The number of sampled libraries equals the number of samples delivered, also when there are more processes than samples or when negative samples were dropped, and asking for plots changes none of this.",
 ["schedules", "configurations"], "all process counts up to a bound, all completion orders, all sample counts up to a bound, all sampling options of the command line",
 "No existing test runs the sampling program, with or without MPI.",
 ["ASAPy/XsecSampler.py"], [("write_sampled_data, __main__", "ASAPy/XsecSampler.py")],
 observe=["files written per process"])

prop("C21", "Nuclide identities are resolved consistently under every naming scheme",
 "For every nuclide and metastable state, building the conventional name and parsing it back returns the same proton number, mass number and state, and reading a library identifier returns the nuclide it denotes under the chosen metastable convention, including the exceptional americium-242 identifiers. Atomic data looked up by name or element agrees with the data tables, and natural abundances of an element sum to one. Malformed names, unknown elements and unknown conventions are rejected.",
 ["inputs"], "all proton numbers, all physically meaningful mass numbers and metastable states, all identifier conventions",
 "No existing test covers nuclide naming.",
 ["ASAPy/data/data.py", "ASAPy/data/ace.py"], [("gnd_name, zam, atomic_mass, atomic_weight", "ASAPy/data/data.py"), ("get_metadata", "ASAPy/data/ace.py:get_metadata")],
 observe=["return values"])

prop("C22", "Rewriting an ACE file replaces one array and preserves everything else",
 "Reading an ACE file for rewriting and writing it out gives a file with the same header lines and the same sequence of numbers in the standard four-per-line layout, whatever the number of values and header style. Replacing an array changes exactly the values of its first occurrence (or of as many occurrences as asked) to the new values at full printed precision, and any sequence of replacements composes. Replacing an array that does not occur, or by one of another length, raises an error and changes nothing.",
 ["inputs", "histories"], "all data lengths over the line-length residues, both header styles, all contents over a small colliding alphabet, all sequences of replacements up to a depth",
 "The existing writer tests need a library file that is not in the repository.",
 ["ASAPy/AceIO.py"], [("WriteAce", "ASAPy/AceIO.py:WriteAce")],
 observe=["file written by write_ace"])

prop("C23", "Neutron data built from an ACE table is what the table says",
 "The incident-neutron data built from any ACE table has the identity, mass ratio, temperature and energy grid of the table, and for every reaction of the table its number, Q-value, reference frame, threshold and cross section (negative values read as zero), the multiplicity, and the angular and energy distributions with their applicability exactly as tabulated, for every supported distribution law and chain of laws. Prompt, total and delayed nu-bar with their spectra and decay constants (delayed groups of constant probabilities sharing the whole delayed yield), photon production, probability tables and the reactions that are sums of others are present exactly when the table has them or their parts, with the tabulated values. Adding the data of another temperature of the same nuclide adds its energy grid, cross sections and probability tables under that temperature and changes nothing of the earlier ones; data of another nuclide is refused, and a temperature that is already present changes nothing. The table itself is left as it is, by reading and by changes of the data.",
 ["inputs", "configurations", "histories"], "all generated tables over subsets of reaction kinds, thresholds, distribution laws and their chains, angular forms, nu-bar forms, delayed groups, photon forms and probability tables, and all orders of adding temperatures",
 "The existing tests that read ACE data need a library file that is not in the repository.",
 ["ASAPy/data/neutron.py", "ASAPy/data/reaction.py", "ASAPy/data/angle_distribution.py", "ASAPy/data/energy_distribution.py", "ASAPy/data/angle_energy.py", "ASAPy/data/correlated.py", "ASAPy/data/kalbach_mann.py", "ASAPy/data/nbody.py", "ASAPy/data/laboratory.py", "ASAPy/data/urr.py"],
 [("from_ace, add_temperature_from_ace", "ASAPy/data/neutron.py:IncidentNeutron"), ("from_ace", "ASAPy/data/reaction.py:Reaction, _get_products, _get_photon_products_ace"), ("from_ace of the distributions", "ASAPy/data/*.py")],
 observe=["attributes of the IncidentNeutron object"])

prop("C24", "Decay data and fission yields are what the evaluation says",
 "Decay data read from any ENDF decay evaluation has the nuclide, stability, half-life, decay constant (ln 2 over the half-life, with its propagated uncertainty), average energies, spin and parity of the evaluation, every decay mode with its particles in order, decay energy, branching ratio and the daughter nuclide that follows from them, and every radiation spectrum with its normalisations, discrete lines and continuous part, each value with its uncertainty. Fission product yields read from any yield evaluation give, for each tabulated energy, every product by its conventional name with its independent and cumulative yield and uncertainty. One spectrum, mode or energy never disturbs the next.",
 ["inputs"], "all sequences of decay modes up to a length, all ordered selections of modes and radiation types, discrete, continuous and mixed spectra over numbers of lines and kinds of data, all small yield tables",
 "No existing test reads a decay or yield evaluation.",
 ["ASAPy/data/decay.py", "ASAPy/data/endf.py"], [("Decay", "ASAPy/data/decay.py:Decay"), ("DecayMode.daughter", "ASAPy/data/decay.py:DecayMode"), ("FissionProductYields", "ASAPy/data/decay.py:FissionProductYields")],
 observe=["attributes of the Decay and FissionProductYields objects"])

prop("C25", "Neutron data built from an ENDF evaluation is what the evaluation says",
 "The incident-neutron data built from any ENDF evaluation has its nuclide and mass ratio and exactly the reactions of File 3, each with its tabulated cross section, interpolation regions and Q-value, and their products as evaluated: the neutron multiplicity of the reaction and the angular distributions of File 4 (isotropic, Legendre, tabulated or mixed), the energy laws of File 5 with their probabilities, the analytic level energies of discrete inelastic scattering, the products of File 6 in order with their yields and distributions for every supported law, activation products of Files 9 and 10 with their yields (production over reaction cross section), and photons of Files 12 and 13 with their yields and energies. Fission has the prompt, total and delayed neutrons with their nu-bar in either form, decay constants, spectra and group yields, and partial fission without spectra of its own takes those of total fission. A form that is not supported is refused with an error, not read as another.",
 ["inputs", "configurations"], "all generated evaluations over interpolation regions, angular forms, sequences of energy laws, sequences of product laws, forms of nu-bar and delayed groups, presence patterns of partial fission, activation and photon data",
 "No existing test builds neutron data from an evaluation.",
 ["ASAPy/data/neutron.py", "ASAPy/data/reaction.py", "ASAPy/data/angle_distribution.py", "ASAPy/data/energy_distribution.py", "ASAPy/data/correlated.py", "ASAPy/data/kalbach_mann.py", "ASAPy/data/nbody.py", "ASAPy/data/laboratory.py"],
 [("IncidentNeutron.from_endf", "ASAPy/data/neutron.py:IncidentNeutron.from_endf"), ("Reaction.from_endf, _get_products, _get_fission_products_endf, _get_activation_products, _get_photon_products_endf", "ASAPy/data/reaction.py"), ("from_endf of the distributions", "ASAPy/data/*.py")],
 observe=["attributes of the IncidentNeutron object"])

prop("C26", "Thermal scattering data is what the ACE table says, also after storage",
 "Thermal scattering data built from any thermal ACE table has the material name (the one given, or the standard name for the ACE name), mass ratio, nuclides and temperature of the table; its inelastic cross section and secondary energies and angles (discrete with equal or skewed weights, or continuous, with their cosines) are those tabulated for every incident and outgoing energy; coherent elastic scattering is zero below the first Bragg edge and the accumulated structure factor of the edges below the energy divided by the energy above it, and incoherent elastic scattering has the tabulated cross section and cosines. Adding tables of other temperatures adds exactly their data, a table of another material is refused, a temperature already present changes nothing, and data stored to HDF5 and read back is the same. Changing the data in place changes neither the table nor other data built from it.",
 ["inputs", "histories"], "all table shapes over secondary modes, numbers of incident and outgoing energies and cosines, elastic forms and block offsets; all known material names; all sequences of adding temperatures, repeats, other materials and storage up to a depth",
 "The existing tests never build thermal scattering data.",
 ["ASAPy/data/thermal.py"], [("ThermalScattering.from_ace, add_temperature_from_ace, export_to_hdf5, from_hdf5", "ASAPy/data/thermal.py:ThermalScattering"), ("CoherentElastic", "ASAPy/data/thermal.py:CoherentElastic"), ("get_thermal_name", "ASAPy/data/thermal.py:get_thermal_name")],
 observe=["attributes of the ThermalScattering object", "coherent elastic cross section values"])

prop("C27", "The data library index finds every registered file again",
 "A data library index has one entry for every registration of a data file, in order, with its kind of data (neutron, thermal, photon, windowed multipole) and the materials the file contains. Written to XML anywhere and read back from any working directory, it lists the same entries and their paths lead to the same files. A look-up by material returns an entry that has that material, and nothing exactly when no registered file has it.",
 ["inputs", "histories"], "all sequences of registered files and path spellings up to a depth, all places of the index, several working directories, all histories of registering, exporting and reading",
 "No existing test uses the index.",
 ["ASAPy/data/library.py"], [("DataLibrary.register_file, export_to_xml, from_xml, get_by_material", "ASAPy/data/library.py:DataLibrary")],
 observe=["entries of the index before and after export", "cross_sections.xml"])

prop("C28", "The fission energy release is what the evaluation says",
 "The fission energy release read from any ENDF evaluation gives, at every incident energy, each component (fragments, prompt and delayed neutrons, prompt and delayed photons, betas, neutrinos) as evaluated, in eV: polynomial components by their coefficients, the Sher-Beck form by its thermal values and the nu-bar of the evaluation, tabulated components by their tables. The recoverable energy is the sum of all components but the neutrinos, the total adds them, and the prompt and q-values follow from them. Storing to HDF5 and reading back changes no value. Evaluations without such data, and incident-neutron data of another nuclide or without nu-bar, are refused where they are needed.",
 ["inputs"], "all orders 0-3 with coefficient patterns, nu-bar forms, sets and orders of tabulated components; which nu-bar is used",
 "The existing tests never read a fission energy release.",
 ["ASAPy/data/fission_energy.py"], [("FissionEnergyRelease.from_endf, from_hdf5, to_hdf5", "ASAPy/data/fission_energy.py:FissionEnergyRelease")],
 observe=["values of the components and sums at all energies of a grid"])

prop("C29", "Linearizing and thinning stay within their tolerance",
 "Linearizing a function returns increasing points that include the given ones, with the value of the function at each, such that linear interpolation between neighbouring points agrees with the function at their midpoint within the relative tolerance. Thinning a tabulated function keeps its ends and only points of it, in order, and linear interpolation of what is kept reproduces every removed point within the relative tolerance; a straight line keeps its ends only.",
 ["inputs"], "all ordinate sequences over a small alphabet up to a length on several grids and tolerances; all functions of a set with all break points and tolerances",
 "A test can only sample functions and tolerances.",
 ["ASAPy/data/grid.py"], [("linearize", "ASAPy/data/grid.py:linearize"), ("thin", "ASAPy/data/grid.py:thin")],
 observe=["returned points"])

prop("C30", "Resonance parameters are what the evaluation says",
 "The resonance parameters read from File 2 of any ENDF evaluation give every energy range of every isotope in order, with its limits, target spin, scattering radius (constant or tabulated, per l-value where given, with its channel radius), formalism and flags, and for every resonance its energy, l, J and all widths; unresolved ranges give the average level spacing and widths of every spin sequence, at each of their energies where they depend on energy; R-matrix-limited ranges give particle pairs, spin groups, channels and widths as evaluated. One range, isotope or spin sequence never disturbs the next.",
 ["inputs"], "all formalisms over l-values, numbers of resonances, radius options and flags; all sequences of up to three ranges and of two isotopes",
 "No existing test reads a File 2.",
 ["ASAPy/data/resonance.py", "ASAPy/data/neutron.py"], [("Resonances.from_endf", "ASAPy/data/resonance.py:Resonances"), ("from_endf of the formalisms", "ASAPy/data/resonance.py:MultiLevelBreitWigner, SingleLevelBreitWigner, ReichMoore, RMatrixLimited, Unresolved")],
 observe=["attributes and parameter tables of the ranges"])

prop("C31", "Resonance covariances, subsets and samples belong to the right parameters",
 "The resonance parameter covariances read from File 32 of any evaluation (compatible, general and compact forms) give for each range the symmetric covariance matrix of exactly the evaluated parameters, each entry at the place of its resonance and parameter, with the scaling of the compact form undone; ranges are paired with the parameters of their own isotope and range. A subset by bounds on any parameter keeps exactly the resonances inside the bounds and the block of the matrix that belongs to them. Samples are drawn around the parameters of the file with that covariance, keep the parameters without covariance and the other columns, and leave the original unchanged; with a vanishing covariance they are the parameters themselves.",
 ["inputs", "histories"], "all formalisms, covariance forms, parameter counts, l-values, orders of the resonances and short-range blocks; all sequences of ranges; all subsets of subsets to a depth with samples of each",
 "No existing test reads a File 32.",
 ["ASAPy/data/resonance_covariance.py"], [("ResonanceCovariances.from_endf", "ASAPy/data/resonance_covariance.py:ResonanceCovariances"), ("subset, sample", "ASAPy/data/resonance_covariance.py:ResonanceCovarianceRange")],
 observe=["parameters, covariance matrices, subsets and samples"])

prop("C32", "Windowed multipole cross sections are the evaluated formula of the right window",
 "The scattering, absorption and fission cross sections evaluated from windowed multipole data at any temperature and energy are the sum of the poles of the window that contains the energy (Doppler broadened above 0 K) and its curve fit (broadened where the window says so); an energy outside the range gives zero, non-fissionable nuclides have no fission, arrays of energies give what single energies give in the same order, and stored data read back gives the same. Inconsistent or unsupported files and values are refused.",
 ["inputs"], "all window layouts, pole and fit counts, fission and broadening flags over small sizes; energies in, on and between windows and outside; three temperatures",
 "No existing test evaluates windowed multipole data.",
 ["ASAPy/data/multipole.py"], [("WindowedMultipole.__call__, _evaluate, from_hdf5, export_to_hdf5", "ASAPy/data/multipole.py:WindowedMultipole")],
 observe=["cross section values", "stored data"])

prop("C33", "Photon and atomic relaxation data are what the source says, also exported",
 "Photon data read from any photo-atomic ENDF evaluation or ACE table has exactly its reactions with their cross sections (with threshold and subshell edges), form factors, scattering functions and anomalous factors; relaxation data has exactly the evaluated subshells with their binding energies, electron numbers and every transition with its shells, energy and probability. Compton profiles, stopping powers and bremsstrahlung are those of the element. Exported to HDF5, every reaction has on the common energy grid the values of its cross section from its threshold on, and all other data as held; exporting a second element beside it changes neither. Changing one object in place changes neither the ACE table nor what later objects hold.",
 ["inputs"], "all elements of a set with subsets of reactions, interpolation laws and edges, form factors, anomalous factors, subshells, transitions; all ACE grid sizes, thresholds, form factor forms and paddings",
 "No existing test reads photon data.",
 ["ASAPy/data/photon.py"], [("IncidentPhoton.from_endf, from_ace, export_to_hdf5", "ASAPy/data/photon.py:IncidentPhoton"), ("AtomicRelaxation.from_endf, from_ace", "ASAPy/data/photon.py:AtomicRelaxation"), ("PhotonReaction", "ASAPy/data/photon.py:PhotonReaction")],
 observe=["attributes of the objects", "exported HDF5 file"])

prop("C34", "Data processed by NJOY from Python is the result of this run, table by table",
 "Processing an evaluation by NJOY from Python runs one chain with the modules asked for, in which every module reads the tape that its predecessor wrote and all temperatures asked for (when none are given, 293.6 K, or for thermal scattering all those of its evaluation) are processed; the ACE file delivered has the table of every temperature once, in order, and the xsdir file a line for each with its name; the PENDF file is delivered when asked for. The incident-neutron or thermal data built from it has the data of every temperature from this run. A run in which NJOY fails is reported, and never delivers tables or data of an earlier run as its result.",
 ["inputs", "configurations", "fault_sequences", "histories"], "all module options, nuclides and temperature lists; all sequences of runs in one directory that succeed, fail or lack an output; materials, elastic kinds and temperatures of thermal data",
 "The existing tests need NJOY and library files that are not in the repository.",
 ["ASAPy/data/njoy.py", "ASAPy/njoy.py", "ASAPy/data/neutron.py", "ASAPy/data/thermal.py"], [("make_ace, make_ace_thermal, make_pendf, run", "ASAPy/data/njoy.py"), ("run", "ASAPy/njoy.py:run"), ("from_njoy", "ASAPy/data/neutron.py:IncidentNeutron.from_njoy, ASAPy/data/thermal.py:ThermalScattering.from_njoy")],
 observe=["deck read by the stand-in", "ace, xsdir and pendf files", "data objects"])

prop("C35", "Two data objects are equal exactly when their contents are",
 "Two data objects (functions, distributions, reactions, neutron, thermal and photon data, ACE tables and libraries, multipole and fission energy data) built from the same input compare equal in both directions, whatever arrays, lists and mappings they hold. Any single difference in any value, length, key or order anywhere inside one of them makes them unequal in both directions, != is always the opposite of ==, and objects of different kinds are never equal.",
 ["inputs"], "every kind of data object with every single difference at every place inside it (every array position up to 40 values)",
 "A test compares a few pairs; a difference can be in any of thousands of places.",
 ["ASAPy/data/mixin.py"], [("EqualityMixin.__eq__, __ne__", "ASAPy/data/mixin.py:EqualityMixin")],
 observe=["results of == and !="])

prop("C36", "A data object only ever holds values its documentation allows",
 "Assigning to a documented attribute of a data object a value of the wrong type or outside its documented range (for example a wrong element at any position of a sequence or mapping, a negative probability, an unknown subshell, an array of another shape) raises and leaves the object as it was; an accepted value reads back as given and changes no other attribute. The constructors that take these attributes refuse the same values (tabulated functions convert theirs). A checked list, such as the ranges of resonances, never holds an element of another type, whichever operation adds it, loses or reorders none, and otherwise behaves like a list, also when added from either side, copied or pickled. An automatic identifier is the next one that is neither in use nor reserved; an explicit one is kept, with a warning if it is in use, and refused if it is negative or no integer. The file type check accepts exactly files of the expected type and major version.",
 ["inputs", "histories"], "every sequence of two (three) assignments of accepted and refused values to each of some 110 attributes of 38 classes; every sequence of three (four) of 37 list operations and of four (five) of 16 identifier operations",
 "A test assigns a few values; a refused assignment must leave no trace in any sequence.",
 ["ASAPy/data/checkvalue.py", "ASAPy/data/mixin.py", "ASAPy/data/univariate.py", "ASAPy/data/function.py", "ASAPy/data/neutron.py", "ASAPy/data/multipole.py", "ASAPy/data/photon.py"], [("check_type, check_iterable_type, check_length, check_value, check_less_than, check_greater_than, CheckedList", "ASAPy/data/checkvalue.py"), ("IDManagerMixin, reserve_ids, set_auto_id, reset_auto_ids", "ASAPy/data/mixin.py"), ("property setters", "ASAPy/data/*.py")],
 observe=["exceptions", "attributes read back", "contents of lists", "identifiers and warnings"])

prop("C37", "Water density follows IAPWS-IF97 over its range and warns outside",
 "For every temperature and pressure in region 1 of the industrial formulation (from 273.15 K to the lower of 623.15 K and the boiling point, up to 100 MPa) the water density equals that of the formulation, and no warning is given. Above 100 MPa, below 0 MPa, below 273 K, above 623.15 K and more than 0.2 K above the boiling point a warning is given.",
 ["inputs"], "pressures over the whole range times temperatures in steps of one kelvin (a tenth of one), and every limit from both sides",
 "No existing test computes a density; a wrong coefficient shows only in part of the range.",
 ["ASAPy/data/data.py"], [("water_density", "ASAPy/data/data.py:water_density")],
 observe=["return values", "warnings"])

prop("C38", "Resonance parameters give the cross sections of their formalism",
 "The elastic, capture and fission cross sections reconstructed from resolved resonances are those of the single-level, multi-level Breit-Wigner and Reich-Moore formulas of ENDF-102 for the radii, spins, widths (including competitive widths) and energies of that range, the same for a single energy and an array. A copy of a range with other parameters and the original never influence each other, in whatever order they are used; the subsets and samples of a range with covariances give the cross sections of their own parameters, whatever was reconstructed before. In a nuclide read from an evaluation the elastic, capture and fission cross section is the tabulated background plus exactly one resolved range where there is one, and the background alone elsewhere; other reactions are untouched. Elastic scattering at 0 K added from an evaluation agrees with that cross section on a rising grid over the resolved range (or the whole table when there is none), changes nothing else, and existing data is only replaced on request.",
 ["inputs", "histories", "configurations"], "formalism x spin x orbital momenta x radii x fission x bound levels x competitive widths; all orders of using copies; all sequences of taking subsets and samples; all sequences of up to three ranges",
 "No existing test reads a resonance; the formulas depend on every quantum number and on the order of preparation.",
 ["ASAPy/data/resonance.py", "ASAPy/data/reconstruct.pyx", "ASAPy/data/resonance_covariance.py", "ASAPy/data/function.py", "ASAPy/data/neutron.py"],
 [("reconstruct, _prepare_resonances, __copy__", "ASAPy/data/resonance.py"), ("reconstruct_slbw, reconstruct_mlbw, reconstruct_rm", "ASAPy/data/reconstruct.pyx"), ("ResonancesWithBackground", "ASAPy/data/function.py:ResonancesWithBackground"), ("IncidentNeutron.add_elastic_0K_from_endf", "ASAPy/data/neutron.py")],
 observe=["cross section values", "energy grids", "exceptions"])

prop("C39", "Distributions and documents written as XML say what the object holds",
 "The XML element of any discrete, uniform, Maxwell, Watt or tabulated distribution bears the given name and says exactly its type, all of its parameters in order (every number reads back as the same float) and, if tabulated, its interpolation law; writing changes nothing, and distributions without an XML form refuse. A uniform distribution tabulates as the histogram with the same ends that integrates to one. The length of a distribution is its number of parameters (abscissae, coefficients, or the sum over a mixture), a Legendre expansion reads back its coefficients and evaluates the expansion. Laying out a document for printing only replaces blank text: each element comes onto its own line, indented by its depth, no element, attribute or other text changes, and doing it twice changes nothing more. The text of a named item is its attribute, else its first direct subelement, else the default.",
 ["inputs"], "all value sequences to a length in all forms as all distributions; all trees to a size with all placements of text; all combinations of attributes, subelements and defaults",
 "No existing test writes a distribution; layout depends on the shape of the tree and where text stands.",
 ["ASAPy/data/univariate.py", "ASAPy/data/_xml.py"], [("to_xml_element, Uniform.to_tabular, Legendre", "ASAPy/data/univariate.py"), ("clean_indentation, get_text", "ASAPy/data/_xml.py")],
 observe=["elements and their texts", "numbers read back"])

prop("C40", "The plots of a sampling run show the stored deviations, library and samples",
 "For every reaction of a library (also nu-bar, the fission spectrum, threshold reactions and ones that are zero everywhere), every group structure (also one group, down to zero energy, or stored with its bounds exchanged) and every number of samples, plotting succeeds and the saved figures show: the library's cross section on its own energies; in every group the stored relative deviation in percent, the stored variance and the variance of the samples; the first ten samples as the library times the factor of the group of each energy, and nothing else; the stored correlation and the correlation of the samples (or the absolute difference) of every pair of groups at the energies of those groups, zero where nothing was sampled, on one common colour scale that spans -1 to 1 or, if so chosen, the least to the greatest value shown. Plotting changes neither samples nor files. The program with --make_plots writes these four figures once per reaction besides the sampled libraries and tables, with any number of processes; with --plot-only it writes nothing but the figures.",
 ["inputs", "configurations"], "all reactions x group structures x groups without data x numbers of samples x options of the plots; program runs over flags, reactions, distributions and processes",
 "No existing test makes a plot; which value stands where depends on the group structure, on groups without data and on the number of samples.",
 ["ASAPy/XsecSampler.py"], [("plot_xsec, plot_sampled_info, get_mt_from_ace, main program", "ASAPy/XsecSampler.py")],
 observe=["lines and meshes of the saved figures", "files written"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
