NT = 'No unit test exercises this module at all; '
prop('C01', 'Flow chart maps every reachable state to one known step, overrides are local',
 'For every combination of recognised stellar states, binary state and event, the default evolution flow chart either names exactly one step among those the simulation defines, or has no entry. Requested changes to the flow chart take effect exactly for the combinations they name, are rejected for combinations or step names that do not exist, and never alter any other entry or the default chart handed out later. The detached-with-eccentricity variant differs from the default only where zero-age binaries enter.',
 ['inputs', 'configurations'], 'every (star state, star state, binary state, event) combination and every requested change set',
 NT + 'the chart has tens of thousands of entries produced by nested loops, and a wrong one is only hit by a rare evolutionary path.',
 [B + 'flow_chart.py'], [('flow_chart', B + 'flow_chart.py'), ('initial_eccentricity_flow_chart', B + 'flow_chart.py')])
prop('C02', 'Binary evolution loop stops exactly when it must and records every step',
 'Evolving a binary performs its steps in the order the flow chart dictates, appends exactly one history row per executed step, and stops as soon as the event becomes END or FAILED, a step cannot be determined, or the configured maximum number of steps or the maximum time is reached. Hooks run before and after every step in the configured order, and a failing step marks the binary FAILED and propagates, with any pending timer cancelled.',
 ['histories', 'configurations', 'fault_sequences'], 'every sequence of step outcomes (states, events, exceptions), every step limit',
 NT + 'tests cannot enumerate the sequences of step results and failures the loop must survive.',
 [B + 'binarystar.py', B + 'simulationproperties.py'], [('BinaryStar.evolve/run_step/get_next_step_name', B + 'binarystar.py'), ('hook dispatch', B + 'simulationproperties.py')])
prop('C03', 'History arrays stay aligned and restoring a row recovers that row',
 'After any sequence of appended steps all history arrays of a binary and of its two stars have the same length, and each row equals the values current when it was appended. Restoring to row i makes every current value equal to row i, keeps exactly rows 0..i of every history in order, and touches nothing else.',
 ['histories', 'inputs'], 'every history length and every row index, every property value',
 NT + 'the property is about all lengths and indices.',
 [B + 'binarystar.py', B + 'singlestar.py'], [('append_state', B + 'binarystar.py'), ('restore', B + 'binarystar.py'), ('append_state/restore', B + 'singlestar.py')])
prop('C04', 'Orbital mechanics utilities obey their physical laws',
 'Orbital separation and period conversions satisfy Kepler\'s third law and are inverse to each other to 0.1 percent; the Roche-lobe radius is Eggleton\'s formula and not-a-number for non-positive masses or negative separation; the Roche-lobe-overflow test is exactly the comparison of each radius with its own Roche lobe. Period and separation changes under isotropic wind loss and stable mass transfer, gravitational-wave inspiral times (circular and eccentric), compact-object radii and black-hole spin-up follow their published closed forms for every admissible input, and inadmissible inputs are rejected.',
 ['inputs'], 'every admissible mass, radius, separation, period, eccentricity, efficiency',
 'Unit tests check a handful of sample values; the laws must hold at every input, including boundaries between formula branches.',
 [U + 'common_functions.py'], [('closed-form orbital utilities', U + 'common_functions.py')])
prop('C05', 'Star-state inference is total and follows the abundance thresholds',
 'Every star, whatever its (finite or missing) surface and central abundances and luminosities, is assigned exactly one evolutionary state; the richness prefix depends only on surface hydrogen and the accreted-He flag, the burning suffix only on central abundances and luminosities, with the documented thresholds and precedence, and compact objects are classified only by their mass. A star with missing information is classified as undetermined and never raises.',
 ['inputs'], 'every abundance/luminosity/mass tuple, including missing values and exact thresholds',
 'Unit tests sample a few tuples; threshold boundaries and missing values span a continuum.',
 [U + 'common_functions.py', U + 'limits_thresholds.py'], [('infer_star_state', U + 'common_functions.py'), ('check_state_of_star', U + 'common_functions.py')])
prop('C06', 'Mass-transfer classification, binary state and flags are consistent',
 'The mass-transfer case of a binary is determined only by Roche-lobe overflow, transfer rate and donor state: no case without overflow or rate above threshold, otherwise the case of the donor\'s evolutionary phase; binary state (detached, RLO1/RLO2, contact, disrupted, merged), event and case are assigned accordingly and consistently for both stars. Cumulative mass-transfer histories are rendered as the sequence of distinct successive cases, and exchanging the two stars exchanges every per-star label and event.',
 ['inputs', 'histories'], 'every overflow/rate/state value, every finite sequence of cases',
 'Unit tests check sampled values; sequences and the continuum of rates and overflows are unbounded.',
 [U + 'common_functions.py'], [('infer_mass_transfer_case', U + 'common_functions.py'), ('get_binary_state_and_event_and_mt_case', U + 'common_functions.py'), ('cumulative_mass_transfer_*', U + 'common_functions.py'), ('flip_stars', U + 'common_functions.py')])
prop('C07', 'Supernova remnant mass and type follow the chosen prescription',
 'For every pre-collapse core and every supported prescription the remnant is a white dwarf, neutron star, black hole or nothing as the prescription and the maximum neutron-star mass dictate; its mass never exceeds the available pre-collapse mass, the fallback fraction lies between zero and one, and each published piecewise formula applies exactly on its own core-mass interval with no gaps. Pair-instability removes mass or destroys the star exactly in the prescribed helium-core mass ranges.',
 ['inputs', 'configurations'], 'every core mass, star mass, engine, pair-instability option and threshold setting',
 NT + 'branch boundaries of piecewise prescriptions are continua.',
 [B + 'SN/step_SN.py'], [('compute_m_rembar', B + 'SN/step_SN.py'), ('PISN_prescription', B + 'SN/step_SN.py'), ('check_SN_type', B + 'SN/step_SN.py')])
prop('C08', 'Supernova kicks change the orbit as momentum and energy conservation demand',
 'After a supernova the new separation, eccentricity and systemic velocity are those implied by instantaneous mass loss and the natal kick through conservation of energy, angular momentum and linear momentum; the binary is disrupted exactly when the new orbit is unbound or the conservation test fails, and then its orbital elements are undefined. Kicks supplied by the user are used unchanged, and the outcome is the same whichever of the two stars explodes, with labels exchanged.',
 ['inputs'], 'every orbit, eccentricity, anomaly, mass loss and kick vector, either exploding star',
 NT + 'conservation must hold for every kick direction and orbit.',
 [B + 'SN/step_SN.py'], [('StepSN.orbital_kick', B + 'SN/step_SN.py'), ('generate_kick', B + 'SN/step_SN.py')])
prop('C09', 'Common-envelope outcome obeys the alpha-lambda energy balance',
 'The post common-envelope separation satisfies the energy balance between envelope binding energy and the efficiency-weighted released orbital energy for one or two ejected envelopes; the binary merges exactly when a stripped core would overfill its Roche lobe in that orbit, and otherwise survives with circular orbit, core masses and radii and Keplerian period. Ejected mass in an incomplete ejection never exceeds the envelopes.',
 ['inputs', 'configurations'], 'every donor/companion mass, core, radius, lambda, alpha and option',
 NT + 'the balance must hold for every input and option combination.',
 [B + 'CE/step_CEE.py', U + 'common_functions.py'], [('StepCEE', B + 'CE/step_CEE.py'), ('lambda and binding-energy helpers', U + 'common_functions.py')])
prop('C10', 'Mergers conserve mass and mix abundances by mass',
 'When two stars merge, the product carries the summed total and core masses dictated by the two evolutionary types, mixed abundances are the mass-weighted means of the contributing layers, and the companion slot becomes a massless remnant; the outcome is symmetric under exchange of the two stars.',
 ['inputs'], 'every pair of stellar types and every mass/abundance value',
 NT + 'there are hundreds of type pairs and a continuum of masses.',
 [B + 'DT/step_merged.py'], [('MergedStep.merged_star_properties', B + 'DT/step_merged.py')])
prop('C11', 'Detached evolution sums exactly the enabled physical effects, symmetrically',
 'The time derivatives of separation, eccentricity and both spins during detached evolution are the sum of the enabled effects (tides, winds, gravitational radiation, magnetic braking, inertia change) and nothing else; each effect follows its published formula with non-finite tidal contributions replaced by zero, and treats the two stars identically under exchange. Roche-lobe-overflow events fire exactly at the zero of the relative overflow of the corresponding star.',
 ['inputs', 'configurations'], 'every orbital/stellar state and every on/off combination of effects',
 NT + 'continuum of states times 2^5 switches.',
 [B + 'DT/step_detached.py', B + 'DT/tides/default_tides.py', B + 'DT/winds/default_winds.py', B + 'DT/gravitational_radiation/default_gravrad.py', B + 'DT/magnetic_braking/prescriptions.py'], [('detached_evolution', B + 'DT/step_detached.py'), ('effects', B + 'DT/*')])
prop('C12', 'Initial mass functions and initial distributions are proper probability laws',
 'Every initial-mass-function and every orbital-parameter distribution density is non-negative, zero outside its bounds, proportional to its published law inside and continuous where the law is continuous, normalised over its interval; bounds and parameters outside the admissible range are rejected. Every sample drawn lies inside the configured bounds.',
 ['inputs', 'configurations'], 'every parameter setting, evaluation point and random draw',
 'Unit tests evaluate densities at few points and draw few samples.',
 [P + 'IMFs.py', P + 'distributions.py', P + 'independent_sample.py'], [('IMF/pdf classes', P + 'IMFs.py'), ('distribution classes', P + 'distributions.py'), ('samplers', P + 'independent_sample.py')])
prop('C13', 'Star-formation history and cosmological weights partition the star-forming mass',
 'Star-formation and metallicity fractions are non-negative; the fraction assigned to each metallicity bin equals the cumulative distribution difference over that bin with the first and last bins absorbing everything below and above, so that fractions sum to the total mass between the configured limits. Redshift-time conversions are monotone inverses and volumetric rates are the linear weighting of events by formed mass.',
 ['inputs', 'configurations'], 'every redshift, metallicity grid of any length, and limits',
 'Unit tests use a few fixed grids.',
 [P + 'star_formation_history.py', P + 'rate_calculation.py', P + 'norm_pop.py'], [('SFH models', P + 'star_formation_history.py'), ('cosmology helpers', P + 'rate_calculation.py'), ('norm', P + 'norm_pop.py')])
prop('C14', 'Grid scrubbing, thinning and flagging preserve the physical record',
 'Scrubbed histories keep rows in order with strictly increasing ages and models, cutting only the superseded rows, and jointly scrubbed tables cover exactly the common models; thinned tracks always keep first and last points and reproduce every dropped point to the configured accuracy. Interpolation classes and mass-transfer flags are determined by termination flags as tabulated.',
 ['inputs', 'histories'], 'every history table and every flag text',
 'Unit tests use a few tables; the property quantifies over all tables.',
 [G + 'scrubbing.py', G + 'downsampling.py', G + 'termination_flags.py'], [('scrub', G + 'scrubbing.py'), ('TrackDownsampler', G + 'downsampling.py'), ('flags', G + 'termination_flags.py')])
prop('C15', 'Interpolation scaling round-trips and constraints repair outputs',
 'Every scaling method maps data to its scaled form and back without change (up to rounding), for scalars and every column independently. Physical constraints applied to interpolated values clip, order and rescale them so that every constraint whose fields are present holds afterwards, leaving already consistent and unconstrained values unchanged, whatever was interpolated before.',
 ['inputs', 'histories'], 'every data column, every set of fields, every sequence of earlier calls',
 NT + 'all data sets and call sequences are quantified over.',
 [I + 'data_scaling.py', I + 'constraints.py'], [('DataScaler', I + 'data_scaling.py'), ('sanitize_interpolated_quantities', I + 'constraints.py')])
prop('C16', 'Configuration and population input parsing is faithful',
 'Parsing a population configuration yields, for every section, exactly the literal values written, with names resolved to the modules they denote and missing or malformed entries rejected; saving a configuration object and loading it back restores the same entries. Cleaning output tables keeps every requested column with its declared type.',
 ['inputs', 'configurations'], 'every configuration text and every set of columns',
 'Unit tests use a few files.',
 [P + 'io.py', U + 'configfile.py'], [('simprop_kwargs_from_ini/binarypop_kwargs_from_ini', P + 'io.py'), ('ConfigFile', U + 'configfile.py'), ('clean_binary_*', P + 'io.py')], claimed=False,
 na='Decided by string/file parsing (configparser, ast, pandas dtype inference) that the verifier only sees as an opaque external; contracts would restate the library calls.')
prop('C17', 'Samples read from file cycle through the rows in order',
 'Reading initial binaries from a file returns, for every requested number and starting index, consecutive rows modulo the number of rows, for all columns consistently; columns that are missing are filled by the configured distributions and column aliases are resolved with the documented precedence.',
 ['inputs', 'configurations'], 'every number of binaries, starting index and table length',
 'Unit tests use a few combinations of sizes and indices.',
 [P + 'sample_from_file.py'], [('get_samples_from_file', P + 'sample_from_file.py')])
prop('C18', 'Derived transient quantities are symmetric and physically bounded',
 'Chirp mass, mass ratio and effective spin of a compact binary are symmetric under exchange of the two objects, follow their definitions, and respect their bounds (mass ratio at most one, effective spin between the extremes of the aligned spins). Gamma-ray-burst energies follow the tabulated disk-mass relations and are zero without a disk.',
 ['inputs'], 'every mass, spin and tilt',
 'Unit tests check few samples.',
 [P + 'transient_select_funcs.py', P + 'GRB.py', P + 'selection_effects.py'], [('chirp_mass/mass_ratio/chi_eff', P + 'transient_select_funcs.py'), ('GRB', P + 'GRB.py')])
