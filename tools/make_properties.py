import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=state or [],observe_at=observe or [],hook_needed=None)))
p('C01','Free energy, gradient and Hessian follow the Flory-Huggins formula',
 'For every mixture and every batch of compositions, the reported free energy density equals the sum over components of phi ln(phi)/l plus one half of the chi-weighted sum of pairwise products of fractions (0 ln 0 counting as 0), for component-based and for feature-based models alike. The reported gradient and Hessian are exactly the first and second partial derivatives of that function. When a dependent component is named, they are the derivatives of the function in which that component\'s fraction is one minus the sum of the others.',
 ['inputs','configurations'],'all component numbers, symmetric or asymmetric chi input, all positive molecule sizes, all non-negative compositions (interior for derivatives), arrays of any leading shape, every choice of dependent component',
 'Tests compare a handful of random points by finite differences with unit sizes; the Hessian for sizes other than one was wrong and passed every test.',
 ['flory/free_energy/base.py','flory/free_energy/flory_huggins.py','flory/interaction/flory_huggins.py','flory/interaction/flory_huggins_block.py','flory/entropy/ideal_gas.py','flory/common/math.py'],
 [('interaction and entropy energy/jacobian/hessian implementations','flory/interaction/flory_huggins.py, flory/entropy/ideal_gas.py'),('sum and elimination of the dependent component','flory/free_energy/base.py')],
 ['free_energy_density, jacobian, hessian'])
p('C02','Chemical potentials, pressure, stability and equilibration error are consistent',
 'For every composition the reported chemical potential of a component is f + df/dphi_i - sum_j phi_j df/dphi_j, the exchange chemical potentials are the gradient components relative to the reference component, and the pressure is minus the chemical potential of the named solvent; fractions that vanish contribute their limit. The number of unstable modes is the number of negative eigenvalues of the Hessian (of the reduced Hessian when volume is conserved), and a state is stable exactly when there is none. For phases in which no fraction vanishes, the equilibration error is the norm of the deviation of the phases\' chemical potentials from their mean, so it vanishes exactly for phases with equal chemical potentials.',
 ['inputs'],'all mixtures, all compositions including boundary ones, all reference indices, all norms/axes',
 'Tests evaluate a few two- and three-component states; they do not relate the quantities to each other for arbitrary sizes, boundary compositions or reference components.',
 ['flory/free_energy/base.py','flory/entropy/ideal_gas.py'],
 [('chemical_potentials, exchange_chemical_potentials, pressure','flory/free_energy/base.py'),('num_unstable_modes, is_stable, equilibration_error','flory/free_energy/base.py')],
 ['chemical_potentials, exchange_chemical_potentials, pressure, num_unstable_modes, is_stable, equilibration_error'])
p('C03','Invalid compositions are always rejected and inputs are never modified',
 'Every thermodynamic query rejects a composition that has a wrong number of components along the last axis or contains a negative entry anywhere, with a volume-fraction error, and accepts every other numeric array-like. No query modifies the arrays it is given, and a free energy cannot be assembled from an interaction and an entropy of different component numbers.',
 ['inputs'],'all array-likes of any shape and content, every public query',
 'Tests try one or two malformed arrays on one query.',
 ['flory/free_energy/base.py','flory/common/exceptions.py'],
 [('check_volume_fractions called by every public query','flory/free_energy/base.py'),('component number check in constructor','flory/free_energy/base.py')],
 ['raised exception types; input arrays after the call'])
p('C04','Model parameters are stored and compiled faithfully',
 'However the parameters are supplied (scalar, row, matrix, list, integers, any memory order; constructor, setter, uniform or random factory), the model holds the broadcast values as given, with the interaction matrix replaced by its symmetric part, and setting a parameter later is equivalent to constructing with it. Shapes that cannot be broadcast are rejected. Uniform and random factories give a symmetric matrix with exactly the requested values (zero diagonal only if requested), and the compiled model used by the solver evaluates exactly the same parameters; none of these operations changes the caller\'s arrays.',
 ['inputs','histories'],'all parameter shapes/dtypes/orders, all sequences of setter calls, all component numbers, all random generators',
 'Tests construct models from float matrices once; integer input, scalar input, setters after factories and compiled data are not examined (several of those paths crashed, truncated or read foreign memory).',
 ['flory/interaction/flory_huggins.py','flory/interaction/flory_huggins_block.py','flory/entropy/ideal_gas.py','flory/entropy/ideal_gas_polydispersed.py','flory/ensemble/canonical.py','flory/ensemble/grandcanonical.py','flory/constraint/linear_local.py','flory/constraint/linear_global.py','flory/free_energy/flory_huggins.py','flory/common/utilities.py'],
 [('broadcast and symmetrisation in constructors and setters','flory/interaction, flory/entropy, flory/ensemble, flory/constraint'),('creation of compiled instances','_compiled_impl methods')],
 ['chis, sizes, phi_means, scaled_activity, Cs, Ts, independent_entries; compiled potential'])
p('C05','Feature-based models are equivalent to the expanded component-based models',
 'A block interaction or a polydisperse entropy with any number of components per feature behaves exactly like the component-based model in which every feature is expanded into its components: same energies and derivatives, same Boltzmann weights and single-molecule partition sums, same volume derivatives. The volume fraction of a feature is the sum of the fractions of its components, and a feature without components has zero fraction.',
 ['inputs','configurations'],'all numbers of features, all component counts per feature, all sizes, fields and volumes',
 'Tests use one uniform and one small non-uniform grouping.',
 ['flory/interaction/flory_huggins_block.py','flory/entropy/ideal_gas_polydispersed.py','flory/common/utilities.py'],
 [('running component counter over feature groups','flory/entropy/ideal_gas_polydispersed.py'),('block expansion','flory/common/utilities.py')],
 ['partition, comp_to_feat, volume_derivative, potential, energy/jacobian/hessian'])
p('C06','Ensembles normalise volume fractions exactly',
 'Boltzmann weights are exp(-l w) per component and compartment, and partition sums are their volume-weighted mean over compartments. The canonical ensemble turns them into fractions whose volume-weighted mean over living compartments equals the prescribed mean fraction for every component; the grand-canonical ensemble multiplies them by the prescribed activity, which is l exp(l mu) when chemical potentials are prescribed. Dead compartments get zero fractions, and the returned incompressibility is the deviation of the total fraction from one in living compartments and zero in dead ones.',
 ['inputs'],'all sizes, fields, volumes with at least one living compartment, masks, mean fractions and activities',
 'Tests only look at converged end-to-end results, where errors of the intermediate normalisation that vanish at convergence are invisible.',
 ['flory/entropy/ideal_gas.py','flory/ensemble/canonical.py','flory/ensemble/grandcanonical.py'],
 [('partition','flory/entropy/ideal_gas.py'),('normalize','flory/ensemble/canonical.py, flory/ensemble/grandcanonical.py'),('from_chemical_potential','flory/ensemble/grandcanonical.py')],
 ['partition, normalize of compiled instances'])
p('C07','Iteration conserves total volume and handles dead compartments',
 'After every solver step the volumes of the living compartments average to exactly one, and the compartments that were at or below the kill threshold when the step began (and were not revived) have zero volume, zero fields and zero fractions, while no other compartment is killed. The driving force on the volumes is scaled by one common factor that never exceeds one and limits its largest change (before the volumes are renormalised) to the configured bound, and the same factor scales the field and multiplier updates. The step reports itself safe exactly when no compartment fell to the threshold in the last step, and the volume update never divides by zero as long as one compartment lives and the threshold is below one.',
 ['inputs','histories'],'all models, states, acceptance parameters, thresholds below one and numbers of inner steps',
 'Tests never inspect intermediate states of the iteration.',
 ['flory/mcmp/_finder_impl.py'],
 [('masks, volume update and renormalisation','flory/mcmp/_finder_impl.py: multicomponent_self_consistent_metastep'),('count_valid_compartments, make_valid_compartment_masks','flory/mcmp/_finder_impl.py')],
 ['volumes and fields after each metastep; last element of the returned tuple'])
p('C08','Stationary states are coexisting phases and residuals are true',
 'The residuals reported by the solver are the maximum absolute deviations from incompressibility, field self-consistency, volume balance and the constraints, evaluated for the state at the beginning of the last step; they do not depend on acceptance parameters, step bounds or constraint acceptance. Without constraints, a state whose residuals all vanish has equal chemical potentials of every component and equal pressure in all living compartments, i.e. it is a set of coexisting phases of the given mixture (with the given mean composition in the canonical ensemble), and such a state is a fixed point of the iteration.',
 ['inputs','histories','configurations'],'all interactions, sizes, ensembles, constraints, states and numerical parameters',
 'Tests check that a few simple systems converge to known binodals; wrong residuals (one of them ignored negative deviations) still converge there.',
 ['flory/mcmp/_finder_impl.py','flory/interaction/flory_huggins.py','flory/entropy/ideal_gas.py'],
 [('self-consistent fields, Lagrange multiplier and local energy','flory/mcmp/_finder_impl.py: multicomponent_self_consistent_metastep'),('volume_derivative, potential, incomp_coef','flory/interaction/flory_huggins.py, flory/entropy/ideal_gas.py')],
 ['tuple returned by the metastep; diagnostics; chemical potentials of returned phases'])
p('C09','A run never claims more than it did',
 'A run performs at least one and at most the requested maximum number of steps (rounded up), checks convergence at least once per interval, and stops early only when every residual is below the tolerance and no compartment died in the last step. Temporary overrides of maximum steps, tolerance, interval and progress apply to that call only, compartments are revived only while the revive budget is positive and the budget is decreased by exactly the number of revivals, and the diagnostics report the values of the last check. Repeating a run continues from the state in which the previous one ended.',
 ['inputs','histories','configurations'],'all parameter values and override combinations, all histories of residuals and revivals, repeated runs',
 'Tests call run once with defaults and look at the result.',
 ['flory/mcmp/finder.py'],
 [('run loop','flory/mcmp/finder.py: CoexistingPhasesFinder.run'),('reset_revive','flory/mcmp/finder.py')],
 ['diagnostics; number of metastep calls and their arguments'])
p('C10','Random revival touches only dead compartments',
 'Random revival gives every compartment at or below the threshold unit volume and fields drawn uniformly from the interval centred between the smallest and largest current field of that feature, with half-width the configured multiple of half their difference. Living compartments keep their volume and fields exactly, and the number returned is the number of compartments revived. During iteration revival happens only while the budget of tries lasts.',
 ['inputs','schedules'],'all volumes, fields, thresholds, scalers and random streams',
 'No test calls revival directly or drives compartments to death on purpose.',
 ['flory/mcmp/_finder_impl.py'],
 [('revive_compartments_by_random','flory/mcmp/_finder_impl.py')],['volumes and fields after the call; return value'])
p('C11','Revival by copying conserves volumes and amounts',
 'Revival by copying fills every dead compartment with the composition of a living one and splits that compartment\'s volume equally, so the total volume and the total amount of every component of the living compartments are unchanged. It revives all dead compartments whenever at least one compartment has positive living volume, always terminates, never accesses memory outside its arrays, and reports the number of revived compartments.',
 ['inputs','schedules'],'all volumes, compositions, non-negative thresholds and random streams',
 'No test reaches thresholds where living compartments become too small to split; that path crashed the interpreter.',
 ['flory/mcmp/_finder_impl.py'],
 [('revive_compartments_by_copy','flory/mcmp/_finder_impl.py')],['volumes and compositions after the call; run result'])
p('C12','Constraint forces are exact derivatives of the constraint energy',
 'For linear constraints C phi = T, the reported residual is C phi - T per living compartment (local) or its volume average (global), the potential is the derivative of multiplier*residual + elasticity*residual^2 with respect to the feature fractions and the volume derivative its derivative with respect to the compartment volume, both zero in dead compartments. Multipliers start at zero, grow by step*acceptance*residual, and the returned error is the largest absolute residual. The trivial constraint contributes nothing.',
 ['inputs','histories'],'all constraint matrices, targets, states, multipliers, elasticities and masks, all numbers of constraints',
 'Tests check one converged solution with a constraint; errors proportional to the residual vanish there.',
 ['flory/constraint/linear_local.py','flory/constraint/linear_global.py','flory/constraint/no.py'],
 [('prepare, evolve, initialize','flory/constraint/linear_local.py, flory/constraint/linear_global.py')],
 ['potential, volume_derivative, evolve return value of compiled constraints'])
p('C13','Phase collections conserve volume and composition',
 'Normalising scales the volumes to sum to one and keeps compositions; sorting only permutes phases together with their volumes, ordering them by the index of their most concentrated component; clustering merges phases so that total volume and mean composition are unchanged, equal compositions always end in one phase, well separated ones never merge, and the result is sorted. Volumes and compositions of inconsistent dimension are rejected, attached information is kept by every operation, and the original collection is never modified.',
 ['inputs','histories'],'all volumes with positive sum, all compositions, all cut-off distances, all chains of operations',
 'Tests use two hand-written collections.',
 ['flory/common/phases.py'],
 [('Phases.normalize, sort, get_clusters, mean_fractions','flory/common/phases.py'),('PhasesResult._copy','flory/common/phases.py')],
 ['volumes, fractions, info, total_volume, mean_fractions'])
p('C14','The solver only accepts compatible parts and stays usable',
 'A solver cannot be created with an interaction, entropy, ensemble or constraint whose component or feature number does not fit, and replacing one of them by a misfitting one, or supplying an initial field of the wrong shape, raises an error. After such an error the solver still holds its previous parts and state and runs as before. All constraints handed over are used.',
 ['inputs','histories'],'all combinations of component/feature/compartment numbers, all setter sequences with rejected calls in between',
 'Tests do not use the solver after a rejected call and try few mismatches.',
 ['flory/mcmp/finder.py'],
 [('check_instance, check_field and the set_* methods','flory/mcmp/finder.py')],['exceptions; subsequent run results'])
p('C15','The solver owns its data and reinitialises completely',
 'Once created, a solver is unaffected by later changes of the objects and arrays it was created from or of the results it returned, and it never changes them. Each reinitialisation sets all volumes to one, clears all multipliers, resets the revive budget and installs the requested fields (random normal with the configured amplitude, the given fields, or the potential of the given fractions); replacing a part resets the budget unless told otherwise. Running a reinitialised solver gives the same result as a fresh one with the same state.',
 ['inputs','histories'],'all sequences of construction, mutation of source objects, setters, reinitialisations and runs',
 'Tests create one solver and run it.',
 ['flory/mcmp/finder.py','flory/ensemble/grandcanonical.py','flory/constraint/linear_local.py','flory/constraint/linear_global.py','flory/interaction/flory_huggins_block.py'],
 [('compiled copies','_compiled_impl methods'),('reinitialize_random, reinitialize_from_omegas, reinitialize_from_phis, reinitialize_constraint, reset_revive','flory/mcmp/finder.py')],
 ['omegas, run results, source arrays'])
p('C16','Random compositions lie on the simplex',
 'A random composition of any number of components has non-negative entries that sum to one, is distributed uniformly on the simplex, and is reproducible from the given generator or seed.',
 ['inputs','schedules'],'all component numbers from one upwards, all random streams',
 'Tests draw a few samples for a few component numbers.',
 ['flory/common/phases.py'],[('stick breaking with beta distributed fractions','flory/common/phases.py: get_uniform_random_composition')],['returned array'])
p('C17','The convenience function equals the documented pipeline',
 'Finding coexisting phases through the one-call interface gives exactly what building the mixture, the canonical ensemble and the solver with the same options, running it once, clustering with the default distance, sorting and normalising gives. The returned volumes sum to one, and the attached information equals the diagnostics of that run. All extra options reach the solver unchanged.',
 ['inputs','configurations'],'all mixtures, mean compositions, sizes and solver options',
 'Tests compare final compositions of two systems with known results only.',
 ['flory/shortcut.py','flory/mcmp/finder.py','flory/common/phases.py'],
 [('find_coexisting_phases','flory/shortcut.py')],['returned volumes, fractions and info'])
p('C18','Numerical options reach exactly the parts that understand them',
 'Extra options given to the solver are forwarded to every part that has an option of that name with exactly the given value and are ignored by the others; options given when replacing a part take precedence over those given at creation, individual ones over common ones, and neither changes the defaults kept for later replacements. Options that are not given take their documented defaults.',
 ['inputs','configurations','histories'],'all option dictionaries including redundant names, all sequences of replacements',
 'Tests pass at most one extra option.',
 ['flory/common/utilities.py','flory/mcmp/finder.py','flory/interaction/base.py','flory/entropy/base.py','flory/ensemble/base.py','flory/constraint/base.py'],
 [('filter_kwargs','flory/common/utilities.py'),('merging of keyword dictionaries','flory/mcmp/finder.py')],['compiled parameters (elasticity, acceptance ratio, shift) observed through residuals and updates'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x)+'\n')
