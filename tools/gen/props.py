import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['src/sims_pars/' + f for f in files],
                               mechanism=[dict(name=n, where='src/sims_pars/' + w) for n, w in mech],
                               **({'observe_at': observe} if observe else {}),
                               **({'state': [dict(name=a, meaning=b, where='src/sims_pars/' + c) for a, b, c in state]} if state else {}),
                               hook_needed=None)))

prop('C01', 'Mathematical expressions mean what they say',
 "An expression over numbers, variables, the documented mathematical functions and user-registered functions evaluates to the same value as ordinary arithmetic on the same variable values. Its list of parents is exactly the variables it reads, and its printed form evaluates to the same value again. Calls of registered functions keep positional and named arguments apart, and evaluating never changes the variable values it is given.",
 ['inputs', 'programs'], 'every well-formed expression and every assignment of values to its variables',
 'Tests evaluate a handful of fixed expressions at one point; expressions are an infinite language, and name capture or operator mistakes depend on their shape.',
 ['fn.py', 'util.py', 'bayesnet/loci.py'],
 [('parsing and evaluation of expressions', 'util.py'), ('registry of mathematical functions', 'fn.py')])
prop('C02', 'Calls of distributions and registered products are completed correctly',
 "Building a distribution or any product of a registered factory from its textual call binds named arguments by name, positional arguments to the remaining ones in their declared order, and omitted arguments to their declared defaults, whatever their mixture. Arguments that depend on variables are evaluated at the values given, the built object keeps the call it came from, and completing a completed call changes nothing. An unknown name of a product and a missing required argument are refused.",
 ['inputs', 'programs'], 'every law or product, every mixture of positional, named and omitted arguments, constant or dependent on variables',
 'Tests build a few calls with one style of arguments each; the mixtures and nested expressions are combinatorial.',
 ['factory/craftstation.py', 'factory/__init__.py', 'prob.py', 'util.py'],
 [('argument completion', 'factory/craftstation.py'), ('distribution creators', 'prob.py')])
prop('C03', 'Distributions sample and score the law they name',
 "For every named distribution and valid parameters, the log density is the one of that law at every point (minus infinity outside the support), the reported mean and standard deviation are the law's, and its draws follow it. Constants put all mass on their value, and categorical laws score with normalised probabilities. Drawing n values gives n values, one of them a single value, each in the support.",
 ['inputs'], 'all laws, all valid parameter values, all evaluation points including the edges of the support, all sample sizes',
 'Tests compare single moments or densities at one parameter setting; parameterisation errors and edge cases elsewhere, and errors of the sampled law, pass them.',
 ['prob.py'], [('distribution classes', 'prob.py')])
prop('C04', 'Impossible parameters never yield draws or finite densities',
 "A distribution whose parameter lies outside the domain of its law (a non-positive scale, rate or shape, a probability outside the unit interval, a negative count, a range with its ends swapped, categories with a negative weight or without any positive one) is refused when built from constants. When such a parameter is only reached through the values of parents, drawing is refused and a configuration containing it is scored as impossible rather than with a finite density. Parameters on the border of the domain that the law admits are accepted.",
 ['inputs'], 'every law with a bounded parameter, every offending or bordering value, constant or computed from parents',
 'Tests use valid parameters only; validity is a condition on every parameter value of every law.',
 ['prob.py', 'bayesnet/loci.py'], [('validation when building a law', 'prob.py'), ('scoring of a variable', 'bayesnet/loci.py')])
prop('C05', 'A variable definition and its JSON form describe the same variable',
 "Every way of writing one definition (blanks, tabs, descriptions, constants, functions, distributions, exogenous or unspecified dependence) yields a variable of the right kind with the right name, parents, description and value or law. Its JSON form, also through text, rebuilds a variable that behaves identically, and so does its printed definition. Text that is not a definition is refused.",
 ['inputs', 'programs'], 'every single-variable definition in any layout',
 'Tests parse a few tidy definitions; layouts and expression shapes are unbounded.',
 ['bayesnet/loci.py', 'util.py'], [('parsing of definitions', 'bayesnet/loci.py'), ('JSON form of variables', 'bayesnet/loci.py')])
prop('C06', 'The structure of a network is what its definitions say',
 "A network built from definitions, in a script, as JSON or one by one in any order, has exactly the defined variables plus those they mention, and one edge from each mentioned variable to each variable mentioning it. Its roots, leaves, exogenous variables, random roots and evaluation order agree with those edges: no variable precedes one of its parents. Variables mentioned but not defined are exogenous once the network is completed.",
 ['inputs', 'programs'], 'every acyclic set of definitions, in every order of definition and every input format',
 'Tests check two or three small networks; the guarantee is about every graph and every order of definition.',
 ['bayesnet/bn.py', 'bayesnet/dag.py'], [('definition of variables and edges', 'bayesnet/bn.py'), ('topological order', 'bayesnet/dag.py')])
prop('C07', 'Editing a network keeps it consistent, and failed edits change nothing',
 "After any history of definitions, redefinitions, freezing and defrosting, a network has the variables, definitions, dependences, order, roots and exogenous variables of one built afresh from the latest definitions. A definition that would create a cycle or is ill-formed is refused and leaves the network exactly as it was. A frozen network cannot be changed, and changes to its copies never affect it.",
 ['histories', 'inputs'], 'every sequence of edits, valid and invalid, interleaved with freezing',
 'Tests apply one or two edits to a fixed network; consistency is a property of all histories.',
 ['bayesnet/bn.py', 'bayesnet/dag.py'], [('adding variables', 'bayesnet/bn.py'), ('freezing and defrosting', 'bayesnet/bn.py'), ('cycle check', 'bayesnet/dag.py')])
prop('C08', 'Networks survive script, JSON, copy and clone',
 "A network sent through any chain of its script, its JSON form, copying and cloning has the same name, variables, edges, definitions and descriptions of variables, and scores and evaluates every configuration identically. The layout of a script (indentation, blank lines, comments, order of definitions) does not affect the network read from it. Changing a copy does not change its original.",
 ['inputs', 'histories'], 'every network and every chain of round trips',
 'Tests round-trip one tidy network once; losses depend on kinds of variables, layouts and repeated hops.',
 ['bayesnet/bn.py', 'bayesnet/loci.py'], [('script reader and writer', 'bayesnet/bn.py'), ('JSON reader and writer', 'bayesnet/bn.py')])
prop('C09', 'Merging and extending networks combine their definitions',
 "Merging two networks yields the union of their variables where the definitions (and user functions) of the second network win, and every edge follows from the resulting definitions. Extending a network with further definitions yields the network in which those are added or replaced. The inputs are left unchanged, and an impossible combination is refused.",
 ['inputs'], 'every pair of networks with shared, redefined and new variables',
 'Tests merge one pair; edges lost or kept wrongly depend on which variables are shared and redefined.',
 ['bayesnet/bn.py', 'bayesnet/dag.py'], [('merging', 'bayesnet/bn.py'), ('extension', 'bayesnet/bn.py')])
prop('C10', 'Graph queries agree with reachability',
 "Parents, children, ancestors, descendants, roots, leaves, topological order, sub-graphs and the sets of requirements of given targets (with and without known variables) are those defined by reachability along edges: the minimal requirements of targets given known variables are exactly the variables on which they still depend without passing through a known one. Adding and removing nodes and edges changes exactly those, and a graph is reported as acyclic exactly if it has no directed cycle. Queries leave the graph unchanged.",
 ['inputs', 'histories'], 'every acyclic graph, every set of targets and known variables, including empty sets',
 'Tests query one small graph; wrong direction or lost nodes show only on particular shapes and sets.',
 ['bayesnet/dag.py', 'bayesnet/bn.py'], [('graph queries', 'bayesnet/dag.py'), ('minimal requirements', 'bayesnet/dag.py')])
prop('C11', 'A sample of a network obeys every definition',
 "Sampling a network under given values yields all its variables: given values are returned unchanged, every function equals its definition at the sampled values of its parents, and every random variable is one draw from its law at the sampled values of its parents. Missing exogenous values are refused. The given values are not modified, and repeated samples are fresh draws.",
 ['inputs'], 'every network, every set of given values on any of its variables, every draw',
 'Tests look at one draw of one network; agreement is required of every draw of every network, under every condition.',
 ['bayesnet/bn.py', 'bayesnet/loci.py', 'bayesnet/__init__.py'], [('sampling in order', 'bayesnet/bn.py')])
prop('C12', 'Minimal sampling touches exactly what the targets need',
 "Sampling only some targets of a network yields those targets, obeying the definitions, and nothing that is not asked for in the returned targets. Variables that the targets do not depend on given the known values are neither computed nor drawn, and random variables follow their law given the known values of their parents. The known values are used as given and are not modified.",
 ['inputs'], 'every network, every set of targets and known values',
 'Tests use one target of one network.',
 ['bayesnet/bn.py', 'bayesnet/dag.py'], [('minimal sampling', 'bayesnet/bn.py')])
prop('C13', 'The log density of a configuration is the sum over its random variables',
 "Evaluating a configuration of a network gives the sum of the log densities of its random variables at their values given the values of their parents; functions, constants and exogenous variables contribute nothing. Values outside the support, and values at which a law is not defined, make it minus infinity. Partial configurations count the random variables they contain, and the configuration is not modified.",
 ['inputs'], 'every network and every full or partial configuration, inside or outside the supports',
 'Tests score one configuration of one network.',
 ['bayesnet/bn.py', 'bayesnet/loci.py'], [('scoring of configurations', 'bayesnet/bn.py')])
prop('C14', 'An impulse changes a chromosome exactly where it must',
 "An impulse on a set of drawn values sets the variables it names (redrawing those named without a value), recomputes exactly their descendants that are present, and leaves all others untouched. The log probability is then unevaluated until it is evaluated again, when it is that of the new values; redrawn values follow their laws at the new values of their parents. Clones and JSON copies hold the same values and probability and are unaffected by later impulses on the original.",
 ['inputs', 'histories'], 'every network, every sequence of impulses on drawn values',
 'Tests apply one impulse on a chain of three variables.',
 ['bayesnet/chromosome.py', 'bayesnet/bn.py'], [('impulse', 'bayesnet/chromosome.py')])
prop('C15', 'Tables, series and regressions are faithful sources of values',
 "Probability tables draw combinations of attributes with the stated (normalised) probabilities, also after marginalising or conditioning on attributes; transition tables draw next states with those of the current state, refusing unknown states. Time series in any order of rows return the stated values at the stated times, values of the nearest, previous or next time or linear interpolations between them, and the end values beyond their ends; rates and draws over time use the row of that time. Variables of a network defined by a registered regression have the law of the regression at the values of their parents, wherever the network is sampled, scored, stored or put into a hierarchy.",
 ['inputs'], 'all tables, series and look-ups, at, between and beyond the recorded points',
 'Tests load one file each and look up one or two points.',
 ['data/static.py', 'data/timeseries.py', 'data/frame.py', 'data/datafunction.py', 'bayesnet/loci.py'],
 [('look-up tables and transition matrices', 'data/static.py'), ('time series', 'data/timeseries.py'), ('data function variables', 'bayesnet/loci.py')])
prop('C16', 'Regressions and hazards predict and sample their stated models',
 "Linear, logistic, Poisson and multinomial regressions predict the link-inverse of the intercept plus the sum of coefficient times covariate (for a category, the coefficient of its level; for several labels, each against the rest and normalised), and draw from the corresponding law. Hazard-based survival times, with or without immediate events, have the density, draws and (for parametric baselines) mean and spread of their baseline under proportional hazards for the covariates given, and no density at negative times. Covariates the model does not mention have no effect.",
 ['inputs'], 'all coefficients, reference levels, covariates and baselines',
 'Tests predict at one covariate pattern.',
 ['data/reg/glm.py', 'data/reg/linear.py', 'data/reg/hazard.py', 'data/reg/survival.py'],
 [('linear predictors', 'data/reg/linear.py'), ('generalised linear models', 'data/reg/glm.py'), ('hazards', 'data/reg/hazard.py')])
prop('C17', 'Cores of a hierarchy hold a consistent joint draw with scoping',
 "Generating a tree of parameter cores from a network and a hierarchy of groups gives every core exactly the variables its group fixes plus what they need that is not held above, so that values read anywhere in the tree satisfy every definition given the values read in the same place. Variables of an ancestor are readable below with the same value, those of children and siblings are not readable above or beside. The log prior of a core is the log density of its own values and the one over the whole tree is the sum.",
 ['inputs', 'configurations'], 'every network, every valid hierarchy of fixed and floating variables, every tree of cores',
 'Tests use one network with two or three groups; redrawn or lost variables depend on how dependence crosses groups.',
 ['simulation/simucore.py', 'simulation/simugroup.py', 'simulation/nodeset.py', 'simulation/parcore.py'],
 [('assignment of variables to groups', 'simulation/nodeset.py'), ('generation of values', 'simulation/simugroup.py'), ('scoped look-up', 'simulation/parcore.py')])
prop('C18', 'Samplers of floating variables follow the current values',
 "Every floating variable of a core can be drawn through its sampler, and each draw is one from its law at the values currently readable in that core, passing through floating intermediate variables. Samplers obtained before an impulse follow the new values after it, and those prepared for children do the same. Repeated draws return the requested number of values and do not change the core.",
 ['histories', 'inputs'], 'every hierarchy, every history of impulses, every sampler taken at any time',
 'Tests draw once from one sampler; stale values only show after a particular sequence of operations.',
 ['simulation/actor.py', 'simulation/parcore.py', 'simulation/simugroup.py', 'simulation/nodeset.py'],
 [('actors of floating variables', 'simulation/actor.py'), ('access to samplers', 'simulation/parcore.py')])
prop('C19', 'Impulses propagate through a tree exactly where dependence goes',
 "An impulse on a core sets the variables it names, recomputes in that core and everywhere below it the values that depend on them, and leaves every other value in the tree untouched. Afterwards all functions hold again at the values readable in the same place, and the log prior of every core is that of its current values. Floating variables are drawn given the new values from then on. The request itself is not modified.",
 ['histories', 'inputs'], 'every hierarchy and every sequence of impulses on any of its cores',
 'Tests impulse one root of one hierarchy.',
 ['simulation/parcore.py', 'simulation/simugroup.py'], [('impulse and propagation', 'simulation/parcore.py')])
prop('C20', 'Copies of parameter trees are faithful and isolated',
 "Cloning, duplicating, breeding siblings or children, removing and detaching cores give trees with the stated members, names and links, in which copied cores hold the values and priors of their originals and new cores obey the definitions. Nothing done to a copy afterwards is visible in its original or the other way round. Looking a core up by its address finds exactly the core that is there.",
 ['histories', 'inputs'], 'every hierarchy and every sequence of structural operations and impulses',
 'Tests clone one tree and look at one value; leaks between copies need a history.',
 ['simulation/parcore.py', 'simulation/simucore.py'], [('clone, duplicate, breed, detach', 'simulation/parcore.py')])
prop('C21', 'Parameter and unit-interval coordinates convert back and forth',
 "For every parameter domain (bounded on both, one or no side), converting a value to the unit interval and back returns the value, and the conversion is increasing and stays within the unit interval and the domain. The ends of the unit interval correspond to the ends of the domain. The domain of a free parameter of a model has the bounds, location and spread of its prior, and its conversion covers exactly these bounds.",
 ['inputs'], 'every domain and every value in it',
 'Tests convert two or three values of one domain.',
 ['fit/converter.py', 'fit/base.py'], [('converters', 'fit/converter.py')])
prop('C22', 'Targets measure outputs as declared',
 "Targets given as numbers, means with errors or ranges, distributions or ready-made objects are read as declared, using the stated default error when none is given. The distance of an output grows with its deviation, scaled by the declared spread, or is the negative log density of a declared law. The expected value and variance a target reports are the declared ones, and malformed targets are refused.",
 ['inputs'], 'every documented format of targets, every error level and every output',
 'Tests read one dictionary of targets.',
 ['fit/targets/__init__.py', 'fit/targets/single.py', 'fit/targets/base.py', 'fit/targets/multi.py'],
 [('reading targets', 'fit/targets/__init__.py'), ('distances', 'fit/targets/single.py')])
prop('C23', 'A data model serves complete, correctly scored parameters',
 "Any request for parameters, from the prior, from a given subset of values or from values found elsewhere, yields a complete set obeying every definition, using given and exogenous values unchanged, with its log density under the prior. The free parameters and their domains are exactly the continuous random roots not fixed by the user, with the bounds of their priors. The distance of a simulation is the sum over the targets and is measured from its own outputs.",
 ['inputs'], 'every network, exogenous setting, set of targets and request',
 'Tests use one toy model with all parameters free.',
 ['fit/base.py', 'bayesnet/bn.py'], [('data model', 'fit/base.py')])
prop('C24', 'Rejection ABC accepts exactly what the tolerance allows',
 "The tolerance is the requested quantile of the distances of the requested number of valid test simulations. The posterior has exactly the requested number of particles, each one an actual simulation of the model under its parameters within that tolerance, drawn from the prior and scored with it, and no accepted simulation is lost or repeated. Failing simulations are never accepted.",
 ['inputs', 'fault_sequences'], 'every model, setting and sequence of failing simulations',
 'Tests fit one toy problem and look at the size of the result.',
 ['fit/abcom/alg.py', 'fit/base.py', 'fit/results.py'], [('test run and collection', 'fit/abcom/alg.py')])
prop('C25', 'Every state of sequential ABC is a valid weighted population',
 "At every round of sequential ABC the population has the requested size, weights are non-negative and sum to one, members beyond the tolerance have no weight, the tolerance never grows, and each member is an actual simulation of the model under its complete, correctly scored parameters. Surviving members keep their values unless replaced by an accepted proposal within the tolerance. The posterior is drawn from the last population in proportion to its weights.",
 ['histories', 'inputs', 'fault_sequences'], 'every model, setting, round and sequence of failing simulations',
 'Tests look at the final result of one toy problem; states between rounds are not observed.',
 ['fit/abc_smc/alg.py', 'fit/base.py'], [('state of the sampler', 'fit/abc_smc/alg.py'), ('reweighting, resampling, mutation', 'fit/abc_smc/alg.py')],
 state=[('population', 'particles, distances, weights, tolerance, effective size of a round', 'fit/abc_smc/alg.py')])
prop('C26', 'Sequential ABC stops when its rules say and accounts for its work',
 "A sequential ABC run ends exactly when one of its stopping rules first holds (round limit, rounds without progress, low acceptance), and always ends. Its trace has one row per round with the tolerance, effective size, acceptance and counts of that round. The number of simulations it reports is the number actually run.",
 ['histories', 'configurations', 'fault_sequences'], 'every model and every combination of stopping settings',
 'Tests run one setting to its round limit.',
 ['fit/abc_smc/alg.py', 'monitor.py'], [('termination', 'fit/abc_smc/alg.py'), ('trace', 'fit/abc_smc/alg.py')])
prop('C27', 'Fitting in parallel keeps the contract of fitting in sequence',
 "With several worker processes a fit gives results of the same form and under the same guarantees as a sequential one: complete and correctly scored parameters, each particle a simulation of the model, within the tolerance and of the requested number. Workers never share random numbers, so no continuous draw appears twice by coincidence. Nothing a worker computed is lost, mixed up with another particle, or counted twice.",
 ['schedules', 'inputs', 'configurations'], 'every model and setting, every number of workers and completion order',
 'Tests run sequentially; pairing of results and parameters in parallel runs is never observed.',
 ['fit/abcom/alg.py', 'fit/abc_smc/alg.py', 'fit/hme/alg.py', 'fit/base.py'], [('parallel evaluation', 'fit/abcom/alg.py'), ('parallel rounds', 'fit/abc_smc/alg.py')])
prop('C28', 'History matching keeps only what is not implausible',
 "In every wave the emulators are trained on actual simulations of the wave's designs and follow smooth outputs, every kept point has an implausibility within the cut-off at the recorded emulator predictions, no plausible point is dropped, at least the least share asked for is kept (so that no wave is empty), and the bounds of the next wave enclose the kept points and never leave the prior domain. The recorded acceptance and error are those of the wave. The posterior consists of actual simulations at kept, complete and correctly scored parameters.",
 ['inputs', 'histories'], 'every model, setting and wave',
 'Tests run one wave on a toy problem.',
 ['fit/hme/alg.py', 'fit/hme/emulator.py', 'fit/converter.py'], [('waves', 'fit/hme/alg.py'), ('emulators', 'fit/hme/emulator.py')])
prop('C29', 'A monitor keeps one ordered record per time step',
 "A monitor's table has one row per step, in the order of the steps, holding the values last kept under each name before that step and the time of the step (one more than before unless stated). Values kept after the last step belong to the next one; resetting empties the record and restarts the clock at the stated time. Monitors do not share records, and messages reach the log file in order.",
 ['histories'], 'every sequence of keeping, stepping, resetting and exporting',
 'Tests keep and step a few times in one order.',
 ['monitor.py'], [('timeline', 'monitor.py')])
prop('C30', 'Particles and parameter sets survive records, tables and copies',
 "A particle written to its record form, also through text, and read back has the same parameters, outputs, log density and notes. The record of a set keeps its algorithm, its notes and the parameters of every particle in order; its tables have one row per particle in order with all parameters or all outputs. Copies are independent of their originals.",
 ['inputs', 'histories'], 'every particle and parameter set, and every chain of conversions',
 'Tests convert one particle.',
 ['fit/base.py', 'fit/results.py', 'bayesnet/chromosome.py'], [('records of particles', 'fit/base.py'), ('parameter sets', 'fit/results.py')])
prop('C31', 'Weighted resampling is proportional and keeps companions together',
 "Resampling items by weights, given plainly or as logarithms, returns the requested number of items, each one of the given, with expected frequency proportional to its weight, however large or small the weights are. Items of zero weight are never drawn, and the log mean weight reported when as many items are drawn as are given is that of the weights. The given weights and items are not modified.",
 ['inputs'], 'every vector of weights, plain or logarithmic, with impossible entries and extreme ranges, every size',
 'Tests resample one vector once.',
 ['util.py'], [('resampling', 'util.py')])
prop('C32', 'Genetic operators respect parents, domains and fitness',
 "Crossover gives two offspring whose variables come from the parents (exchanged evenly and one by one, or averaged) and leaves the parents unchanged. Mutation moves each variable around its value by a scale taken from the population and never leaves the parameter's domain. Selection returns as many copies as the population has members, never an impossible one, favouring fitness as declared (winners of tournaments of the stated size, or in proportion to posterior).",
 ['inputs'], 'every population, domain, operator and option',
 'No test runs these operators.',
 ['fit/ga/cross.py', 'fit/ga/mutate.py', 'fit/ga/select.py'], [('crossover', 'fit/ga/cross.py'), ('mutation', 'fit/ga/mutate.py'), ('selection', 'fit/ga/select.py')])
prop('C33', 'Stochastic results are determined by the seed, and only by it',
 "With the global numpy random generator set to the same state, sampling a network, generating a tree of cores, drawing from distributions, tables, regressions and samplers, applying impulses, drawing from priors, and sequential rejection or sequential ABC give the same result on the same objects and leave the generator in the same state. Without resetting it, results vary: nothing in the library reseeds the generator. Networks without random variables never use it.",
 ['inputs', 'configurations'], 'every network, hierarchy, model and seed',
 'Tests never compare two runs under one seed.',
 ['bayesnet/bn.py', 'simulation/parcore.py', 'simulation/actor.py', 'fit/abcom/alg.py', 'fit/abc_smc/alg.py', 'util.py', 'prob.py'],
 [('use of the numpy generator', 'prob.py')])
prop('C34', 'The example models shipped simulate what they state',
 "The example models shipped with the package can be simulated at every parameter of their domain and fitted as they are. The epidemic follows its stated equations: prevalence, incidence and recovery at the data times are those of the SIR model of a population of 1000 with 10 infected, they depend on nothing else, and at the generating parameters the distance to the data vanishes. The two-sample models draw counts and means from their stated laws independently, with their stated priors.",
 ['inputs'], 'every truth and every parameter value of the example models',
 'Tests fit the example models a few times but never compare their outputs with the stated model.',
 ['fit/toys.py'], [('example models', 'fit/toys.py')])
prop('C35', 'The groups of a hierarchy place every variable where it can be computed',
 "Placing a network in a hierarchy of groups holds every assigned variable where it was assigned (what does not vary may be held above it) and every other variable where all it needs is readable, so in a chain of groups no variable is lost. The variables a group fixes come in an order in which they can be computed, and a sampler reads only what is held and draws the rest in a possible order. The placement depends only on the assignments and the definitions, not on the order in which they are stated or on earlier placements of the same hierarchy, and it is the same for copies of a model. A group that floats what its own fixed variables need is refused, wherever it stands, and a hierarchy in use cannot be changed before it is defrosted.",
 ['inputs', 'configurations', 'histories'], 'every network, every hierarchy and every way of stating it',
 'Tests place one network in two or three groups; lost or misplaced variables depend on how dependence crosses groups.',
 ['simulation/nodeset.py', 'simulation/simucore.py', 'simulation/simugroup.py'], [('placement of variables', 'simulation/nodeset.py'), ('blueprints of samplers', 'simulation/nodeset.py')])
if __name__ == '__main__':
    import re
    with open('/verif/properties.jsonl', 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            n = len(re.findall(r'[.](\s|$)', p['statement']))
            if n > 3: print(p['id'], n)
            f.write(json.dumps(p) + '\n')
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P: jsonschema.validate(p, s)
    import os
    for p in P:
        for x in p['anchors']['files'] + [m['where'] for m in p['anchors']['mechanism']]:
            assert os.path.exists('/repo/' + x), x
