"""Writes /verif/properties.jsonl (the properties are maintained here)."""
import json
M, O, F, R, Z, A, S = ['symfit/core/%s.py' % n for n in
                       ('models', 'objectives', 'fit', 'fit_results', 'minimizers', 'argument', 'support')]
P = []


def prop(id, title, statement, over, text, why, files, *mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


prop('C01', 'A model call returns every component exactly, however it is written',
     'Calling a model returns, for every component and labelled with its own variable, the value of that component\'s '
     'expression at the given data and parameter values, where variables that are themselves components stand for the '
     'value of that component, through any number of levels. The result does not depend on the order in which the '
     'components were written down, and positional arguments (independent variables alphabetically, then parameters '
     'alphabetically) mean the same as keyword arguments. Components given as plain Python callables behave the same as symbolic ones.',
     ['inputs', 'programs'], 'All values of data and parameters, for every choice of smooth component functions, over the '
     'listed model shapes (scalar, vector, up to four interdependent levels, diamonds, callable components), all insertion orders.',
     'The tests evaluate a few fixed polynomials at a few points; a swapped argument or a wrong substitution order is '
     'invisible when the sampled functions or values happen to agree.',
     [M, S], ('topological evaluation of interdependent components', M + ':BaseCallableModel.eval_components'),
     ('argument order of compiled expressions', S + ':sympy_to_py'), ('labelled output', M + ':ModelOutput'))
prop('C02', 'The Jacobian of an analytical model is the exact gradient',
     'For every analytical model the evaluated Jacobian contains, for each component and each parameter in the order of the '
     'model\'s parameters, exactly the partial derivative of that component\'s value, including all indirect dependence '
     'through interdependent components. A component which does not depend on a parameter has a zero entry, and every entry '
     'has the shape of the component it belongs to.',
     ['inputs', 'programs'], 'All data, parameter values and smooth component functions over the listed model shapes.',
     'Tests compare a few hand-written derivatives at sampled points; a missing chain-rule term vanishes for most of those.',
     [M], ('chain rule over functions', M + ':jacobian_from_model'), ('assembly', M + ':GradientModel.eval_jacobian'))
prop('C03', 'The Hessian of an analytical model is the exact second derivative',
     'For every analytical model the evaluated Hessian contains, for each component and each pair of parameters in the order '
     'of the model\'s parameters, exactly the second partial derivative of that component\'s value, including all indirect '
     'dependence through interdependent components. It is symmetric in the two parameters and every entry has the shape of its component.',
     ['inputs', 'programs'], 'All data, parameter values and smooth component functions over the listed model shapes.',
     'Mixed second derivatives through two levels of substitution are checked by tests only for two small models.',
     [M], ('Hessian from the Jacobian model', M + ':hessian_from_model'), ('assembly', M + ':HessianModel.eval_hessian'))
prop('C04', 'Finite differences reproduce the gradient with sixth-order accuracy',
     'The numerical derivative of a model equals the exact derivative whenever every component is a polynomial of degree at '
     'most six in each parameter, for every step size and every parameter value, including zero and negative ones. Its '
     'entries are ordered by component and then by parameter and have the shape of the component, for analytical and for ODE models.',
     ['inputs'], 'All polynomial coefficients up to degree six, all parameter values, all nonzero step sizes, vector components.',
     'Tests compare with loose tolerances at sampled points, where a wrong stencil weight of a higher-order term is below tolerance.',
     [M], ('central difference stencil', M + ':BaseGradientModel.finite_difference'))
prop('C05', 'The least-squares objective, its gradient and its Hessian are exact',
     'The least-squares objective equals half the sum over all components and data points of the squared residual over the '
     'squared standard deviation, and its gradient and Hessian are the exact first and second derivatives of that number in '
     'the model\'s parameters; asked for per component, it is that sum for each of them. Components without data do not contribute, components may have data of different shapes, and '
     'components that do not depend on the data count once for every data point.',
     ['inputs', 'programs'], 'All data, nonzero standard deviations, parameter values and smooth models over the listed shapes.',
     'Tests check totals for a handful of data sets; sign or weighting errors in one term of the Hessian survive.',
     [O], ('value, gradient, Hessian', O + ':LeastSquares'), ('broadcasting to the data', O + ':BaseObjective'))
prop('C06', 'The vector least-squares objective and its Jacobian are exact',
     'For every data point the vector least-squares objective returns the square root of the sum over components of the '
     'squared residual over squared standard deviation, flattened over the data, so that its squared norm is chi squared. Its Jacobian is '
     'the exact derivative of every such entry in every model parameter wherever the entry is nonzero, with one row per '
     'data point and one column per parameter.',
     ['inputs', 'programs'], 'All data, nonzero standard deviations, parameter values and smooth models over the listed shapes.',
     'Tests only compare fits through MINPACK, which converge despite an inexact Jacobian.',
     [O], ('vector residuals', O + ':VectorLeastSquares'))
prop('C07', 'The log-likelihood objective, its gradient and its Hessian are exact',
     'The log-likelihood objective equals minus the sum over all components and data points of the logarithm of the model, '
     'and its gradient and Hessian are the exact first and second derivatives of that number in the model\'s parameters, for '
     'every positive model value.',
     ['inputs', 'programs'], 'All data, parameter values and positive smooth models over the listed shapes.',
     'Tests fit two distributions; the second derivative terms are compared at a few points only.',
     [O], ('value, gradient, Hessian', O + ':LogLikelihood'))
prop('C08', 'Minimizing a model uses exactly the model, its gradient and its Hessian',
     'The objective used when a scalar function itself is minimized returns the value of that function, and its gradient and '
     'Hessian are exactly those of the function, at every data point if it depends on data. Values passed by position are taken as the free parameters in the order of '
     'the model\'s parameters, and fixed parameters and data keep their own values.',
     ['inputs', 'programs'], 'All parameter values and smooth scalar functions, all subsets of fixed parameters.',
     'Tests minimize a few convex functions and only look at the minimum.',
     [O], ('objective', O + ':MinimizeModel'), ('fixed parameters and data', O + ':BaseObjective'))
prop('C09', 'Data is bound to the right variable, by position or by name',
     'Positional data is bound to the independent variables alphabetically, then the dependent variables alphabetically, then their '
     'standard deviations, and this means the same as passing it by name; every residual then uses the data '
     'and standard deviation of its own variable. A missing standard deviation counts as one for each data point, a single number counts for '
     'each data point of its variable, and standard deviations are regarded as absolute exactly when at least one was given, '
     'unless the user says otherwise. Sequences are accepted wherever arrays are.',
     ['inputs', 'configurations'], 'All data values; all subsets of given, scalar and array standard deviations and missing data, all argument styles.',
     'The number of combinations of components, missing data and standard deviations is larger than the handful of tested calls.',
     [F], ('binding', F + ':TakesData'), ('signature', F + ':Fit._make_signature'))
prop('C10', 'The covariance matrix is the inverse Hessian, scaled when required',
     'The covariance matrix reported by a fit is the inverse of the Hessian of the objective at the reported parameter values; for '
     'least squares with standard deviations that are not absolute it is multiplied by chi squared per degree of freedom, where the '
     'degrees of freedom are the number of dependent data points minus the number of parameters. Without an '
     'invertible analytical Hessian the second derivatives of the model itself are taken as zero, vector least squares uses the Hessian of '
     'least squares, and the matrix is absent when that is singular too or cannot be had. Variances, standard '
     'deviations and covariances of named parameters are the entries belonging to those parameters, and absent without a matrix.',
     ['inputs', 'configurations'], 'All data, standard deviations, reported optima and smooth models of up to three parameters over the listed shapes.',
     'Tests compare with scipy for a few data sets with loose tolerances.',
     [F, R, O], ('covariance', F + ':HasCovarianceMatrix'), ('accessors', R + ':FitResults'))
prop('C11', 'Fit results report the back end\'s answer under the right names',
     'Whatever point a minimizer back end returns, the results report each free parameter with the value found for it and each '
     'fixed parameter with its own value, together with the back end\'s objective value, message and number of iterations. The goodness-of-fit numbers '
     'follow from the data and those values: chi squared, R squared equal to one minus the residual over the total sum of '
     'squares, and likelihood and log-likelihood according to the objective. Evaluating the model with the reported '
     'parameters gives the fitted curve, and the printed results show each of these numbers next to its name.',
     ['inputs', 'configurations'], 'All points, objective values and data returned by the back ends, all subsets of fixed parameters, all minimizers.',
     'Tests only see points which real back ends find for easy problems.',
     [R, Z], ('results', R + ':FitResults'), ('packing', Z + ':ScipyMinimize._pack_output'))
prop('C12', 'Fixed parameters are fixed everywhere and free ones keep their place',
     'A back end is only ever asked to vary the free parameters, starting at their guesses and within their own bounds in parameter order, and '
     'the objective, gradient, Hessian and constraint functions it is given are those of the full problem with fixed '
     'parameters held at their values, restricted to the free parameters. The result gives every fixed parameter its own value and every free one what the back end found for it. Which parameters are fixed is what '
     'their flags say when the fit is made, whatever the model was used for before. This holds for each subset of fixed parameters and for every minimizer.',
     ['inputs', 'configurations'], 'All parameter values and smooth models, all subsets of fixed parameters of up to four, all minimizers.',
     'Tests fix one parameter in one model for some minimizers; interior fixed parameters and Hessians are never looked at.',
     [Z, O], ('restriction', Z + ':GradientMinimizer.resize_jac, HessianMinimizer.resize_hess'), ('free parameters', O + ':BaseObjective'))
prop('C13', 'Bounds reach the back end for the right parameter and choose the method',
     'Every minimizer which supports bounds passes on each free parameter\'s own lower and upper bound, in parameter order and in the '
     'form its back end expects, with open ends unbounded. Without an explicit choice a fit uses the constrained method if there are '
     'constraints, the bounded method if some parameter is bounded or fixed, and otherwise the unbounded one; and '
     'vector least squares for MINPACK, minimization of the function itself if a scalar function without data is given, and least squares in every other case.',
     ['inputs', 'configurations'], 'All bound values, all subsets of bounded, half-bounded and fixed parameters, all minimizers.',
     'Tests use bounds on one or two parameters and mostly check the final fit.',
     [Z, F], ('bounds', Z + ':BoundedMinimizer.bounds, MINPACK.bounds'), ('defaults', F + ':Fit._determine_minimizer, Fit._determine_objective'))
prop('C14', 'A constraint is satisfied for the back end exactly when the user\'s relation is',
     'An equality constraint is handed to the back end as a function that vanishes, and an inequality as a function that is '
     'non-negative, exactly at those parameter values for which the user\'s relation holds, whichever side and direction it '
     'was written with and also when it refers to variables of the model and their data. Each constraint comes with its own gradient '
     'and, where the back end takes one, its own Hessian with respect to the free parameters, and constraints of other kinds are rejected.',
     ['inputs', 'configurations'], 'All parameter values and smooth constraint functions, several constraints at once, all subsets of fixed parameters.',
     'Tests solve a few convex problems and look at the solution, where gradients and multipliers need not be right.',
     [M, Z, F], ('constraint models', M + ':BaseModel.as_constraint'), ('back-end form', Z + ':ScipyConstrainedMinimize.scipy_constraints, TrustConstr.scipy_constraints'))
prop('C15', 'Chained minimizers start each stage where the previous one ended',
     'In a chain every minimizer which takes a starting point starts at the free parameters\' values found by the previous one, the first at the initial guesses; every '
     'stage receives exactly the options addressed to it, and the chain reports the last stage\'s point with the total number '
     'of iterations. Repeated minimizers are addressed as name, name_2 and so on in order.',
     ['histories', 'configurations'], 'All points returned by the stages, chains of up to four stages with repetitions, all subsets of fixed parameters.',
     'Tests run two chains on easy problems, where the starting point of a later stage does not matter.',
     [Z], ('chain', Z + ':ChainedMinimizer.execute'))
prop('C16', 'Global minimizers solve the same problem as local ones',
     'Basin-hopping is given the same objective and start, and for its local minimizer the same method, bounds, constraints and gradient restricted to '
     'the free parameters, as that local minimizer on its own would be, and differential evolution the same objective and bounds, with the user\'s options taking precedence over the defaults. Their results are '
     'reported like those of a local minimizer, and the choice of local minimizer follows the problem unless the user made it; anything but a wrapper of one of scipy\'s minimizers is an error.',
     ['inputs', 'configurations'], 'All points returned by the back ends, bounds, smooth models, local minimizers and user options.',
     'Tests run a few seeds on one or two landscapes.',
     [Z, F], ('basin-hopping', Z + ':BasinHopping.execute'), ('differential evolution', Z + ':DifferentialEvolution.execute'))
prop('C17', 'An ODE model returns the solution at each requested point',
     'Evaluating an ODE model returns for each dependent variable and each requested time, in the order requested, the value at that time of the '
     'solution through the given initial point, whether the times lie before, after, around or exactly at the initial time. '
     'Initial values given as parameters take the value of that parameter, and failure of the integrator is reported as an error.',
     ['inputs', 'configurations'], 'All time points (up to four, any order and side), initial points and solutions of the initial value problem.',
     'Tests use sorted times on one side of the initial time for a few equations.',
     [M], ('splitting at the initial time', M + ':ODEModel.eval_components'))
prop('C18', 'The integrator is given the user\'s differential equations',
     'The right-hand side handed to the ODE integrator gives for each dependent variable the derivative the user wrote for it, at the current '
     'time, state and parameter values, in the same order as the initial values, and the Jacobian handed along is its exact derivative in the state. '
     'The user\'s integrator options are passed on unchanged, with the documented defaults for the rest.',
     ['inputs', 'programs'], 'All times, states, parameter values and smooth right-hand sides of up to three equations.',
     'Tests integrate a few systems; the integrator tolerates a wrong Jacobian silently.',
     [M], ('system', M + ':ODEModel.system, ODEModel.diff_system'))
prop('C19', 'Parameters hold what the user asked for and reject contradictory bounds',
     'A parameter holds exactly the guess, bounds and fixed flag given to it, also when several are created at once with a mix of '
     'single values and sequences, and distinct names never influence each other. A free parameter with its lower bound above its upper bound is rejected '
     'in every style of creation, as is a sequence of the wrong length, and parameters are equal exactly when name, guess, bounds and fixed flag agree.',
     ['inputs', 'configurations'], 'All guess and bound values, all combinations of single values, sequences and defaults.',
     'Tests try seven combinations of concrete numbers.',
     [A, S], ('parameter', A + ':Parameter'), ('several parameters', S + ':parameters'))
prop('C20', 'Pickling, copying and unpickling preserve behaviour',
     'A parameter, variable, model, objective, minimizer or fit result that has been pickled and unpickled behaves as the original: '
     'same attributes and parameter order, same value, gradient and Hessian for the same arguments, same reported results. This also '
     'holds after the original has been evaluated, fixed parameters and constraints included.',
     ['inputs', 'histories'], 'All parameter values, data and reported points; objects pickled before or after use.',
     'Tests compare stored attributes for equality, not the behaviour of the restored objects.',
     [A, M, O, Z, R], ('state', M + ':BaseModel.__getstate__'), ('rebuilding', Z + ':BaseMinimizer.__setstate__'), ('results', R + ':FitResults.__setstate__'))
prop('C21', 'Calling an expression evaluates it',
     'Calling a symbolic expression returns its value at the given arguments: positionally with variables alphabetically and then parameters alphabetically, '
     'or by name in any order, ignoring names it does not contain. Missing arguments are an error, never silently replaced.',
     ['inputs', 'programs'], 'All argument values and smooth expressions of up to five symbols, all argument styles.',
     'Tests call two expressions with distinct types of arguments only.',
     ['symfit/core/operators.py', S], ('call', 'symfit/core/operators.py:call'), ('symbol order', S + ':seperate_symbols'))
prop('C22', 'A cached property is computed once per object and after deletion only',
     'Reading a cached property returns the value computed by the first read of that same object until it is deleted, after which the next read computes it '
     'again; objects and differently named properties never see each other\'s values, deleting a never-read property is harmless, and it cannot be assigned.',
     ['histories'], 'All histories of up to six reads and deletions over two objects and two properties, all computed values.',
     'Tests walk one history.',
     [S], ('cache', S + ':cached_property'))
prop('C23', 'Derived models mean what they are derived from',
     'The negative of a model has exactly the opposite value for each dependent variable and the same value for all others (for a system of differential equations: '
     'the opposite derivatives, with the same initial conditions and integrator settings), a model built with dependencies on another model '
     'evaluates as if the other model\'s components had been substituted, and a constraint model takes the parameters of its model in the same '
     'order. None of these changes the models they are derived from.',
     ['inputs', 'programs'], 'All argument values and smooth component functions over the listed shapes, symbolic and callable.',
     'Tests look at structure for a few models and not at the values.',
     [M], ('negative', M + ':BaseModel.__neg__, BaseNumericalModel.__neg__, ODEModel.__neg__'), ('dependencies', M + ':BaseModel.with_dependencies'))
prop('C24', 'Models and objectives compare equal exactly when they agree',
     'Models are equal when they have the same component variables with equal expressions regardless of writing order, and differ when some '
     'variable or expression differs; objectives are equal when they are of the same type with equal models and the same data, and differ when any data value '
     'noticeably differs, is missing or has another shape. Comparison is symmetric and never raises.',
     ['inputs', 'configurations'], 'All data values, missing data and shapes up to three points; the listed model pairs.',
     'Tests compare a few objectives that differ in one way.',
     [M, O], ('models', M + ':BaseModel.__eq__'), ('objectives', O + ':BaseObjective.__eq__'))
prop('C25', 'The distributions are the textbook densities',
     'The Gaussian, bivariate Gaussian and exponential distributions equal their textbook densities for all arguments and positive scales, the Gaussian for widths of either sign since only its variance matters, so that '
     'they are positive, peak at the mean and, without correlation, the bivariate one factorises into Gaussians.',
     ['inputs'], 'All real arguments, means and rates, positive scales, nonzero Gaussian widths, correlations strictly between minus one and one.',
     'Tests compare single expressions symbolically, not their consequences.',
     ['symfit/distributions.py'], ('densities', 'symfit/distributions.py'))
prop('C26', 'Interactive guesses show and set the parameters the sliders say',
     'Moving any slider sets the guess of exactly the parameter it belongs to, within slider limits taken from that parameter\'s bounds or '
     'else from zero to twice its guess, and every curve then shows the model at those guesses for its own pair of variables, over the data of that pair; with several independent variables it shows the mean over the '
     'other variables with error bars between the chosen percentiles, over a map of the density of the data. For differential equations the curve is the solution from the initial point on. The printed guesses are those of the sliders.',
     ['histories', 'inputs'], 'All slider values in sequences of up to three moves, all smooth models over the listed shapes.',
     'Tests check labels, colours and counts, not that the curves follow the sliders.',
     ['symfit/contrib/interactive_guess/interactive_guess.py'], ('sliders', 'symfit/contrib/interactive_guess/interactive_guess.py:InteractiveGuess'))
prop('C27', 'Fitting leaves the user\'s objects as they were',
     'Creating and executing a fit, whatever point the back end returns, does not change the user\'s parameters (guess, bounds, fixed flag), data arrays, model, constraints or '
     'option dictionaries. Executing the same fit again therefore poses the same problem to the back end, and two fits sharing a model do not influence each other. '
     'When the user gives the free parameters other guesses and bounds, the next execution starts from those guesses and keeps to those bounds.',
     ['histories', 'configurations'], 'All data and returned points; two executions in sequence; all minimizers, with bounds, constraints and fixed parameters.',
     'Tests execute each fit once and drop the inputs.',
     [F, Z, O], ('problem set-up', F + ':Fit'), ('execution', Z + ':ScipyMinimize.execute'))
prop('C28', 'Matrix expressions evaluate to what they denote',
     'Models and expressions built from matrix symbols evaluate elementwise products and powers, matrix products, powers, transposes and inverses to the '
     'corresponding operation on the given arrays, with any number of factors and any nesting, and scalar matrix expressions can be '
     'used in objectives like any other component.',
     ['inputs', 'programs'], 'All entries of two-by-two matrices and length-two vectors, all expression trees of depth two over the listed operators.',
     'Tests use one Hadamard product of two symbols.',
     ['symfit/core/printing.py', S], ('printing', 'symfit/core/printing.py'))
prop('C29', 'Options given to a fit reach the back end unchanged',
     'Every option given to a fit or to a minimizer on its own, with any value, reaches the back end under its own name and unchanged; options which are not given have their documented '
     'defaults, nothing else is passed, and a second execution remembers nothing of the first. A gradient or Hessian, or the name of a scheme for it, given by the user takes the place of the '
     'problem\'s own; otherwise the derivatives the problem has are used, and for those it does not have the back end is told a scheme it accepts or is left to its own default.',
     ['inputs', 'configurations', 'histories'], 'All numbers as option values, every subset of the listed groups of options, ten minimizers, models with and without derivatives.',
     'Tests pass single options to single minimizers.',
     [Z, F], ('minimize', Z + ':ScipyMinimize.execute'), ('least squares', Z + ':MINPACK.execute'), ('derivatives', Z + ':TrustConstr.execute'))
prop('C30', 'A model describes itself truthfully',
     'A model tells which of its symbols are data, components and parameters, which component depends on which and in what order they can be evaluated, whether its components share parameters, '
     'and the bounds of its parameters in their order. Its components are listed alphabetically, and its printed and typeset forms give for each of them exactly the variables and the parameters it depends on, '
     'alphabetically, and an expression which evaluates to that component. The model keeps the definition it was given when the user afterwards changes the mapping it was built from. For differential equations the printed form gives for every derivative the equation the user wrote for it.',
     ['inputs', 'programs'], 'All values of data and parameters, all smooth component functions over the listed shapes, classes and insertion orders, all bounds and guesses.',
     'Tests print two or three models and compare with a fixed text.',
     [M], ('printing', M + ':BaseModel.__str__'), ('structure', M + ':BaseModel._init_from_dict'))

with open('/verif/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
