import json
N = {}
def n(i, runs, oracle, cost, note=None):
    N[i] = dict(runs=runs, oracle=oracle, cost=cost)
    if note: N[i]['note'] = note
n('C01', '`Model.__call__`, `eval_components`, `numerical_components`, `sympy_to_py`, `_init_from_dict`, `ordered_symbols`, `ModelOutput`.',
  'recursive evaluation of the written components (`Shape.values`).', '6 s.')
n('C02', '`jacobian_from_model`, `GradientModel.eval_jacobian`, `jacobian_model`, the compiled derivatives.',
  'forward-mode automatic differentiation (`symx/jets.py`).', '7 s.')
n('C03', '`hessian_from_model`, `HessianModel.eval_hessian`, the compiled second derivatives.', 'second-order automatic differentiation.', '9 s.')
n('C04', '`BaseGradientModel.finite_difference` and `eval_jacobian` of models without analytical derivatives.',
  'the derivative of the polynomial whose coefficients are symbols; exact for degree <= 6 means sixth-order accuracy.', '18 s.')
n('C05', '`LeastSquares.__call__/eval_jacobian/eval_hessian`, `_shape_of_dependent_data`, and the model below.', 'the sum over data points as a jet.', '10 s.')
n('C06', '`VectorLeastSquares`.', 'per-entry root of the sum of squares as a jet.', '8 s.')
n('C07', '`LogLikelihood`.', 'sum of logarithms as a jet.', '6 s.')
n('C08', '`MinimizeModel`.', 'jets of the function, for every data point.', '5 s.')
n('C09', '`Fit.__init__`, `_make_signature`, `TakesData.__init__`, `_determine_objective`, data properties.',
  'the residuals written out with every datum used for the variable it was given for.', '7 s.')
n('C10', '`Fit.execute`, `covariance_matrix`, `_covariance_matrix`, `HessApproximation`, `variance/covariance/stdev`.',
  'the inverse (adjugate over determinant) of the jet Hessian, times the variance where sigmas are not absolute.', '35 s.')
n('C11', '`_pack_output` of every minimizer, `FitResults`, `r_squared`, `gof_qualifiers`.', 'the definitions of the quantities, at the point the back end returned.', '10 s.')
n('C12', '`resize_jac`, `resize_hess`, `_invariant_kwargs`, `list2kwargs`, `_pack_output`, constraint Jacobians.', 'the jets restricted to the free parameters.', '11 s.')
n('C13', '`bounds` of models and minimizers, `MINPACK.bounds`, `_determine_minimizer`.', 'the (min, max) of every free parameter in order.', '5 s.')
n('C14', '`as_constraint`, `with_dependencies`, `scipy_constraints` of SLSQP, COBYLA, TrustConstr.',
  'sign of lhs - rhs of the relation; satisfied for the back end iff the relation holds (both directions put to the solver), gradients by jets.', '12 s.')
n('C15', '`ChainedMinimizer.execute/_make_signature`, stages of nine minimizers.', 'start of stage k+1 = point returned at stage k; options by documented name.', '22 s.')
n('C16', '`DifferentialEvolution.execute`, `BasinHopping.execute/__init__`, `Fit._init_minimizer`.', 'the same objective, derivative, bounds and constraints as a local minimizer gets.', '24 s.')
n('C17', '`ODEModel.eval_components/__call__`.', 'the value of one arbitrary solution curve at each requested time.', '13 s.')
n('C18', '`ODEModel.system/diff_system/_ncomponents/_njacobian`, `finite_difference` on ODE models.', 'the user\'s right-hand sides and their partial derivatives at arbitrary states.', '7 s.')
n('C19', '`Parameter.__new__/__init__/__eq__`, `parameters()`, `variables()`.', 'what was passed; acceptance iff min <= max or fixed.', '7 s.')
n('C20', '`__getstate__/__setstate__` of arguments, models, objectives, minimizers, results; `copy`, `deepcopy`, `pickle`.', 'the original object.', '45 s.')
n('C21', '`operators.call`, `seperate_symbols`, `sympy_to_py`.', 'evaluation by hand.', '6 s.')
n('C22', '`cached_property`.', 'a dictionary of cached values stepped along with the history.', '6 s.')
n('C23', '`__neg__`, `with_dependencies`, `as_constraint`, `jacobian_model`, `hessian_model`.', 'the definition of the derived quantity evaluated for the original.', '14 s.')
n('C24', '`__eq__` of models, numerical models, objectives, parameters.', 'component-wise comparison decided by the solver.', '38 s.')
n('C25', '`symfit.distributions` called as expressions and within models.', 'the textbook formula.', '4 s.')
n('C26', '`InteractiveGuess`, `Strategy2D`, `StrategynD`.', 'model values at the drawn points for the slider values, percentiles of the grid.', '30 s.')
n('C27', '`Fit`, every minimizer\'s `execute`, models, objectives.', 'a deep snapshot of everything the user passed in.', '22 s.')
n('C28', '`printing.py`, `sympy_to_py` and models of matrix expressions.', 'entry-wise evaluation by the book.', '10 s.')
n('C29', '`Fit.execute`, every minimizer\'s `execute`, `TrustConstr._get_jacobian_hessian_strategy`.', 'the options as given over the documented defaults.', '9 s.')
n('C30', '`__str__`, `_repr_latex_`, iteration, length, `bounds`, `shared_parameters`, `params`, variables of the model classes; `ODEModel.__str__`.',
  'the printed text parsed back into an expression and evaluated; the definitions the model was given.', '11 s.')
json.dump(N, open('/verif/design/properties.json', 'w'), indent=1)
