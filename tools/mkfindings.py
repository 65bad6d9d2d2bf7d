"""Write known_findings.json (run by hand; no check writes it)."""
import json, subprocess
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
FIXED = {
 'covariance returns None when': ('C10', 'covariance(p1, p2) raised a TypeError where there was no covariance matrix, while variance and stdev answered None'),
 'keep the full sub-matrix': ('C12', 'with fixed parameters the Hessian given to trust-constr was its own diagonal block selection of the wrong shape'),
 'only pass the free parameters on': ('C15', 'a chain handed the values of fixed parameters on as initial guesses, so the next minimizer got too many'),
 'give every TrustConstr constraint': ('C14', 'every NonlinearConstraint used the Hessian of the last constraint (late binding closure)'),
 'do not write into the option dicts': ('C27', "TrustConstr and BasinHopping wrote their defaults into the user's own options / minimizer_kwargs dict"),
 'always set the bounds of a fixed': ('C19', 'a fixed Parameter with min above max was left without min and max attributes'),
 'compare objectives with different': ('C24', 'comparing objectives whose data differ in shape or are None raised or compared wrongly'),
 'accept a zero dimensional': ('C09', 'a zero-dimensional array as standard deviation raised'),
 'draw the error bars': ('C26', 'the error bars were drawn to mean +/- percentile instead of at the percentiles'),
 'return the solution of an ODEModel': ('C17', 'requested times in decreasing or mixed order, or repeated, came back in sorted order or with the wrong length'),
 'negate the components': ('C23', '-model of a CallableNumericalModel raised'),
 'print every factor': ('C28', 'Hadamard products of more than two factors lost factors, nested ones lost parentheses'),
 'validate all combinations': ('C19', 'parameters() with a mix of single values and sequences accepted contradictory bounds or wrong lengths'),
 'apply the chain rule': ('C02', 'the Jacobian of models with three or more levels of interdependent components raised NameError'),
 'expand constant derivatives': ('C05', 'with data of shape (number of parameters, 1) gradient and Hessian of a component independent of the data were wrong'),
 'return the least-squares objective per': ('C05', 'flatten_components=False raised TypeError'),
 'take the parameters of a minimizer': ('C11', 'a minimizer used on its own with parameters not sorted by name reported the values under the wrong names'),
 'give back ends a proper gradient': ('C14', 'the gradient of a constraint with a value for each data point was handed over transposed (SLSQP, trust-constr crashed)'),
 'accept a lesser-or-equal': ('C14', 'a <= relation given to a minimizer directly raised KeyError'),
 'compare models with models of another kind': ('C24', 'comparing an analytical with a numerical model, or a model with None, raised'),
 'print the name of a symbol': ('C21', 'expressions and models with a parameter or variable called N, S, gamma, beta, ... (names sympy knows) could not be evaluated'),
 'keep the constraints, derivatives and options of the minimizer': ('C20', 'the minimizer of an unpickled fit result had lost its constraints, gradient and options, so running it again solved another problem'),
 'keep the integrator settings': ('C23', '-model of an ODEModel dropped the integrator settings of the model'),
 'components on which no other depends': ('C09', 'data for a component used by no other but on a shallower level than the deepest one was refused, as if the component were interdependent'),
 'take the chain rule into account in Model.hessian': ('C03', 'Model.hessian differentiated the entries of the Jacobian as if the components they refer to were constants'),
 'evaluate an ODEModel at an array': ('C17', 'an array of times which all equal the initial time raised AttributeError'),
}
out = []
used = set()
for line in log:
    h, msg = line.split(' ', 1)
    for k, (prop, text) in FIXED.items():
        if msg.startswith('fix: ') and k in msg:
            used.add(k)
            out.append(dict(property=prop, status='fixed', commit=h, text='fixed: property=%s %s %s' % (prop, h, text)))
assert used == set(FIXED), set(FIXED) - used
unlisted = [l for l in log if ' fix:' in l and not any(k in l for k in FIXED)]
assert not unlisted, unlisted
KNOWN = [
 dict(property='C10', scenario='dof/same shape', label='dof', status='known',
      text='components with data of the same shape are counted once in the degrees of freedom (data_shapes is a set), so '
           'covariances with non-absolute sigmas are scaled by too small a number of points; correcting it breaks the '
           'existing test test_vector_parameter_error'),
]
json.dump(dict(findings=KNOWN + out[::-1]), open('/verif/known_findings.json', 'w'), indent=1)
