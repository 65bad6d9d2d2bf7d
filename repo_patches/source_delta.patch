From 796526d5ac6668d0bfd58786cf022a86f29e2656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 01/26] fix: keep the full sub-matrix of the Hessian when
 parameters are fixed

---
 symfit/core/minimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index ba79f6a..1ecd37e 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -187,7 +187,7 @@ class HessianMinimizer(GradientMinimizer):
             # Make two dimensional, corresponding to a scalar function.
             out = np.atleast_2d(np.squeeze(out))
             mask = [p not in self._fixed_params for p in self.parameters]
-            return np.atleast_2d(out[mask, mask])
+            return np.atleast_2d(out[np.ix_(mask, mask)])
         return resized
 
 
-- 
2.43.0


From 32c8306911cfba1261cdfe3758d34c4dca161d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 02/26] fix: only pass the free parameters on between chained
 minimizers

---
 symfit/core/minimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 1ecd37e..54ff141 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -261,7 +261,7 @@ class ChainedMinimizer(BaseMinimizer):
         for minimizer, kwargs in zip(self.minimizers, bound_arguments.arguments.values()):
             minimizer.initial_guesses = next_guess
             ans = minimizer.execute(**kwargs)
-            next_guess = list(ans.params.values())
+            next_guess = [ans.value(p) for p in self.params]
             answers.append(ans)
         final = answers[-1]
         # TODO: Compile all previous results in one, instead of just the
-- 
2.43.0


From 5d86e8bc75de84d573a2275ac1e792b5ee99dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 03/26] fix: give every TrustConstr constraint its own Hessian

---
 symfit/core/minimizers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 54ff141..4dcb3c5 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -588,7 +588,9 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
             }
             # If None is given to NonlinearConstraint it'll throw a hissy fit.
             if con['hess'] is not None:
-                nonlinearconstr_kwargs['hess'] = lambda x, v: con['hess'](x) * v
+                nonlinearconstr_kwargs['hess'] = (
+                    lambda x, v, hess=con['hess']: hess(x) * v
+                )
             if con['jac'] is not None:
                 nonlinearconstr_kwargs['jac'] = con['jac']
             tc_con = NonlinearConstraint(**nonlinearconstr_kwargs)
-- 
2.43.0


From e082bec2f5b66e607c6e1e3e60e1b76a8c4622ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 04/26] fix: do not write into the option dicts provided by the
 user

---
 symfit/core/minimizers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 4dcb3c5..fb43813 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -598,8 +598,8 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
         return out
 
     def execute(self, *, jacobian=None, hessian=None, options=None, **minimize_options):
-        if options is None:
-            options = {}
+        # Copy, since the options belong to the user.
+        options = {} if options is None else dict(options)
         # Our Jacobians are dense, and apparently we need to explicitely
         # tell this.
         options['sparse_jacobian'] = False
@@ -719,8 +719,10 @@ class BasinHopping(ScipyMinimize, GlobalMinimizer):
             :func:`scipy.optimize.basinhopping`.
         :return: :class:`symfit.core.fit_results.FitResults`
         """
-        if 'minimizer_kwargs' not in minimize_options:
-            minimize_options['minimizer_kwargs'] = {}
+        # Copy, since the minimizer_kwargs belong to the user.
+        minimize_options['minimizer_kwargs'] = dict(
+            minimize_options.get('minimizer_kwargs') or {}
+        )
 
         if 'method' not in minimize_options['minimizer_kwargs']:
             # If no minimizer was set by the user upon execute, use local_minimizer
-- 
2.43.0


From cf19d442ea108ca89d17f91b15a8bc0ede53f17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 05/26] fix: always set the bounds of a fixed Parameter

---
 symfit/core/argument.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index ef0bba0..2557b90 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -119,9 +119,8 @@ class Parameter(Argument):
             if not self.fixed:
                 raise ValueError('The value of `min` should be less than or'
                                  ' equal to the value of `max`.')
-        else:
-            self.min = min
-            self.max = max
+        self.min = min
+        self.max = max
 
     def __eq__(self, other):
         """
-- 
2.43.0


From f1b78f61db33f91347de393512bcda50846d9e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 06/26] fix: compare objectives with different or incompatible
 data

---
 symfit/core/objectives.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 89255d6..bbbf39c 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -158,14 +158,17 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
             return False
 
         # Check if the data is also equivalent
+        if self.data.keys() != other.data.keys():
+            return False
         for key, value in self.data.items():
+            if np.shape(other.data[key]) != np.shape(value):
+                return False
             try:
                 equal = np.allclose(other.data[key], value)
             except TypeError:
                 equal = other.data[key] == value
-            finally:
-                if not equal:
-                    return False
+            if not equal:
+                return False
         return True
 
     def _sanity_checking(self):
-- 
2.43.0


From 7da60e2728bdcc1a0f2678d86859e8408428e0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 07/26] fix: accept a zero dimensional array as constant sigma

---
 symfit/core/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index 3cbcadb..5100243 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -98,7 +98,7 @@ class TakesData(object):
                 if self.data[var] is not None and self.data[sigma] is None:
                     self.data[sigma] = np.ones(self.data[var].shape)
                 elif self.data[var] is not None:
-                    self.data[sigma] *= np.ones(self.data[var].shape)
+                    self.data[sigma] = self.data[sigma] * np.ones(self.data[var].shape)
 
         # If user gives a preference, use that. Otherwise, use True if at least one sigma is
         # given, False if no sigma is given.
-- 
2.43.0


From 867182875c190458b615d8561a2cb7264c162335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 08/26] fix: draw the error bars of InteractiveGuess at the
 percentiles themselves

---
 symfit/contrib/interactive_guess/interactive_guess.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index 370d7c0..0963dc8 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -345,8 +345,7 @@ class StrategynD:
         y_plot_error = np.array(y_plot_error)
 
         xs = np.column_stack((x_plot_data, x_plot_data))
-        yerr = y_plot_error + y_plot_data[:, np.newaxis]
-        y_segments = np.dstack((xs, yerr))
+        y_segments = np.dstack((xs, y_plot_error))
         plot_line, caps, error_lines = self.ig._plots[(indep_var, dep_var)]
         plot_line.set_data(x_plot_data, y_plot_data)
         error_lines[1].set_segments(y_segments)
-- 
2.43.0


From cb29bf54d274e656a6c393aa31384bd2b99e723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 09/26] fix: return the solution of an ODEModel in the order of
 the requested points

---
 symfit/core/models.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index dbbe855..cebb2c9 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1169,6 +1169,9 @@ class ODEModel(BaseGradientModel):
             if t_like == t_initial:  # When evaluated only at the initial condition, we know the answer.
                 return np.atleast_2d(initial_dependent).T
             t_like = np.array([t_like]) # Allow evaluation at one point.
+        # The integrator needs strictly increasing points, so integrate over the
+        # sorted unique points and restore the requested order at the end.
+        t_like, t_order = np.unique(t_like, return_inverse=True)
 
         # The strategy is to split the time axis in a part above and below the
         # initial value, and to integrate those seperately. At the end we rejoin them.
@@ -1231,12 +1234,12 @@ class ODEModel(BaseGradientModel):
 
         if t_initial in t_like:
             # The user also requested to know the value at t_initial, so keep it.
-            return ans
+            return ans[:, t_order]
         else:
             # The user didn't ask for the value at t_initial, so exclude it.
             # (t_total contains all the t-points used for the integration,
             # and so is t_like with t_initial inserted at the right position).
-            return ans[:, t_total != t_initial]
+            return ans[:, t_total != t_initial][:, t_order]
 
     def __call__(self, *args, **kwargs):
         """
-- 
2.43.0


From 8f180c0f94167f3d4f634358f2f0a16cbb851b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 10/26] fix: negate the components of numerical models

---
 symfit/core/models.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index cebb2c9..6f32f5c 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -617,10 +617,17 @@ class BaseNumericalModel(BaseModel):
         :return: new model with opposite sign. Does not change the model in-place,
             but returns a new copy.
         """
-        new_model_dict = {}
-        for key, callable_expr in self.model_dict.values():
-            new_model_dict[key] = lambda *args, **kwargs: - callable_expr(*args, **kwargs)
-        return self.__class__(new_model_dict)
+        def negative(func):
+            return lambda *args, **kwargs: - func(*args, **kwargs)
+
+        new_model_dict = self.model_dict.copy()
+        for var in self.dependent_vars:
+            expr = new_model_dict[var]
+            new_model_dict[var] = (
+                - expr if isinstance(expr, sympy.Basic) else negative(expr)
+            )
+        return self.__class__(new_model_dict,
+                              connectivity_mapping=self.connectivity_mapping)
 
     @property
     def shared_parameters(self):
-- 
2.43.0


From cd5b38ea2548c1bfea326fad4b68902af3a15bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 11/26] fix: print every factor of a Hadamard product or power,
 in parentheses

---
 symfit/core/printing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symfit/core/printing.py b/symfit/core/printing.py
index 487284c..3069213 100644
--- a/symfit/core/printing.py
+++ b/symfit/core/printing.py
@@ -41,8 +41,8 @@ def _print_Inverse(self, printer):
 Inverse._numpycode = _print_Inverse
 
 def _print_HadamardProduct(self, printer):
-    return "%s*%s" % (printer.doprint(self.args[0]),
-                      printer.doprint(self.args[1]))
+    return "(%s)" % "*".join("(%s)" % printer.doprint(arg)
+                             for arg in self.args)
 HadamardProduct._numpycode = _print_HadamardProduct
 
 if pkg_resources.parse_version(pkg_resources.get_distribution('sympy').version) \
@@ -50,8 +50,8 @@ if pkg_resources.parse_version(pkg_resources.get_distribution('sympy').version)
     from sympy import HadamardPower
 
     def _print_HadamardPower(self, printer):
-        return "%s**%s" % (printer.doprint(self.args[0]),
-                          printer.doprint(self.args[1]))
+        return "((%s)**(%s))" % (printer.doprint(self.args[0]),
+                                 printer.doprint(self.args[1]))
     HadamardPower._numpycode = _print_HadamardPower
 
 def _print_Idx(self, printer):
-- 
2.43.0


From 4e1f1b9e8322262d7b4c2c7a687d8137c6de5dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 12/26] fix: validate all combinations of sequences and single
 values in parameters()

---
 symfit/core/support.py | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/symfit/core/support.py b/symfit/core/support.py
index 58a4376..d320b03 100644
--- a/symfit/core/support.py
+++ b/symfit/core/support.py
@@ -9,6 +9,7 @@ designed for users.
 """
 from __future__ import print_function
 from collections import OrderedDict
+from itertools import islice
 import warnings
 import re
 import keyword
@@ -210,27 +211,35 @@ def parameters(names, **kwargs):
         else:
             sequences[attr] = kwargs.pop(attr)
 
-    if 'min' in sequences and 'max' in sequences:
-        for min, max in zip(sequences['min'], sequences['max']):
-            if min > max:
-                raise ValueError('The value of `min` should be less than or'
-                                 ' equal to the value of `max`.')
-
-    params = symbols(names, cls=Parameter, seq=True, **kwargs)
+    n_params = len(symbols(names, seq=True))
     for key, values in sequences.items():
         try:
-            assert len(values) == len(params)
-        except AssertionError:
+            len(values)
+        except TypeError:
+            # Iterator do not have a `len` but are allowed.
+            sequences[key] = values = list(islice(values, n_params))
+        if len(values) != n_params:
             raise ValueError(
                 '`len` of keyword-argument `{}` does not match the number of '
-                '`Parameter`s created.'.format(attr)
+                '`Parameter`s created.'.format(key)
             )
-        except TypeError:
-            # Iterator do not have a `len` but are allowed.
-            pass
-        finally:
-            for param, value in zip(params, values):
-                setattr(param, key, value)
+
+    if 'min' in sequences or 'max' in sequences:
+        # A bound can also be given as a single value for all parameters.
+        lows, highs, fixeds = [
+            sequences.get(attr, n_params * [kwargs.get(attr)])
+            for attr in ['min', 'max', 'fixed']
+        ]
+        for low, high, fixed in zip(lows, highs, fixeds):
+            if (low is not None and high is not None and low > high
+                    and not fixed):
+                raise ValueError('The value of `min` should be less than or'
+                                 ' equal to the value of `max`.')
+
+    params = symbols(names, cls=Parameter, seq=True, **kwargs)
+    for key, values in sequences.items():
+        for param, value in zip(params, values):
+            setattr(param, key, value)
     return params
 
 
-- 
2.43.0


From 76593396f48bc217dff87b41258f621a41c20194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 13/26] fix: apply the chain rule through any number of
 interdependent variables

---
 symfit/core/models.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 6f32f5c..982ba38 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1290,6 +1290,29 @@ def _partial_subs(func, func2vars):
     else:
         return func.xreplace(func2vars)
 
+def _vars_as_total_functions(model):
+    """
+    Similar to ``model.vars_as_functions``, but with every variable as a
+    function of just the independent variables and parameters. Differentiating
+    such a function to a parameter is therefore a total derivative, no matter
+    how many other variables are in between.
+
+    :param model: Any symbolical model-type.
+    :return: e.g. ``{y: y(x, a), z: z(x, a)}`` for ``{y: a * x, z: y**2 + a}``.
+    """
+    key = lambda arg: [isinstance(arg, Parameter), str(arg)]
+    dependencies, vars2functions = {}, {}
+    for symbol in model.ordered_symbols:
+        if symbol in model.connectivity_mapping:
+            dependencies[symbol] = set().union(
+                *(dependencies.get(dependency, {dependency})
+                  for dependency in model.connectivity_mapping[symbol])
+            )
+            vars2functions[symbol] = sympy.Function(symbol.name)(
+                *sorted(dependencies[symbol], key=key)
+            )
+    return vars2functions
+
 def jacobian_from_model(model, as_functions=False):
     """
     Build a :class:`~symfit.core.models.CallableModel` representing the Jacobian
@@ -1306,12 +1329,14 @@ def jacobian_from_model(model, as_functions=False):
         of ``model``.
     """
     # Inverse dict so we can turn functions back into vars in the end
-    functions_as_vars = dict((v, k) for k, v in model.vars_as_functions.items())
+    vars_as_functions = _vars_as_total_functions(model)
+    functions_as_vars = dict((v, k) for k, v in vars_as_functions.items())
     # Create the jacobian components. The `vars` here in the model_dict are
     # always of the type D(y, a), but the righthand-side might still contain
     # functions instead of vars depending on the value of `as_functions`.
     jac = {}
-    for func, expr in model.function_dict.items():
+    for var, func in vars_as_functions.items():
+        expr = model[var].xreplace(vars_as_functions)
         for param in model.params:
             target = D(func, param)
             dfdp = expr.diff(param)
-- 
2.43.0


From 4908146e6efd1df6458a10d2380b4e2f8d288020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 14/26] fix: expand constant derivatives also when they have
 the shape of the data

---
 symfit/core/objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index bbbf39c..ab102d5 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -114,7 +114,7 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
         for dep_var, component in zip(self.model.dependent_vars, model_output):
             dep_data = self.dependent_data.get(dep_var, None)
             if dep_data is not None:
-                if dep_data.shape == component.shape:
+                if dep_data.shape == component.shape[param_level:]:
                     shaped_result.append(component)
                 else:
                     # Add extra dimensions to the component if needed.
-- 
2.43.0


From dd973d3a09ef8e3caedd33ecfe671094bd2a26dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 15/26] fix: return the least-squares objective per component
 when asked to

---
 symfit/core/objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index ab102d5..25abdd9 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -320,7 +320,7 @@ class LeastSquares(HessianObjective):
                 chi2[index] += np.sum(
                     (dep_var_value - dep_data) ** 2 / sigma ** 2
                 )
-        chi2 = np.sum(chi2) if flatten_components else chi2
+        chi2 = np.sum(chi2) if flatten_components else np.array(chi2)
         return chi2 / 2
 
     def eval_jacobian(self, ordered_parameters=[], **parameters):
-- 
2.43.0


From a22dc4308b64bed41a9b0f2a15b636b322fdf3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 16/26] fix: take the parameters of a minimizer in the order of
 its objective

---
 symfit/core/minimizers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index fb43813..6b2a2d9 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -30,8 +30,11 @@ class BaseMinimizer(object):
     def __init__(self, objective, parameters):
         """
         :param objective: Objective function to be used.
-        :param parameters: List of :class:`~symfit.core.argument.Parameter` instances
+        :param parameters: List of :class:`~symfit.core.argument.Parameter` instances.
+            Objectives take the values of their parameters in the order of their
+            models, which is sorted by name, so this order is used throughout.
         """
+        parameters = sorted(parameters, key=lambda p: p.name)
         self.parameters = parameters
         self._fixed_params = [p for p in parameters if p.fixed]
         self.objective = self._baseobjective_from_callable(objective)
-- 
2.43.0


From 91998fb371bfd93d213d7b86ba805071a06722a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 17/26] fix: give back ends a proper gradient and Hessian for
 constraints on every data point

---
 symfit/core/minimizers.py | 40 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 6b2a2d9..76cd452 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -408,11 +408,28 @@ class ScipyGradientMinimize(ScipyMinimize, GradientMinimizer):
             # Only if the model has a jacobian, does it make sense to pass one
             # to the minimizer
             if hasattr(con['fun'].model, 'eval_jacobian'):
-                con['jac'] = self.resize_jac(con['fun'].eval_jacobian)
+                con['jac'] = self.resize_constraint_jac(con['fun'].eval_jacobian)
             else:
                 con['jac'] = None
         return cons
 
+    def resize_constraint_jac(self, func):
+        """
+        Same as :meth:`resize_jac`, for a constraint which might have a value
+        for every data point.
+
+        :param func: Jacobian function of the constraint.
+        :return: Gradient in the free parameters, or for multiple values a
+            matrix with a row for every value.
+        """
+        @wraps(func)
+        def resized(*args, **kwargs):
+            out = np.reshape(func(*args, **kwargs), (len(self.parameters), -1))
+            mask = [p not in self._fixed_params for p in self.parameters]
+            out = out[mask].T
+            return out[0] if len(out) == 1 else out
+        return resized
+
 
 class ScipyBoundedMinimizer(ScipyMinimize, BoundedMinimizer):
     """
@@ -441,11 +458,28 @@ class ScipyHessianMinimize(ScipyGradientMinimize, HessianMinimizer):
             # Only if the model has a hessian, does it make sense to pass one
             # to the minimizer
             if hasattr(con['fun'].model, 'eval_hessian'):
-                con['hess'] = self.resize_hess(con['fun'].eval_hessian)
+                con['hess'] = self.resize_constraint_hess(con['fun'].eval_hessian)
             else:
                 con['hess'] = None
         return cons
 
+    def resize_constraint_hess(self, func):
+        """
+        Same as :meth:`resize_hess`, for a constraint which might have a value
+        for every data point.
+
+        :param func: Hessian function of the constraint.
+        :return: Hessian in the free parameters, the last axis being that of the
+            values.
+        """
+        @wraps(func)
+        def resized(*args, **kwargs):
+            n_params = len(self.parameters)
+            out = np.reshape(func(*args, **kwargs), (n_params, n_params, -1))
+            mask = [p not in self._fixed_params for p in self.parameters]
+            return out[np.ix_(mask, mask)]
+        return resized
+
 
 class ScipyConstrainedMinimize(ScipyMinimize, ConstrainedMinimizer):
     """
@@ -592,7 +626,7 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
             # If None is given to NonlinearConstraint it'll throw a hissy fit.
             if con['hess'] is not None:
                 nonlinearconstr_kwargs['hess'] = (
-                    lambda x, v, hess=con['hess']: hess(x) * v
+                    lambda x, v, hess=con['hess']: np.dot(hess(x), v)
                 )
             if con['jac'] is not None:
                 nonlinearconstr_kwargs['jac'] = con['jac']
-- 
2.43.0


From c03f5a9634b0dfbd7b3a6032911b21cdd5bfed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 18/26] fix: accept a lesser-or-equal relation given to a
 minimizer directly

---
 symfit/core/minimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 76cd452..9d8759a 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -519,10 +519,10 @@ class ScipyConstrainedMinimize(ScipyMinimize, ConstrainedMinimizer):
                 constraint_type = constraint.constraint_type
                 constraint = MinimizeModel(constraint, data=self.objective.data)
             elif isinstance(constraint, sympy.Rel):
-                constraint_type = constraint.__class__
                 constraint = self.objective.model.__class__.as_constraint(
                     constraint, self.objective.model
                 )
+                constraint_type = constraint.constraint_type
                 constraint = MinimizeModel(constraint, data=self.objective.data)
             else:
                 raise TypeError('Unknown type for a constraint.')
-- 
2.43.0


From 3bbe88910bb9740e614adf901668901c559292e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 19/26] fix: evaluate an ODEModel at an array holding nothing
 but the initial point

---
 symfit/core/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 982ba38..ed33978 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1224,7 +1224,10 @@ class ODEModel(BaseGradientModel):
             **self.integrator_kwargs
         ) if len(t_smaller) > 1 else None
 
-        if ans_smaller is not None and ans_bigger is not None:
+        if ans_smaller is None and ans_bigger is None:
+            # Only the initial point was requested, for which we know the answer.
+            ans = np.atleast_2d(initial_dependent).T
+        elif ans_smaller is not None and ans_bigger is not None:
             if not ans_smaller.success:
                 raise ODEError(ans_smaller.message)
             elif not ans_bigger.success:
-- 
2.43.0


From f7759975dbb87420b2340f035193d272b8c1110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 20/26] fix: print the name of a symbol as is, also when sympy
 knows that name

---
 symfit/core/argument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index 2557b90..9dac540 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -73,7 +73,7 @@ class Argument(Symbol):
         return state
 
     def _sympystr(self, printer, *args, **kwargs):
-        return printer.doprint(self.name)
+        return self.name
 
     _lambdacode = _sympystr
     _numpycode = _sympystr
-- 
2.43.0


From 8c0a86c9782fa31c9fd8032aed3a340fa9f6cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 21/26] fix: compare models with models of another kind and
 with other objects

---
 symfit/core/models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index ed33978..2f8c3dc 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -287,7 +287,10 @@ class BaseModel(Mapping):
         :param other: Instance of ``Model``.
         :return: bool
         """
-        if len(self) is not len(other):
+        if not isinstance(other, Mapping) or isinstance(other, BaseNumericalModel):
+            # Leave it to the other object.
+            return NotImplemented
+        if len(self) != len(other):
             return False
         else:
             for var_1, var_2 in zip(self, other):
@@ -603,6 +606,8 @@ class BaseNumericalModel(BaseModel):
         self._connectivity_mapping = value
 
     def __eq__(self, other):
+        if not isinstance(other, BaseModel):
+            return NotImplemented
         if self.connectivity_mapping != other.connectivity_mapping:
             return False
 
-- 
2.43.0


From 19efc66f46a06b311af62254ab411a2349dfabe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:11 +0000
Subject: [PATCH 22/26] fix: keep the constraints, derivatives and options of
 the minimizer of a pickled FitResults

---
 symfit/core/fit_results.py | 30 ------------------------------
 1 file changed, 30 deletions(-)

diff --git a/symfit/core/fit_results.py b/symfit/core/fit_results.py
index ad41ecb..009a516 100644
--- a/symfit/core/fit_results.py
+++ b/symfit/core/fit_results.py
@@ -189,36 +189,6 @@ class FitResults(object):
                 return False
         else: return True
 
-    def __getstate__(self):
-        state = self.__dict__.copy()
-
-        if hasattr(state['minimizer'], 'minimizers'):  # ChainedMinimizer
-            # ToDo: when py27 support is droppend at least this can be replaced
-            #       with just pickling the instance, perhaps also for other
-            #       minimizers.
-            minimizer_cls = [type(state['minimizer'])]
-            minimizer_cls.extend(
-                [type(minimizer) for minimizer in state['minimizer'].minimizers]
-            )
-        else:
-            minimizer_cls = type(state['minimizer'])
-        state['minimizer'] = (minimizer_cls,
-                              state['minimizer'].objective,
-                              state['minimizer'].parameters)
-        return state
-
-    def __setstate__(self, state):
-        min_class, objective, parameters = state['minimizer']
-        try:
-            # If min_class is iterable, initiate a ChainedMinimizer.
-            minimizers = [cls(objective, parameters) for cls in min_class[1:]]
-        except TypeError:
-            state['minimizer'] = min_class(objective, parameters)
-        else:
-            state['minimizer'] = min_class[0](objective, parameters,
-                                              minimizers=minimizers)
-        self.__dict__.update(state)
-
     def _gof_qualifiers(self):
         """
         Based on the objective used, we can infer certain goodness of fit
-- 
2.43.0


From 508267aca60e0e59cde911d7b853199da68942ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:26 +0000
Subject: [PATCH 23/26] fix: components on which no other depends are
 dependent, on whichever level they are

---
 symfit/core/models.py | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 2f8c3dc..4add3d3 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -233,20 +233,16 @@ class BaseModel(Mapping):
             # This is the case for BaseNumericalModel's
             connectivity_mapping = init_kwargs.get('connectivity_mapping',
                                                    model.connectivity_mapping)
-            for var in model.independent_vars:
-                if var in dependency_model:
-                    # Add this var and all its dependencies.
-                    # Walk over all possible dependencies of this
-                    # variable until we no longer have dependencies.
-                    for symbol in dependency_model.ordered_symbols:
-                        # Not everything in ordered_symbols is a key of
-                        # model, think e.g. parameters
-                        if symbol in dependency_model:
-                            if symbol not in model_dict:
-                                model_dict[symbol] = dependency_model[symbol]
-                                connectivity_mapping[symbol] = dependency_model.connectivity_mapping[symbol]
-                        if symbol == var:
-                            break
+            # Add the variables which are components of dependency_model, and
+            # walk over all their dependencies until we no longer have any.
+            # Not every dependency is a key of model, think e.g. parameters.
+            required = list(model.independent_vars)
+            while required:
+                symbol = required.pop()
+                if symbol in dependency_model and symbol not in model_dict:
+                    model_dict[symbol] = dependency_model[symbol]
+                    connectivity_mapping[symbol] = dependency_model.connectivity_mapping[symbol]
+                    required.extend(dependency_model.connectivity_mapping[symbol])
             # connectivity_mapping in init_kwargs has been updated if it was
             # present, since python is pass by reference. If it wasn't present,
             # we are dealing with a type of model that will build its own
@@ -325,15 +321,16 @@ class BaseModel(Mapping):
         sort_func = lambda symbol: symbol.name
         self.model_dict = OrderedDict(sorted(model_dict.items(),
                                              key=lambda i: sort_func(i[0])))
-        # Everything at the bottom of the toposort is independent, at the top
-        # dependent, and the rest interdependent.
+        # Everything at the bottom of the toposort is independent. The rest is
+        # interdependent when another component depends on it, and dependent
+        # otherwise, no matter on which level of the toposort it is.
         ordered = list(toposort(self.connectivity_mapping))
         independent = sorted(ordered.pop(0), key=sort_func)
-        self.dependent_vars = sorted(ordered.pop(-1), key=sort_func)
-        self.interdependent_vars = sorted(
-            [item for items in ordered for item in items],
-            key=sort_func
-        )
+        required = set().union(*self.connectivity_mapping.values())
+        components = sorted([item for items in ordered for item in items],
+                            key=sort_func)
+        self.dependent_vars = [var for var in components if var not in required]
+        self.interdependent_vars = [var for var in components if var in required]
         # `independent` contains both params and vars, needs to be separated
         self.independent_vars = [s for s in independent if
                                  not isinstance(s, Parameter) and not s in self]
-- 
2.43.0


From 21ce2211e86d296822b74c53ed7939ee1139a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:35 +0000
Subject: [PATCH 24/26] fix: keep the integrator settings when negating an
 ODEModel

---
 symfit/core/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 4add3d3..8a2d6fa 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1104,7 +1104,8 @@ class ODEModel(BaseGradientModel):
         new_model_dict = self.model_dict.copy()
         for key in new_model_dict:
             new_model_dict[key] *= -1
-        return self.__class__(new_model_dict, initial=self.initial)
+        return self.__class__(new_model_dict, initial=self.initial,
+                              **self.integrator_kwargs)
 
     @cached_property
     def _ncomponents(self):
-- 
2.43.0


From 830481cc60071f6a88d8484af3e10b40b2e001f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:25 +0000
Subject: [PATCH 25/26] fix: take the chain rule into account in Model.hessian

The entries of Model.jacobian can refer to other components and their
derivatives. Differentiating these once more treated those as constants,
so Model.hessian was wrong for models with interdependent variables.
Use the components of hessian_model, which eval_hessian evaluates.
---
 symfit/core/models.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 8a2d6fa..fc6d639 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -933,8 +933,11 @@ class HessianModel(GradientModel):
             second order partial derivatives. Partial derivatives are taken with
             respect to the Parameter's, not the independent Variable's.
         """
-        return [[[sympy.diff(partial_dv, param) for param in self.params]
-                 for partial_dv in comp] for comp in self.jacobian]
+        # Take zero for component which are not present, happens for Constraints
+        hess_dict = self.hessian_model.model_dict
+        return [[[hess_dict.get(D(var, p1, p2), sympy.S.Zero)
+                  for p2 in self.params]
+                 for p1 in self.params] for var in self]
 
     def eval_hessian(self, *args, **kwargs):
         """
-- 
2.43.0


From 97539ac016a8d974dceac1c068ef1ff0782c0579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:34 +0000
Subject: [PATCH 26/26] fix: FitResults.covariance returns None when there is
 no covariance matrix

variance and stdev already answered None then; covariance raised a
TypeError ('NoneType' object is not subscriptable).
---
 symfit/core/fit_results.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfit/core/fit_results.py b/symfit/core/fit_results.py
index 009a516..dc3a0ae 100644
--- a/symfit/core/fit_results.py
+++ b/symfit/core/fit_results.py
@@ -151,7 +151,11 @@ class FitResults(object):
         """
         param_1_number = self.model.params.index(param_1)
         param_2_number = self.model.params.index(param_2)
-        return self.covariance_matrix[param_1_number, param_2_number]
+        try:
+            return self.covariance_matrix[param_1_number, param_2_number]
+        except TypeError:
+            # covariance_matrix can be None
+            return None
 
     @staticmethod
     def _array_safe_dict_eq(one_dict, other_dict):
-- 
2.43.0

