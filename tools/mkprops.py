#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit titles, statements and anchors)."""
import json, pathlib
C = "src/rt1_model/_calc.py"; SC = "src/rt1_model/_scatter.py"; H = "src/rt1_model/helpers.py"
SU = "src/rt1_model/surface.py"; VO = "src/rt1_model/volume.py"; PL = "src/rt1_model/plot.py"; IN = "src/rt1_model/__init__.py"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
        mechanism=[dict(zip(("name", "where"), m)) for m in mech], observe_at=observe, hook_needed=hook)))

prop("C01", "Surface and volume terms equal the first-order closed forms",
 "For every monostatic or bistatic geometry, every scattering function (or linear combination) and every value of tau, omega, NormBRDF, bsf and I0, the surface contribution equals NormBRDF*I0*cos(t_0)*BRDF*((1-bsf)*exp(-tau/cos t_0 - tau/cos t_ex)+bsf), and the volume contribution equals (1-bsf)*omega*I0*cos(t_0)/(cos t_0+cos t_ex)*(1-exp(-tau/cos t_0-tau/cos t_ex))*p. Both surface() / volume() and the corresponding rows of calc() return these values.",
 ["inputs", "configurations"], "all geometries, parameters (scalars, arrays, numbers or expressions), scattering functions, unit settings",
 "tests call calc() at a single angle per mode with one Rayleigh/Isotropic model and only check that the rows add up; the formulas themselves are compared with nothing",
 [C], [("surface term", C + ":RT1._surface"), ("volume term", C + ":RT1._volume"), ("phase function evaluation", SC + ":_Scatter.calc")],
 ["return values of calc(), surface(), volume()"])
prop("C02", "Interaction term equals the first-order double integral",
 "For every monostatic or bistatic geometry with zenith angles in [0, pi/2), the interaction contribution equals NormBRDF*(1-bsf)*omega*I0*cos(t_0)*{exp(-tau/cos t_ex)*F(incident,exit)+exp(-tau/cos t_0)*F(exit,incident)}, where F is the documented double integral over the lower hemisphere of the product of the Legendre expansions of the volume and surface functions truncated at their ncoefs. It is finite everywhere in that range, including vertical incidence or exit.",
 ["inputs", "configurations"], "all pairs of scattering functions and linear combinations, ncoefs, generalised scattering-angle parameters a, geometries, tau > 0",
 "three tests compare individual fn-coefficients of two function pairs at one monostatic geometry; the integral, bistatic geometry and the radial integration are never compared with anything",
 [C, SC], [("azimuth integration and coefficient extraction", C + ":RT1._calc_interaction_expansion,_integrate_0_2pi_phis,_extract_coefficients"), ("radial integral", C + ":RT1._S2_mu,_calc_Fint_1,_calc_Fint_2"), ("Legendre expansion", SC + ":_Scatter.legendre_expansion")],
 ["return values of calc()[3] and interaction()"])
prop("C03", "Contributions, total, units and incident intensity compose consistently",
 "calc() returns total, surface, volume and interaction (only the first three when the interaction term is switched off), the total is the sum of the contributions in linear units, and each row equals what surface(), volume() or interaction() returns for the same state. sigma0 output is 4*pi*cos(t_0)*intensity/I0 and does not depend on I0, intensity output scales linearly with I0, and dB output is 10*log10 of the linear output (-inf for zero).",
 ["inputs", "configurations", "histories"], "all combinations and later changes of sig0, dB, int_Q and I0, all geometries and parameters",
 "tests only check Itot = sum of rows for I0=1 at one point; the individual methods, I0 and switching the flags on a live object are not tested",
 [C], [("unit conversion", C + ":RT1._convert_sig0_db"), ("composition", C + ":RT1.calc")], ["calc(), surface(), volume(), interaction()"])
prop("C04", "Results depend only on the current configuration, never on history",
 "After any sequence of geometry-mode changes, angle updates, parameter updates, re-definitions of tau/omega/NormBRDF/bsf, flag, scattering-function or backend switches, evaluations and failed calls, every evaluation (calc, contributions, jacobian) returns what a freshly created model with the same current configuration returns. In particular nothing computed before a change (including parameters introduced after the first evaluation, or arrays the caller later modifies in place after passing them as angles) may show up in a result.",
 ["histories"], "all call sequences on one object", "each test builds a fresh object, configures it once and evaluates it once",
 [C, SC], [("cache invalidation", C + ":RT1._clear_cache,_clear_param_cache,_clear_geom_cache"), ("lazy fn-coefficients", C + ":RT1._fn,_fnevals"), ("derivative caches", C + ":RT1._d_volume_dummy_lambda,_d_surface_dummy_lambda"), ("compiled phase functions", SC + ":_Scatter._lambda_func")],
 ["return values of every evaluation method"], [("_fn_/_fnevals_", "coefficients and compiled evaluators of the current geometry", C), ("lru caches", "cosines, cosine powers, parsed parameter definitions, derivative functions", C)])
prop("C05", "Fixed, dynamic, monostatic and bistatic descriptions of a geometry agree",
 "Fixing any subset of the angles in set_monostatic/set_bistatic instead of setting them with set_geometry changes no result, and bistatic evaluation at t_ex=t_0, p_ex=p_0+pi equals monostatic evaluation. In monostatic mode the reported exit angles are t_0 and p_0+pi, and fixed angles are reported as the values they were fixed to.",
 ["inputs", "configurations"], "all 16 subsets of fixed angles, both modes, all angle values and scattering functions, all evaluation methods",
 "tests run all fixed/dynamic subsets but never compare their values with one another",
 [C], [("geometry symbols", C + ":RT1.set_monostatic,set_bistatic"), ("interaction", C + ":RT1._calc_Fint_1,_calc_Fint_2")], ["calc(), interaction(), t_0, t_ex, p_0, p_ex"])
prop("C06", "Illegal geometry settings are rejected and leave the model unchanged",
 "Setting a fixed angle, exit angles in monostatic mode, None, an unknown angle name, or fixing an angle to something that is not a number raises an error (AssertionError, or TypeError for unknown names), and after a rejected call every angle, the geometry mode and all results are exactly as before. Reading or evaluating with an angle that was never set raises AttributeError naming the angle.",
 ["histories", "inputs"], "all sequences of legal and illegal geometry calls with any combination of keyword arguments",
 "one xfail test tries one illegal call and never looks at the object afterwards",
 [C], [("guards", C + ":RT1.set_geometry,_sanitize_geometry_parameter,set_monostatic,set_bistatic"), ("unset angles", C + ":RT1.t_0,p_0,t_ex,p_ex")], ["exceptions raised", "t_0, t_ex, p_0, p_ex and calc() afterwards"],
 [("_fixed_angles", "names of angles that may not be set", C), ("_monostatic", "geometry mode", C)])
prop("C07", "The sympy and symengine backends are interchangeable",
 "For the same model, geometry and parameters both backends return results (calc, contributions, jacobian, scattering-function values, parameter values) of the same shape and value, and switching the backend at any moment in the life of an object changes no result. An unknown backend name is rejected with an AssertionError and the current backend stays in effect.",
 ["configurations", "histories", "inputs"], "all models, input shapes, and switch points in a call sequence",
 "one test compares the total for one model with every input already broadcast to one shape; scalars, mixed shapes, constant functions and mid-life switches are not compared",
 [H, IN, C, SC], [("function compilation", H + ":_lambdify"), ("backend selection", IN + ":set_lambda_backend,get_lambda_backend"), ("expansion", C + ":RT1._expand")], ["all evaluation methods under both backends"])
prop("C08", "Array evaluation is point-wise evaluation under broadcasting",
 "For angle and parameter inputs of any mutually broadcastable shapes, calc() returns one row per contribution with exactly the broadcast shape of the inputs, and each element equals the scalar evaluation at the corresponding input elements. No input array is modified.",
 ["inputs"], "all combinations of scalar, (m,), (1,m), (n,1), (n,m) and 3-D shapes for angles, parameters, numeric definitions and I0",
 "tests use scalar inputs, or inputs that are already all of shape (n, m)",
 [C, SC, H], [("broadcast of contributions", C + ":RT1.calc"), ("interaction sums", C + ":RT1._calc_Fint_1,_calc_Fint_2,_S2_mu"), ("compiled functions", H + ":_lambdify")], ["shape and elements of calc()", "input arrays after the call"])
prop("C09", "Parameter definitions resolve to current values; missing ones are named",
 "tau, omega, NormBRDF and bsf evaluate to their current definition (number, array, name, expression string or sympy expression, also constant ones and ones using parameters called N, S or Q) at the currently stored parameter values, where values persist between calls, later values override earlier ones and bsf is 0 unless given. calc() with unspecified parameters raises TypeError naming every missing parameter, whether it belongs to one of these definitions or to a scattering function, and succeeds once they are supplied.",
 ["inputs", "histories"], "all definitions over shared or distinct symbols, all update orders and redefinitions",
 "tests use only plain names and numbers and one shared symbol; redefinition after use and the error path are untested",
 [C, H], [("parameter evaluation", C + ":RT1._eval_param,_get_param_symbs,_get_param_funcs"), ("parameter store", C + ":RT1.update_params"), ("parsing", H + ":_parse_sympy_param")], ["tau, omega, NormBRDF, bsf, param_dict", "TypeError of calc()"],
 [("_param_dict", "current parameter values", C)])
prop("C10", "The Jacobian is the derivative of surface+volume in the chosen units",
 "jacobian(param_list) returns, for each requested name and element, the exact derivative of the surface+volume signal in the units selected by sig0, dB and I0: with respect to the effective tau, omega, NormBRDF or bsf for those names, and otherwise the total derivative with respect to the named parameter through every place it occurs (definitions of tau, omega, NormBRDF and bsf and both scattering functions together). Entries come in the order requested and the call changes no state.",
 ["inputs", "configurations"], "all unit settings, definitions, scattering functions with symbolic parameters, shared symbols, geometries, requested subsets and orders",
 "the Jacobian is only used inside four retrieval notebooks whose 0.15 tolerance on the fitted parameters hides wrong derivatives",
 [C], [("derivatives", C + ":RT1._dvolume_dtau,_dvolume_domega,_dvolume_dbsf,_dsurface_dtau,_dsurface_dNormBRDF,_dsurface_dbsf"), ("chain rule", C + ":RT1._d_volume_ddummy,_d_surface_ddummy,_dparam_ddummy"), ("unit factor", C + ":RT1.jacobian")], ["jacobian(format='list')"])
prop("C11", "The sparse Jacobian has one row per measurement and the right columns",
 "jacobian(format='scipy_least_squares') is a sparse matrix with one row per flattened measurement and, in the order of param_list, one column for each static parameter and one column per timestamp for each dynamic parameter, whose entries are the list-format derivatives, placed only in the rows of that timestamp. Other format names are rejected with TypeError.",
 ["inputs", "configurations"], "all mixes and orders of static and dynamic parameters and all (timestamps x angles) sizes",
 "the layout is only exercised inside the retrieval notebooks, never checked",
 [C], [("assembly", C + ":RT1.jacobian")], ["jacobian(format='scipy_least_squares').toarray()"])
prop("C12", "Limiting cases of the vegetation layer are exact and finite",
 "Wherever tau is 0 the volume and interaction terms are 0 and the surface term is the bare-soil signal, wherever bsf is 1 only the bare-soil signal remains, wherever omega is 0 volume and interaction vanish, and wherever NormBRDF is 0 surface and interaction vanish, for scalars, numbers, expressions and arrays that mix such elements with ordinary ones, in calc() and in the individual methods alike. No NaN is ever returned for valid inputs, and the other elements of the array are unaffected.",
 ["inputs"], "all placements of limiting values in scalar and array inputs, all geometries with zenith angles in [0, pi/2)",
 "tests set tau=0 for a single scalar in one model; mixed arrays, the individual methods and other limits are untested",
 [C], [("tau=0 handling", C + ":RT1.calc,_interaction"), ("radial integral", C + ":RT1._S2_mu")], ["calc(), surface(), volume(), interaction()"])
prop("C13", "Pickling round-trips a model and leaves the original untouched",
 "A model dumped (with cloudpickle, or with pickle before its first evaluation) and loaded again, in any state (either mode, fixed angles, numeric, expression or sympy definitions, evaluated before or not), has the same configuration and returns the same results, accepts and rejects the same geometry calls, and can be analysed. Dumping (or deep-copying) changes nothing observable on the original, and original and copy do not influence each other afterwards.",
 ["histories", "configurations"], "all call sequences before and after the dump, both backends",
 "one test dumps one monostatic model and compares one calc()",
 [C], [("state capture", C + ":RT1.__getstate__")], ["all public methods and attributes of the original and the copy"])
prop("C14", "Scattering functions evaluate their definition and are normalised",
 "calc() of every surface and volume function returns the documented formula at the generalised scattering angle a0*cos(t_0)cos(t_ex)+sin(t_0)sin(t_ex)*(a1*cos(p_0)cos(p_ex)+a2*sin(p_0)sin(p_ex)), for numeric and symbolic asymmetry and a parameters, broadcast over its arguments; the same holds for a user's subclass of VolumeScatter or SurfaceScatter. Volume functions with their default a integrate to 1 over the sphere, Lambertian and nadir-normalised functions have hemispherical reflectance 1 (at nadir).",
 ["inputs", "configurations"], "all functions, parameters in their documented range, a vectors, angles and shapes",
 "tests construct each function once with one set of numbers and discard the value that calc() returns",
 [SU, VO, SC], [("phase functions", SU + "," + VO + ":*.phase_function"), ("scattering angle", SC + ":_Scatter.calc_scattering_angle"), ("evaluation", SC + ":_Scatter.calc,_lambda_func")], ["V.calc(), SRF.calc()"])
prop("C15", "Legendre expansions are projections of the function truncated at ncoefs",
 "The n-th Legendre coefficient of every scattering function is (2n+1)/2 times the integral of the function against the n-th Legendre polynomial of its scattering angle, and legendre_expansion() is the sum of the first ncoefs of these terms at the generalised scattering angle. ncoefs is 1 for isotropic and 3 for Rayleigh functions, and using an expansion of a function whose ncoefs was not given raises AttributeError, while calc() without interaction term does not need it.",
 ["inputs", "configurations"], "all functions, orders, parameters (numeric or symbolic) and angles",
 "tests build the symbolic expansion for one set of numbers and never evaluate it",
 [SU, VO, SC], [("coefficients", SU + "," + VO + ":*.legendre_coefficients"), ("expansion", SC + ":_Scatter.legendre_expansion,ncoefs")], ["legendre_coefficients, legendre_expansion(), ncoefs"])
prop("C16", "Linear combinations are the weighted sums of their members",
 "A linear combination evaluates to the weighted sum of its members, each with its own scattering-angle parameters, for numeric weights and for weight expressions of any symbols. Its Legendre expansion is the weighted sum of the member expansions, where members sharing the same a are expanded to the largest ncoefs among them, and its ncoefs is the largest of all members; a model built from it gives the results of that sum.",
 ["inputs", "configurations"], "all member lists, weights, a vectors, ncoefs, surface and volume",
 "tests build one combination with equal numeric weights and discard the values",
 [SC], [("combination", SC + ":_LinComb.phase_function,legendre_expansion,ncoefs,_a_groups")], ["LinComb.calc(), legendre_expansion(), ncoefs", "RT1.calc() with LinComb"])
prop("C17", "Model instances do not influence each other",
 "Any interleaving of operations on several models, also models that share the same volume and surface function objects, gives on each model exactly the results that its own operations alone would give.",
 ["histories", "schedules"], "all interleavings of calls on two or more live models sharing scattering functions",
 "no test evaluates two models alternately", [C, SC], [("class-wide caches", C + ":RT1._cached_functions,_cached_properties"), ("shared function caches", SC + ":_Scatter._lambda_func")],
 ["results of all evaluation methods on every model"])
prop("C18", "Supplying precomputed fn-coefficients reproduces the interaction term",
 "A model created with the fn-coefficients (fn_input) or compiled evaluators (fnevals_input) of another model with the same scattering functions and geometry mode returns the same results as one that computes them itself, for any parameter values, any order in which parameters are stored, and with additional parameters present.",
 ["inputs", "histories"], "all models, parameter orders and additional parameters", "no test passes fn_input or fnevals_input",
 [C], [("reuse", C + ":RT1._fn,_fnevals,_calc_Fint_1,_calc_Fint_2")], ["calc(), interaction()"])
prop("C19", "The analyze widgets show the model result for their slider state",
 "analyze() and analyze3d() create one slider per given parameter that the model uses, with the given range, start value (centre of the range if omitted) and label (parameter name if omitted), and after creation and after any sequence of slider or range-selection changes the plotted curves or surfaces are the model results at the slider values. Missing parameters are reported with AssertionError naming them; analyze3d leaves the model's int_Q as it was.",
 ["histories", "inputs"], "all parameter ranges, slider movements and range selections", "the notebooks open the widgets once and look at nothing",
 [PL], [("sliders", PL + ":Analyze._parse_parameters,_init_figure"), ("curves", PL + ":Analyze._update,_get_range_lines"), ("3D", PL + ":Analyze3D._getvals,_update")], ["sliders and line data of the figure"])
prop("C20", "Hemispherical reflectance is the integral of the BRDF",
 "hemreflect(returnarray=True) returns, for each incidence angle from t_0_min up to but excluding t_0_max in steps of t_0_step, NormBRDF times the integral of BRDF*cos(t)*sin(t) over the upper hemisphere, for a surface function or for a model, under both backends and for any parameter values.",
 ["inputs", "configurations"], "all surface functions, parameters, incidence grids", "one notebook cell draws it once without looking at the numbers",
 [PL], [("integration", PL + ":hemreflect")], ["hemreflect(returnarray=True)"])
prop("C21", "Logging configuration is idempotent and takes effect once",
 "After any sequence of set_loglevel calls the package logger has exactly one handler installed by them, at the last given level and format, so that a record at or above that level is printed exactly once and a record below it not at all; every documented preset and any valid custom format is accepted. User-installed handlers are left alone.",
 ["histories"], "all sequences of levels (names in any case, numbers) and formats", "no test calls set_loglevel more than once or captures its output",
 [IN], [("handler", IN + ":_ensure_handler,set_loglevel,_set_logfmt")], ["text written to stderr, handlers of the rt1_model logger"])
prop("C22", "Polar plots draw the function values and their expansion",
 "polarplot draws, for each parameter set and incidence angle in order, the value of the scattering function over the exit angle and, unless switched off or ncoefs is unknown, its truncated Legendre expansion as a dashed line, under both backends; missing parameters are reported with AssertionError naming them.",
 ["inputs", "configurations"], "all functions, parameter dictionaries, incidence lists and backends", "notebooks draw a few plots without looking at the lines",
 [PL], [("plot", PL + ":polarplot")], ["line data of the axes"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
