"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to edit)."""
import json, pathlib

S = "src/hyperelastic/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[S + f for f in files],
                          mechanism=[dict(name=n, where=S + w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = state
    P.append(d)


prop("C01", "Stress is the gradient of the strain energy",
     "For every strain energy - built in (third-order deformation, Ogden, generalized invariants) or user defined through its derivatives - placed in its matching framework and applied on the deformation, distortional or dilatational space, the returned first Piola-Kirchhoff stress equals the derivative, with respect to the deformation gradient, of that energy evaluated on the space's part of the deformation (F itself, J^(-1/3) F, or J^(1/3) 1). This holds at every deformation gradient with positive determinant, repeated and nearly repeated principal stretches included.",
     ["inputs", "configurations"],
     "all deformation gradients with det F > 0 (any stretches, rotations, shears, repeated stretches) x all model parameters x frameworks x spaces",
     "The tests run finite-element jobs on one mesh with fixed parameters and mostly assert only that Newton's method ends; no test compares a stress with an energy, no test uses a third invariant or a coupled stretch energy, and the dilatational space is only driven with a constant-derivative model.",
     ["spaces/_deformation.py", "spaces/_distortional.py", "spaces/_dilatational.py", "spaces/_space.py", "frameworks/_invariants.py", "frameworks/_stretches.py", "frameworks/_generalized.py", "models/stretches/_generalized_invariants.py", "models/stretches/_ogden.py", "models/invariants/_third_order_deformation.py"],
     [("chain rule over the invariants", "frameworks/_invariants.py"), ("spectral chain rule", "frameworks/_stretches.py"), ("space projection of the stress", "spaces/_distortional.py")],
     ["umat.gradient([F, statevars])[0]"])

prop("C02", "Elasticity tensor is the exact linearisation of the stress",
     "For every admissible model, framework and space, the returned elasticity tensor equals the derivative of the returned first Piola-Kirchhoff stress with respect to the deformation gradient at the same state, in every component. It therefore has major symmetry, and it stays exact for repeated, nearly repeated and distinct principal stretches, also when such points are mixed in one call.",
     ["inputs", "configurations"],
     "all deformation gradients with det F > 0 (with all multiplicities of principal stretches) x model parameters x frameworks x spaces",
     "A wrong tangent only slows Newton's method; the tests' finite-element jobs still end. The invariant, stretch and generalized frameworks have branches (third invariant, mixed derivatives, equal stretches) no test reaches.",
     ["spaces/_deformation.py", "spaces/_distortional.py", "spaces/_dilatational.py", "spaces/_space.py", "frameworks/_invariants.py", "frameworks/_stretches.py", "models/stretches/_generalized_invariants.py"],
     [("second derivatives of the invariants", "frameworks/_invariants.py"), ("de l'Hospital branch for equal stretches", "frameworks/_stretches.py"), ("projection and geometric stiffness", "spaces/_distortional.py")],
     ["umat.hessian([F, statevars])[0] against differences of umat.gradient"])

prop("C03", "Frame indifference, isotropy and symmetric Cauchy stress",
     "For every model, framework and space, a superposed rotation of the deformed body rotates the first Piola-Kirchhoff stress and elasticity tensor accordingly (P(QF) = Q P(F)), a prior rotation of the undeformed body is seen the same way from the right (P(FQ) = P(F) Q), and the Cauchy stress is symmetric and shares principal axes with the left Cauchy-Green tensor. In particular the response does not depend on how the coordinate axes are labelled.",
     ["inputs", "configurations"],
     "all rotations (axis permutations, half turns, arbitrary) x deformation gradients x models x frameworks x spaces",
     "Tests use axis-aligned loading of a cube only; nothing compares a rotated with an unrotated response, so an error in one shear component or one axis pair goes unseen.",
     ["spaces/_deformation.py", "spaces/_distortional.py", "spaces/_dilatational.py", "spaces/_space.py", "frameworks/_invariants.py", "frameworks/_stretches.py", "math/_voigt.py"],
     [("material response formulated in C = F^T F", "spaces/_deformation.py"), ("isotropic tensor functions", "frameworks/_stretches.py")],
     ["umat.gradient", "umat.hessian"])

prop("C04", "Distortional and dilatational projections separate shape and volume",
     "On the distortional space the Cauchy stress is deviatoric for every model, the response is unchanged by superposed volume changes (P(sF) = P(F)/s) and a pure volume change or rigid rotation is stress free; on unimodular deformations the stress equals the (physically) deviatoric part of the deformation-space stress. On the dilatational space the Cauchy stress is hydrostatic, is a function of the volume ratio alone, and on pure volume changes equals the deformation-space stress of the same model.",
     ["inputs", "configurations"],
     "all deformation gradients x positive volume scalings x volume-preserving superposed deformations x models x frameworks",
     "Tests only run the spaces inside a nearly-incompressible FE solver and assert no projected quantity.",
     ["spaces/_distortional.py", "spaces/_dilatational.py"],
     [("I3^(-1/3) scaling and deviatoric projection", "spaces/_distortional.py"), ("I3^(1/3) spherical part", "spaces/_dilatational.py")],
     ["umat.gradient", "umat.hessian"])

prop("C05", "Force/area configurations are Piola transformations of one response",
     "For every space, choosing the configuration of the differential force vector (deformed or undeformed) and of the differential area vector (deformed or undeformed), or switching finalisation off, only re-expresses one and the same response: the stresses are P, S, Cauchy stress and its force-pulled-back form, and the elasticity tensors are the corresponding push-forwards/pull-backs including the initial-stress term. Without finalisation the second Piola-Kirchhoff stress and the material elasticity tensor in reduced storage, without initial-stress term, are returned.",
     ["configurations", "inputs"],
     "all 4 force/area combinations x finalize on/off x spaces x frameworks x models (including ones with constant or zero stress derivatives) x deformation gradients x array shapes",
     "The one test that loops over the settings evaluates a single distortion-only FE job without comparing the results between settings, and only for models whose result has the full array shape.",
     ["spaces/_space.py"],
     [("Piola transformation", "spaces/_space.py")],
     ["umat.gradient", "umat.hessian for force/area/finalize settings"])

prop("C06", "The same energy gives the same response in every formulation",
     "Whenever one strain energy can be expressed in several of the available ways - invariants versus principal stretches versus generalized invariants, built-in model versus user-defined model versus automatic differentiation, single-term versus multi-term parameters - all of them return the same stress and elasticity tensor on every space. Examples: Neo-Hooke = Ogden with exponent 2, the second-invariant term = Ogden with exponent -2 on the distortional space, generalized invariants with exponent 2 = plain invariants.",
     ["inputs", "programs"],
     "all equivalent pairs of formulations x parameters x deformation gradients x spaces",
     "One test compares two formulations for one uniaxial curve; none compares frameworks or tangents.",
     ["frameworks/_invariants.py", "frameworks/_stretches.py", "frameworks/_generalized.py", "models/stretches/_generalized_invariants.py", "models/stretches/_ogden.py", "models/invariants/_third_order_deformation.py", "models/invariants/_torch.py"],
     [("frameworks", "frameworks/_stretches.py"), ("generalized invariants model", "models/stretches/_generalized_invariants.py")],
     ["umat.gradient", "umat.hessian"])

prop("C07", "Batched evaluation equals pointwise evaluation",
     "Stress and elasticity tensor at one point of an arbitrarily shaped batch (no, one or several trailing axes of any length, in any memory layout, writable or not) depend only on that point's deformation gradient and equal what a call with that point alone returns, with the batch's trailing shape. The threaded evaluation option returns the same values as the serial one.",
     ["inputs", "configurations"],
     "all trailing shapes and lengths x orders/mixtures of points x memory layouts x serial/parallel x models x frameworks x spaces x force/area settings",
     "Tests always use felupe's (3,3,q,c) arrays or one row of points, and never compare with a pointwise evaluation; the threaded option is only smoke tested.",
     ["spaces/_space.py", "frameworks/_invariants.py", "frameworks/_stretches.py", "math/_voigt.py"],
     [("broadcasting over trailing axes", "spaces/_space.py"), ("mask for equal stretches", "frameworks/_stretches.py"), ("einsum / einsumt switch", "spaces/_space.py")],
     ["umat.gradient", "umat.hessian"])

prop("C08", "Results depend only on the arguments, not on the call history",
     "Whatever sequence of stress and elasticity evaluations, at whatever states and array shapes, was made before - also through other spaces or frameworks sharing the same model or framework object - a call returns the same result as on freshly created objects. No call changes its arguments, the model parameters, or any array an earlier call returned or handed to a model.",
     ["histories"],
     "all sequences of gradient/hessian calls on sets of spaces that share frameworks and models, with changing deformation gradients, shapes and state variables",
     "All objects cache intermediate results between calls (stress evaluation feeds the elasticity evaluation); the tests exercise only the one order an FE solver uses with one object.",
     ["spaces/_deformation.py", "spaces/_distortional.py", "spaces/_dilatational.py", "spaces/_space.py", "frameworks/_invariants.py", "frameworks/_stretches.py", "models/stretches/_generalized_invariants.py"],
     [("hessian re-evaluates the gradient first", "frameworks/_invariants.py")],
     ["umat.gradient", "umat.hessian", "framework.gradient", "framework.hessian", "math functions"],
     [dict(name="cached intermediates", meaning="kinematics, invariants, stresses and model derivatives stored on the object", where=S + "spaces/_space.py")])

prop("C09", "State variables are routed unchanged between caller and model",
     "On every space and framework the model's gradient and hessian receive exactly the old state variables the caller passed in (the last entry of the list of variables, of whatever length), and the caller gets back exactly the new state variables the model's gradient returned, unmodified and in any representation (array of any shape, None, other objects). The advertised initial variables consist of an identity deformation gradient and zero state variables of the requested number, and stress and elasticity can be evaluated at them.",
     ["histories", "inputs"],
     "all spaces x frameworks x state-variable objects x sequences of load steps with history-dependent user models",
     "No test uses a model with state variables at all.",
     ["spaces/_deformation.py", "spaces/_distortional.py", "spaces/_dilatational.py", "frameworks/_invariants.py", "frameworks/_stretches.py", "frameworks/_generalized.py", "models/stretches/_generalized_invariants.py", "models/stretches/_ogden.py", "models/invariants/_third_order_deformation.py", "models/invariants/_torch.py"],
     [("statevars argument and return value", "frameworks/_invariants.py"), ("x attribute", "spaces/_deformation.py")],
     ["umat.gradient(x)[-1]", "the model's gradient/hessian arguments", "umat.x"])

prop("C10", "Reduced symmetric storage is a faithful, documented encoding",
     "Converting a symmetric second-order or minor-symmetric fourth-order tensor (also without major symmetry) to reduced storage and back is the identity in both directions, with components in the documented order 11,22,33,12,23,13 and shear terms not doubled, for any trailing axes. Mirroring the upper triangle into the lower one (or vice versa) yields the symmetric matrix with that triangle, for any dimension, without altering the input unless it is the given output.",
     ["inputs"],
     "all symmetric second-order tensors, all minor-symmetric fourth-order tensors, trailing shapes",
     "The only math test uses one random batch of major-symmetric dyads; an error in a non-symmetric block or a transposed index pair would not show.",
     ["math/_voigt.py"],
     [("asvoigt/astensor index maps", "math/_voigt.py"), ("tril_from_triu/triu_from_tril", "math/_voigt.py")],
     ["hyperelastic.math.asvoigt, astensor, tril_from_triu, triu_from_tril"])

prop("C11", "Algebra in reduced storage equals full tensor algebra",
     "Every operation on reduced-storage tensors - trace, transpose, determinant, inverse (with or without given determinant), dot, all double-dot modes, dyadic and crossed-dyadic products, deviator, identity - returns exactly the (documented) result of the same operation on the full tensors, for every pair of distinct, equal or identical operands, broadcastable trailing axes, and with or without a supplied output array. Operands are not altered unless they are the given output.",
     ["inputs"],
     "all pairs of symmetric tensors, minor-symmetric fourth-order tensors, trailing shapes that broadcast, out= arguments",
     "The existing test checks a handful of identities on one random batch; no out= argument, no non-major-symmetric double dots, no broadcasting.",
     ["math/_voigt.py"],
     [("reduced-storage formulas", "math/_voigt.py")],
     ["hyperelastic.math functions against numpy on full tensors"])

prop("C12", "Spectral decomposition reproduces the tensor",
     "For every symmetric tensor batch, distinct or repeated eigenvalues, the eigenvalue routine returns real eigenvalues in ascending order and eigenbases in reduced storage that are orthogonal projectors summing to the identity and reproduce the tensor when weighted with the eigenvalues. A supplied function is applied to the eigenvalues only.",
     ["inputs"],
     "all symmetric 3x3 tensors with all multiplicities, trailing shapes, eigenvalue functions",
     "No test touches the routine directly.",
     ["math/_voigt.py"],
     [("eigh", "math/_voigt.py")],
     ["hyperelastic.math.eigh"])

prop("C13", "Built-in models return the derivatives of their documented energies",
     "Called with any values of the invariants or principal stretches, third-order deformation (with the invariants measured from 3, or from 0 in strain mode) and Ogden (any number of terms) return the first and second partial derivatives of the strain energy their documentation states, where a missing entry means identically zero. The generalized-invariants model returns those of the wrapped model's energy in the normalised invariants of its strain measure, with respect to the principal stretches. State variables pass through.",
     ["inputs", "configurations"],
     "all parameter sets (zero, negative, integer, any subset) x all invariant/stretch values, independent of each other",
     "Tests reach the models only through a few fixed parameter sets on physical paths where e.g. I1 and I2 are not independent.",
     ["models/invariants/_third_order_deformation.py", "models/stretches/_ogden.py", "models/stretches/_generalized_invariants.py"],
     [("closed-form derivatives", "models/invariants/_third_order_deformation.py"), ("sum over terms", "models/stretches/_ogden.py")],
     ["model.gradient", "model.hessian"])

prop("C14", "Automatic-differentiation model matches the analytical derivatives",
     "For every energy function of the three invariants that the tensor library can differentiate - also ones that are linear in, independent of, or coupled between invariants - the automatic-differentiation model returns the first and second partial derivatives of that function (missing meaning zero), so stress and elasticity on every space agree with an analytical implementation up to the working precision. Keyword parameters reach the function.",
     ["programs", "inputs"],
     "all energy expressions over I1, I2, I3 (linear, polynomial, coupled, transcendental) x parameters x deformation states x spaces",
     "Tests use one energy (Yeoh, one invariant only, smooth and nonlinear) and compare only the stress.",
     ["models/invariants/_torch.py"],
     [("autograd gradient and hessian", "models/invariants/_torch.py")],
     ["TorchModel.gradient/hessian", "umat.gradient/hessian"])

prop("C15", "Generalized strain measures and their normalisation",
     "The deformation and strain functions return, for every stretch and every nonzero exponent, the measure (lambda^k, or (lambda^k - 1)/k) with its exact first and second derivatives and the values of the quadratic reference measure at the undeformed state. With the normalised invariants built from them, the initial stiffness of a model on the distortional space does not depend on the exponent, and the undeformed values of the invariants are kept.",
     ["inputs", "configurations"],
     "all exponents != 0 x stretches x inner models x strain/deformation functions",
     "The test checks the initial modulus for four exponents of one model in two load directions with a loose difference quotient.",
     ["models/generalized/_stretch.py", "models/stretches/_generalized_invariants.py", "frameworks/_generalized.py"],
     [("strain/deformation", "models/generalized/_stretch.py"), ("normalisation coefficients c1, c2", "models/stretches/_generalized_invariants.py")],
     ["models.generalized.strain/deformation", "GeneralizedInvariantsFramework in DistortionalSpace at F = 1"])

prop("C16", "Response is linear in the moduli and has the documented shear modulus",
     "Stress and elasticity are homogeneous of degree one and additive in the strain energy: scaling all moduli by any positive factor (e.g. a change of physical units over many orders of magnitude) scales every result by exactly that factor, and the response to the sum of two energies is the sum of their responses, on every space and framework. At the undeformed state on the distortional space the stress vanishes and the elasticity is that of an isotropic solid with shear modulus 2(C10+C01) for third-order deformation and sum(mu) for Ogden.",
     ["inputs", "configurations"],
     "all parameter sets x scale factors 1e-12..1e12 x splittings into partial sums x deformation gradients x spaces x frameworks",
     "Tests use moduli of order one only, and never relate responses of different parameter sets.",
     ["spaces/_distortional.py", "spaces/_dilatational.py", "spaces/_space.py", "frameworks/_invariants.py", "frameworks/_stretches.py", "models/invariants/_third_order_deformation.py", "models/stretches/_ogden.py"],
     [("skipped terms for zero derivatives", "spaces/_distortional.py"), ("zero-parameter shortcuts", "models/invariants/_third_order_deformation.py")],
     ["umat.gradient", "umat.hessian"])

prop("C17", "Load cases are isochoric and their traction-free face is free",
     "For every positive stretch, the uniaxial, planar and biaxial load cases return diagonal deformation gradients with determinant one, the stretch on the first axis and the documented transverse stretches. The reported force per undeformed area equals P11 plus the hydrostatic pressure part that makes the traction-free axis stress free, so adding any hydrostatic pressure to the stress leaves it unchanged, for any choice of loaded and traction-free axis.",
     ["inputs"],
     "all positive stretches (scalar, arrays) x load cases x stress tensors x pressures x axes",
     "Tests draw curves; only one uniaxial/biaxial modulus is asserted, on deformation gradients built by the test itself.",
     ["lab/_load_case.py"],
     [("defgrad and stress", "lab/_load_case.py")],
     ["lab.Uniaxial/Planar/Biaxial .defgrad, .stress"])

prop("C18", "Simulated force equals the energy's derivative along the load path",
     "For every hyperelastic material, the simulated force per undeformed area in incompressible uniaxial, planar and biaxial loading equals the derivative of the strain energy along that load path with respect to the stretch (half of it in the biaxial case), independent of the space's volumetric treatment, the number and order of stretches, and the shape of the material's results. In a user-defined load case with both in-plane stretches prescribed it is the derivative with respect to the loaded stretch, with the free direction following from incompressibility. Parameters are assigned to the material by label and default to one, and evaluating a simulation or its fit function does not alter it.",
     ["inputs", "configurations"],
     "all materials/parameters x load cases x stretch arrays x label orders",
     "Tests plot curves for a few parameter sets; the single asserted equality compares two simulations with each other.",
     ["lab/_simulation.py", "lab/_load_case.py"],
     [("stress_curve_fit", "lab/_simulation.py")],
     ["lab.Simulation.stress, .stress_curve_fit"])

prop("C19", "Experiment data are converted by the reference geometry",
     "For every displacement and force record (any array-like) and reference area and length, an experiment reports the stretch 1 + displacement/length and the force per undeformed area, element by element, keeps time, temperature, force and displacement records as given, and does not alter its inputs. Area and length default to one.",
     ["inputs"],
     "all displacement/force records (lists, arrays, integers) x areas x lengths",
     "Tests build three experiments from arrays and never assert the converted values.",
     ["lab/_experiment.py"],
     [("stretch and stress", "lab/_experiment.py")],
     ["lab.Experiment.stretch, .stress()"])

prop("C20", "Curve fit returns the least-squares optimum and reports it consistently",
     "For experiments and simulations paired in order, the fit returns parameters that minimise the sum of squared differences between simulated and measured stresses over all selected points of all experiments (recovering the true parameters from noise-free data), for initial parameters given in any numeric array-like form. The reported parameters, covariance, standard errors, residuals, their norm and mean relative deviation, and the parameters left in the simulations all belong to that optimum, and neither the caller's initial parameters nor the results of finished fits of other optimisation objects are altered. Fitting again from the found optimum returns that optimum; weights and bounds passed to the fit define the weighted or bounded optimum; and after a preparation, or a change of the parameters or masks, everything reported refers to the current ones.",
     ["inputs", "histories"],
     "all sets of experiments/load cases/models with identifiable parameters x noise x initial values and representations x weights and bounds x repeated, restarted and interleaved fits",
     "One test compares one fit's result with recorded numbers; residual/error bookkeeping, other initial-parameter types and several fits are not tested.",
     ["lab/_optimize.py", "lab/_curve_fit.py"],
     [("concatenate_curve_fit", "lab/_curve_fit.py"), ("curve_fit bookkeeping", "lab/_optimize.py")],
     ["lab.Optimize.curve_fit, parameters, errors, residuals, norm_residuals, mean_relative_std"])

prop("C21", "Masked data never influence a fit, and each mask belongs to its experiment",
     "Only the data points selected by an experiment's mask (boolean array, index array or slice) enter the fit: changing the measured values of unselected points in any way leaves the fit result, residuals and covariance unchanged, and the result equals that of a fit to experiments that contain only the selected points. Without masks all points are used, and the order in which experiment/simulation pairs are listed does not change the optimum.",
     ["inputs"],
     "all masks per experiment x values at unselected points x orders of experiments",
     "One test uses masks in one fit and compares with recorded numbers.",
     ["lab/_optimize.py"],
     [("mask handling", "lab/_optimize.py")],
     ["lab.Optimize.curve_fit"])

prop("C22", "Plots show exactly the recorded or simulated data",
     "Every stress-stretch or force-displacement plot of an experiment or simulation draws one line whose data are exactly the object's stretch and stress (displacement and force) values, labelled with the given label or else the object's own, on the given axes (named after the quantities, or as asked for) or a new figure, and passes line options through. The optimisation plot draws, per pair, the fitted simulation and the experiment, and states the fitted parameters with their deviations and the norm of the residuals, at any time in a sequence of preparations, fits and plots.",
     ["inputs", "configurations"],
     "all data, labels, axes reuse and options",
     "Tests call the plot functions without looking at what they draw.",
     ["lab/_plotting.py", "lab/_optimize.py"],
     [("LabPlotter", "lab/_plotting.py"), ("Optimize.plot", "lab/_optimize.py")],
     ["matplotlib axes content"])

prop("C23", "Drop-in use in FElupe: residual and tangent of a body are consistent",
     "Used as a material of an FElupe solid body (also the nearly-incompressible one), every space/framework/model yields an internal force vector that is the gradient of the body's total strain energy and a stiffness matrix that is the derivative of that vector, for arbitrary displacement fields of a mesh. Rigid motions of the body are force free on the distortional space, and a superposed rotation only turns the internal forces along.",
     ["inputs", "configurations"],
     "all displacement fields x meshes x models x frameworks x spaces x parallel option",
     "Tests run displacement-controlled jobs with one mesh and loose or default tolerances; convergence does not require an exact tangent.",
     ["spaces/_space.py", "spaces/_deformation.py", "spaces/_distortional.py", "spaces/_dilatational.py", "frameworks/_invariants.py", "frameworks/_stretches.py"],
     [("gradient/hessian/x protocol", "spaces/_space.py")],
     ["felupe.SolidBody(umat, field).assemble.vector / .matrix"])

prop("C24", "User-model protocol: the form of the returned derivatives does not matter",
     "A user-defined model in the invariants (also inside the generalized-invariants framework) may return each first and second derivative as an array over the points, as a number that applies to all points, or as nothing (None, where it is identically zero), in a tuple or a list; a user-defined model in the principal stretches may return its first derivatives as one stacked array or a sequence of arrays and its second derivatives as one stacked array or a sequence of arrays, numbers or nothing. All forms that denote the same values give the same stress and elasticity on every space and for every batch shape. The model is called with the invariants (or the stretches) of the space's part of each point's deformation.",
     ["programs", "inputs"],
     "all assignments of representations (None/zeros, scalar/array, tuple/list/array) to the derivative slots x models x batch shapes x spaces",
     "Tests only use the built-in models' own pattern of missing entries and one symbolic model returning a list.",
     ["frameworks/_invariants.py", "frameworks/_stretches.py", "frameworks/_generalized.py", "models/stretches/_generalized_invariants.py"],
     [("None handling", "frameworks/_invariants.py"), ("conversion of lists", "frameworks/_stretches.py")],
     ["umat.gradient", "umat.hessian", "arguments received by the model"])

prop("C25", "Spaces apply any material formulation, also anisotropic ones",
     "For every user-defined Total-Lagrange material formulation that returns the first and second derivative of an energy of the right Cauchy-Green deformation tensor in reduced storage - isotropic or not, alone or added to a built-in framework, repeated for all points or in broadcastable shape - the deformation, distortional and dilatational spaces return the first Piola-Kirchhoff stress and the elasticity tensor of that energy evaluated on the space's part of the deformation, and their transformations into every configuration of the differential force and area vectors. The formulation is evaluated at the right Cauchy-Green tensor of that part of the deformation.",
     ["programs", "inputs", "configurations"],
     "all energies of the six components of the deformation tensor (linear, quadratic with any coefficients, cubic, families of fibres) x spaces x configurations x deformation gradients x batch shapes",
     "Tests only put the built-in isotropic frameworks on a space: there stress and deformation have common principal axes, and mistakes which need different ones cannot be seen.",
     ["spaces/_space.py", "spaces/_deformation.py", "spaces/_distortional.py", "spaces/_dilatational.py"],
     [("projection of the material's derivatives", "spaces/_distortional.py"), ("traces of the material's derivatives", "spaces/_dilatational.py"), ("Piola transformations", "spaces/_space.py")],
     ["umat.gradient", "umat.hessian", "arguments received by the material formulation"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P))
