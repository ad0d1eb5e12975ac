"""Writes properties.jsonl (kept so that the long texts are edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))
V="src/hyperelastic/math/_voigt.py"; FI="src/hyperelastic/frameworks/_invariants.py"; FS="src/hyperelastic/frameworks/_stretches.py"
FG="src/hyperelastic/models/stretches/_generalized_invariants.py"; SP="src/hyperelastic/spaces/_space.py"; SD="src/hyperelastic/spaces/_deformation.py"
SI="src/hyperelastic/spaces/_distortional.py"; SL="src/hyperelastic/spaces/_dilatational.py"; MT="src/hyperelastic/models/invariants/_third_order_deformation.py"
MO="src/hyperelastic/models/stretches/_ogden.py"; MX="src/hyperelastic/models/invariants/_torch.py"; MG="src/hyperelastic/models/generalized/_stretch.py"
LC="src/hyperelastic/lab/_load_case.py"; LS="src/hyperelastic/lab/_simulation.py"; LO="src/hyperelastic/lab/_optimize.py"; LF="src/hyperelastic/lab/_curve_fit.py"
LE="src/hyperelastic/lab/_experiment.py"; LP="src/hyperelastic/lab/_plotting.py"
SPACES=[SP,SD,SI,SL]; FWS=[FI,FS,FG]

p("C01","Reduced (Voigt) storage conversions are lossless",
  "Converting a symmetric second-order tensor, or a minor-symmetric (not necessarily major-symmetric) fourth-order tensor, to reduced storage and back returns every component unchanged, in both directions, with reduced order 11,22,33,12,23,13 and undoubled shear terms. Completing a square reduced matrix from its upper (or lower) triangle mirrors exactly the off-diagonal entries of that triangle and leaves the triangle itself and the diagonal unchanged; a given destination receives the mirrored entries whatever it contained before.",
  ["inputs"],"for all component values, all trailing (batch) axes and all array layouts; matrix sizes 1..6 for the triangle helpers",
  "test_math only uses conversions of one random major-symmetric A=C(x)C tensor; index mistakes that cancel under major symmetry or in single components are invisible.",
  [V],[("asvoigt/astensor",V),("tril_from_triu/triu_from_tril",V)],["hyperelastic.math.asvoigt","hyperelastic.math.astensor","hyperelastic.math.tril_from_triu","hyperelastic.math.triu_from_tril"])
p("C02","Reduced-storage products equal the full-tensor definitions",
  "For all symmetric second-order (and minor-symmetric fourth-order) tensors, the dot, double-dot (2:2, 2:4, 4:2, 4:4), dyadic, symmetrised crossed-dyadic and the two index-swapped dyadic products, as well as the major transpose, evaluated in reduced storage represent exactly the tensor given by the index-notation definition on the full 3x3(x3x3) arrays. This holds for two different operands, for equal operands and for one and the same object passed twice.",
  ["inputs"],"for all component values of both operands (different, equal, identical object) and all broadcastable batch shapes",
  "test_math checks three of the products with one random positive-definite C (C=D for most), and never 4:4 double-dot, dya or the transpose against a full-tensor definition.",
  [V],[("dot, ddot, dya, cdya, cdya_ik, cdya_il, transpose",V)],["hyperelastic.math"])
p("C03","Determinant, inverse, trace, deviator, eigenbases are exact",
  "For every symmetric tensor in reduced storage the trace, determinant and deviator equal those of the full tensor; for every invertible one the inverse (with the determinant computed or supplied) multiplied by the tensor is the identity. The spectral decomposition returns principal values and reduced eigenbases that rebuild the tensor, sum to the identity and are mutually orthogonal projectors, also for repeated values, and an optional function is applied to the principal values only.",
  ["inputs"],"for all component values (definite, indefinite, diagonal, repeated principal values, any magnitude) and batch shapes",
  "Tests only compare inv with itself (determinant given or not) and use eigh implicitly on a few deformation paths.",
  [V],[("trace/det/inv/dev/eigh/eye",V)],["hyperelastic.math"])
p("C04","Tensor math has no side effects and honours destinations",
  "The tensor helpers never modify their inputs, return the same values for any memory layout of the inputs and for any (broadcastable) batch shape as for each point on its own, and never return or keep storage that a later call overwrites or that lets a caller's modification of an earlier result change later ones. If a destination array is given to the inverse, the dyadic or the symmetrised crossed-dyadic product, that array is filled with and returned as the complete result, whatever it contained before, even if the destination is one of the inputs where the shapes allow it. (Arrays hold floating-point numbers.)",
  ["inputs","histories"],"for all helpers, batch shapes (incl. none, singleton and size-3/6 axes), memory layouts, destinations (fresh, dirty, aliasing an operand) and pairs of consecutive calls",
  "No test passes a destination, a non-contiguous or read-only array, mixed batch shapes or checks that inputs are unchanged.",
  [V],[("out= handling, fancy-index copies used as scratch",V)],["hyperelastic.math.inv/dya/cdya", "all helpers"])
p("C05","Stress is the exact gradient of the strain energy",
  "For every strain-energy function given through the invariants-, the principal-stretches- or the generalized-invariants-framework and for every deformation gradient with positive determinant, the stress returned by the deformation, distortional and dilatational space is the derivative, w.r.t. the deformation gradient, of the energy evaluated on the full, the unimodular (constant-volume) or the purely volumetric part of the deformation.",
  ["inputs","configurations"],"for all deformation gradients (incl. identity, near-identity, large, sheared, rotated), all model parameter sets (also partially zero), all framework x space combinations",
  "The tests run four finite-element jobs to completion (Newton converges even with wrong details) and compare two plotted curves on coaxial, diagonal deformations only; no stress component in shear is ever compared with an energy.",
  [*SPACES,*FWS],[("gradient() of spaces and frameworks",SD),("gradient",FI),("gradient",FS),("gradient",FG)],["umat.gradient([F, statevars])[0]"])
p("C06","Elasticity tensor is the exact derivative of the stress",
  "For every strain-energy function, framework and space, the elasticity tensor returned for a deformation gradient equals the derivative of the returned stress w.r.t. the deformation gradient (including the initial-stress contribution) in each of its 81 components, and hence is major-symmetric.",
  ["inputs","configurations"],"for all deformation gradients, all parameter sets (every first/second energy derivative present or absent), all framework x space combinations",
  "A wrong elasticity tensor only slows the Newton iterations of the finite-element tests; hence e.g. a wrong second derivative w.r.t. the third invariant stayed unnoticed.",
  [*SPACES,*FWS],[("hessian() of spaces and frameworks",SI),("hessian",FI),("hessian",FS),("hessian",FG)],["umat.hessian([F, statevars])[0]"])
p("C07","Distortional and dilatational spaces see only their part",
  "A distortional-space material does not respond to pure volume changes and its Kirchhoff stress is trace-free for every deformation and independent of a superposed uniform dilation; a dilatational-space material has a purely hydrostatic Kirchhoff stress that depends on the deformation only through its volume ratio. At a constant-volume deformation the distortional Kirchhoff stress is the deviator of the one in the deformation space, and at a pure dilation the dilatational one coincides with it.",
  ["inputs","configurations"],"for all deformation gradients, superposed dilations, volume-preserving superpositions, frameworks and models",
  "Only completion of two finite-element jobs is tested, the dilatational one with a single neo-Hookean parameter for which even a wrong projection argument makes no difference.",
  [SI,SL,SD],[("projection of the stress",SI),("projection",SL)],["umat.gradient","umat.hessian"])
p("C08","Response is frame-indifferent and isotropic",
  "Superposing a rigid rotation on the deformed configuration rotates the first leg(s) of the stress and elasticity tensor and changes nothing else; rotating the undeformed configuration rotates the second leg(s) only. The Cauchy stress is symmetric, and coaxial (diagonal) deformations with permuted axes give equally permuted results.",
  ["inputs","configurations"],"for all deformation gradients and all pairs of rotations, every space, framework and model",
  "The tests use coaxial deformations or a single finite-element cube; no rotated state is compared.",
  [V,*SPACES,*FWS],[("C = F^T F, isotropic chain rules",SP)],["umat.gradient","umat.hessian"])
p("C09","Stress and elasticity configurations are Piola-consistent",
  "For every combination of the force and area configuration options the returned stress and elasticity are the Piola transforms (with the volume ratio) of the ones returned for the first Piola-Kirchhoff default, and without finalization the reduced second Piola-Kirchhoff stress and the material elasticity without initial-stress part are returned. The transformation accepts, in every option combination, deformation-independent (broadcastable) stress and elasticity and gives the same result whether or not determinant and inverse are supplied.",
  ["inputs","configurations"],"for all deformation gradients x {force} x {area} x {finalize} x {parallel} x spaces x frameworks, stress and elasticity broadcast or not",
  "test_finalize only checks that jobs/plots run without an exception for one model; no value is compared.",
  [SP,SD,SI,SL],[("piola",SP)],["umat.gradient","umat.hessian","umat.piola"])
p("C10","Material points are independent of the batch they are in",
  "The stress and elasticity of a material point do not depend on how many other points are evaluated in the same call, on their values or order, on the number and size of the trailing axes (none included, as for the initial state provided by the material object) or on the memory layout or number type (integers, floating-point) of the deformation gradient array. The results carry the batch shape of the deformation gradient.",
  ["inputs","configurations"],"for all batch shapes (no axis to several axes with sizes incl. 0, 1, 3, 6 and large), orders and layouts, every space, framework and model",
  "Tests use one quadrature layout (8 x q) and one stretch vector each; shape coincidences (3, 6), empty or axis-free batches are not tested.",
  [V,*SPACES,*FWS,MX],[("trailing-axes broadcasting",V)],["umat.gradient","umat.hessian","umat.x"])
p("C11","Omitted, constant and array-valued derivatives are equivalent",
  "A user model may return, for any partial derivative of its energy that is zero, nothing (None), a number or an array, and for any constant one a number or an array of any broadcastable shape: stress and elasticity are the same for all of these. (First derivatives w.r.t. principal stretches are numbers or arrays, never None.) Each non-zero derivative contributes through exactly its own invariants or stretches.",
  ["inputs","configurations"],"for all presence patterns of the 3 first and 6 second derivatives and all encodings, all three frameworks and all spaces",
  "The shipped models exercise only a few patterns (never a third-invariant derivative, never a coupled stretch derivative).",
  [*FWS],[("None handling",FI),("None handling / broadcast",FS),("None handling",FG)],["framework.gradient","framework.hessian","umat.gradient","umat.hessian"])
p("C12","Equivalent formulations give the same response",
  "The same strain energy expressed through the invariants framework, the stretches framework, the generalized-invariants framework (squared-stretch deformation measure) or automatic differentiation gives the same stress and elasticity for every deformation in every space.",
  ["inputs","configurations"],"for all deformation gradients (incl. repeated principal stretches), energies, spaces and pairs of formulations",
  "Only the uniaxial stress curve of one Yeoh model is compared (torch vs. hand-coded).",
  [*FWS,MX,MT,MO],[("frameworks",FI)],["umat.gradient","umat.hessian"])
p("C13","Repeated and nearly repeated stretches are handled exactly",
  "For stretch-based materials the stress and elasticity are finite and equal to the derivatives of the energy also where two or three principal stretches coincide or nearly coincide, for any orientation, position in the batch and mixture of coinciding and distinct points; approaching coincidence the response has no jump.",
  ["inputs"],"for all gap sizes from zero to order one, all coinciding pairs/triples, base stretches, orientations, batches and exponents",
  "Finite-element tests start at the undeformed state but do not compare values; nearly repeated values are hit only by chance.",
  [FS,FG,V],[("l'Hospital branch",FS),("eigh",V)],["umat.gradient","umat.hessian"])
p("C14","Response is linear in the strain energy (units do not matter)",
  "Scaling all energy moduli by a positive factor of any magnitude (a change of units) scales stress and elasticity by that factor, and the response of a sum of energies is the sum of the responses.",
  ["inputs","configurations"],"for all scaling factors over many orders of magnitude, all splits of the parameters, all deformations, frameworks, spaces",
  "All tests use moduli of order one; absolute tolerances in the code cannot show.",
  [SI,*FWS,MT,MO],[("tangent skipped only if zero",SI)],["umat.gradient","umat.hessian"])
p("C15","Generalized invariants: any strain measure, normalised",
  "For every strain or deformation measure (constant derivatives of which may be numbers) and exponent the generalized-invariants formulation returns the derivatives of the documented energy of the normalised invariants. In volume-preserving directions the elasticity at the undeformed state does not depend on the exponent, and for the reference exponent two the invariants are the unscaled ones.",
  ["inputs","configurations"],"for all exponents (negative, fractional, integer), both measures and user-defined measures, all parameter sets and deformations",
  "test_generalized checks the initial slope of two load cases for four exponents and 1e-4 absolute tolerance; the third invariant and the elasticity are never checked.",
  [FG,MG,"src/hyperelastic/frameworks/_generalized.py"],[("normalisation coefficients",FG),("measures",MG)],["GeneralizedInvariantsFramework","hyperelastic.models.generalized"])
p("C16","Built-in models return the derivatives of their energies",
  "The first and second derivatives returned by the third-order-deformation, Ogden and automatic-differentiation models and by the strain measures equal the derivatives of the documented energy (measure) for all parameters and all (floating-point) arguments; an omitted derivative is one that vanishes identically. For automatic differentiation this holds for any differentiable energy, also one that is linear in or independent of some invariants, in the precision configured and whatever the grad-mode of the caller.",
  ["inputs","configurations"],"for all parameter sets (any subset zero), argument values and shapes, energies and default precisions",
  "Tests check the end result of two parameter sets on one curve; most parameters and all second derivatives are unchecked.",
  [MT,MO,MX,MG],[("gradient/hessian",MT),("gradient/hessian",MO),("autograd",MX)],["model.gradient","model.hessian","models.generalized.strain/deformation"])
p("C17","Evaluations do not depend on the call history",
  "The stress and elasticity returned by a material object depend only on the arguments of that call: not on earlier evaluations of the same object, of other objects built on the same framework or model, nor on arrays that were modified by the caller between the calls. Neither the arguments nor the arrays a user-defined model owns and returns are ever modified, and results handed out earlier are never changed by later calls.",
  ["histories"],"for all sequences of stress/elasticity evaluations over objects sharing models and frameworks, with changing batch shapes, deformations modified in place, and results modified by the caller",
  "Tests evaluate each object along one monotone path; stale intermediate state is always overwritten by the preceding call with the same argument.",
  [*SPACES,*FWS],[("intermediates stored on the instance are recomputed in each call",SD),("gradient re-evaluated inside hessian",FI)],["umat.gradient","umat.hessian"],
  [dict(name="instance attributes",meaning="intermediate results of the last call",where="self.C, self.S, self.I1, self.M ...")])
p("C18","State variables are threaded through unchanged",
  "The state variables given with the deformation reach the model as they are in both the stress and the elasticity evaluation (the elasticity sees the old ones), the new state variables returned by the model are returned by the stress evaluation, and nothing of this is stored or modified: advancing, repeating or discarding increments in any order gives what the model's own update rule gives.",
  ["histories","configurations"],"for all histories of trial evaluations, commits and elasticity evaluations, all frameworks and spaces, all numbers and shapes of state variables",
  "No test has a model with state variables at all.",
  [*SPACES,*FWS],[("statevars in x[-1], returned as second item",SD),("hessian(…, statevars_old)",FI)],["umat.gradient(x)[1]","umat.hessian","umat.x[-1]"])
p("C19","Parallel evaluation equals serial evaluation",
  "A material object created with threaded evaluation returns the same stress and elasticity as one without, for every number of worker threads, every order in which workers process their chunks and every batch shape.",
  ["schedules","inputs","configurations"],"for all schedules of the worker threads (completion orders, main-thread interleavings), pool sizes 1..4 (plus more workers than points), batch shapes, spaces and options",
  "One finite-element job uses the threaded path with whatever schedule the machine produces, on one batch shape, and compares nothing.",
  [SP,SD,SI,SL],[("einsumt in place of numpy.einsum",SP)],["Space(parallel=True)"])
p("C20","Independent material objects can be used concurrently",
  "Evaluating different material objects (sharing no framework or model instance) from different threads gives each thread the results it would get alone, for every interleaving of the threads; likewise for tensor math on different arrays and for different simulations.",
  ["schedules"],"for all interleavings of two threads (line-level scheduling points in the library) up to a preemption bound, all pairs of object kinds incl. equal batch shapes",
  "Tests are single-threaded.",
  [V,*SPACES,*FWS,LS],[("no module- or class-level mutable state",V)],["umat.gradient/hessian from several threads"])
p("C21","Load cases are isochoric and report the traction-free force",
  "The uniaxial, planar and biaxial load cases produce, for every positive stretch, volume-preserving diagonal deformation gradients with the prescribed stretch that are the identity at stretch one. The reported force per undeformed area is independent of any superposed hydrostatic pressure, vanishes at stretch one and equals the derivative of the energy along the load case w.r.t. the stretch (one half of it for biaxial), for any choice of loaded and traction-free axes.",
  ["inputs"],"for all stretches (compression and tension), array shapes, pressures, materials and axis choices",
  "The tests compare one pair of curves with each other and one fit result; pressure-independence and energies are not checked.",
  [LC],[("defgrad, stress",LC)],["hyperelastic.lab.Uniaxial/Planar/Biaxial"])
p("C22","Simulations bind parameters by label and evaluate pointwise",
  "A simulation's stress is, at every stretch of an array of any shape, the load-case force of the material created with each parameter value bound to its label, for any order of labels and any material space or framework; it always reflects the current parameters (ones if not given) and does not depend on earlier evaluations or on other stretches in the data. Evaluating a trial parameter set changes neither the parameters nor the stretch data.",
  ["inputs","histories","configurations"],"for all stretch arrays, label orders, load cases, materials and sequences of evaluations and parameter changes",
  "Tests only plot simulations with a fixed order of labels.",
  [LS,LC],[("stress_curve_fit",LS)],["Simulation.stress","Simulation.stress_curve_fit","Simulation.parameters"])
p("C23","Curve fit returns the least-squares optimum of the selected data",
  "Fitting returns the parameters that minimise the sum of squared differences between simulated and measured stresses over exactly the selected data points of all experiments, each simulation being compared with its own experiment; the reported residuals, their norm, the standard errors and the covariance belong to this optimum. Options are passed on to the solver.",
  ["inputs","configurations"],"for all lists of experiments/simulations (1..3, any order, different lengths), selections of data points (none, all, boolean, slices, deactivated experiment), initial guesses (any numeric type) and solver options",
  "Two fits with fixed data are run, one compared with recorded numbers.",
  [LO,LF,LE,LS],[("init_curve_fit, curve_fit",LO),("concatenate_curve_fit",LF)],["Optimize.curve_fit","Optimize.parameters/errors/residuals","norm_residuals","mean_relative_std"])
p("C24","Fit results are consistent after every sequence of fits",
  "After any sequence of fits, preparations and parameter changes on optimizations that share simulations or initial guesses, the parameters, errors and residuals of an optimization are those of its own last fit, every simulation evaluates with the parameters of the last operation that touched it, a repeated fit reproduces its result, and experiments, masks and the arrays given by the caller (initial guess, parameters of a simulation) are unchanged.",
  ["histories"],"for all operation sequences (fit, prepare, evaluate, set parameters) up to a depth over two optimizations sharing simulations and the initial guess",
  "Each test performs one single fit on fresh objects.",
  [LO,LS],[("parameters shared with the simulations",LO)],["Optimize","Simulation.parameters"],
  [dict(name="parameters",meaning="optimised values shared between optimization and simulations",where=LO)])
p("C25","Experiments convert data faithfully and plots show that data",
  "An experiment's stretch and stress are one plus displacement over length and force over area, point by point, for any array-like data (masked points stay masked); plots of experiments, simulations and optimizations show exactly these data with the given or default labels on the given or a new axes, and neither conversion nor plotting changes any data.",
  ["inputs","configurations"],"for all data (lists, integer or float arrays), areas, lengths, label and axes choices, and for every experiment/simulation pair of an optimization plot",
  "Tests only call the plot functions.",
  [LE,LP,LO],[("Experiment",LE),("LabPlotter",LP),("plot",LO)],["Experiment.stretch/stress","plot_stress_stretch","plot_force_displacement","Optimize.plot"])
p("C26","Materials drive finite-element bodies exactly",
  "A material finalized on a space works as a material of FElupe bodies: for any energy, space, mesh, field type (three-dimensional, plane strain, axisymmetric, mixed, nearly-incompressible) and displacement, and for any sequence of assemblies, stress evaluations, accepted or restored state variables on one or more bodies that share the material, the assembled internal forces and stiffness are the first and second derivative of the total strain energy w.r.t. the nodal displacements, the body's state variables (allocated from the material's attribute x) follow the model's own rule, and Newton-Raphson jobs converge to the same solutions as with an exact implementation of that energy.",
  ["inputs","configurations","histories"],"for all energies x spaces x element/field types x displacements x sequences of body operations, on one and on several bodies",
  "The tests run four jobs with a loose tolerance and look at no result; a wrong tangent only costs iterations, and an array that FElupe overwrites in place between two evaluations never matters in a monotone job.",
  [*SPACES,*FWS],[("gradient([F, statevars]) / hessian([F, statevars]), x",SD),("x, nstatevars",FI)],["felupe.SolidBody(umat, field).assemble","felupe.SolidBodyNearlyIncompressible","felupe.ThreeFieldVariation(umat)","felupe.Job"])
p("C27","Failed or interrupted evaluations leave no trace",
  "If an evaluation, a simulation or a fit ends with an exception at any point - raised by the user's model, by a refused argument or by an interruption -, then arguments, earlier results, experiments, start values (parameters are these, or the optimum if it had been found already) and the objects involved are as before: every later evaluation and fit, by the same object or by others that share its framework or model, gives what it gives without that failure, also if the failed evaluation was the first one of the process. The failure is never hidden.",
  ["crash_points","fault_sequences","histories"],"for every point at which an evaluation or fit can be left, and all histories of failing and succeeding operations up to a depth",
  "No test lets an evaluation fail; intermediate state of an abandoned evaluation only matters to a later one.",
  [*SPACES,*FWS,LO,LS],[("gradient, hessian (self.S, self.C, ...)",SD),("init_curve_fit, curve_fit",LO)],["Space.gradient/hessian","Simulation.stress","Optimize.curve_fit"])
p("C28","Evaluations reflect the current settings",
  "The parameters of a model, the model of a framework, the framework of a material, its finalize, force and area options, the load case, stretches, labels, parameters and material of a simulation, the force and area of an experiment, and the lists of experiments, simulations and selections and the parameters of an optimization may be replaced by assignment at any time, before or after evaluations: every later evaluation or fit gives what objects created with the current settings give. (The deformation measure of generalized invariants and the thread option are fixed at creation, the stretch of an experiment is computed at creation.)",
  ["histories","configurations"],"for all sequences of reconfigurations and evaluations up to a depth, on objects that share frameworks, models, experiments and simulations",
  "Tests configure every object once; stale intermediate values only matter if a setting is changed between two evaluations.",
  [*SPACES,*FWS,MO,MT,MX,LO,LS,LE],[("finalize, force, area",SP),("stress_curve_fit",LS),("init_curve_fit",LO)],["Space.gradient/hessian","Simulation.stress","Optimize.curve_fit","Experiment.stress"])
p("C29","Process-wide settings are neither changed nor relied upon",
  "Importing the library and every operation on its objects - evaluations, tensor math, simulations, fits, experiments, plots - leave all process-wide settings as the user has set them: the error handling, print options, random state and buffer size of numpy, the default precision, gradient mode, random state, threads and debugging modes of torch, the rc parameters and mode of matplotlib, warning filters, hooks, environment, directory and attributes of other packages; they print nothing and write no file. The results do not depend on these settings, whenever they are changed (except for the default precision of torch, in which torch models are evaluated).",
  ["histories","configurations"],"for all pairs of settings, changed before, between and after evaluations by new and by kept objects, and before the import",
  "Tests run in one process with one configuration; a setting that is changed by the library only harms code that runs afterwards.",
  [V,*SPACES,*FWS,MX,LO,LS,LE],[("imports torch and sets nothing",MX),("plots",LE)],["import hyperelastic","Space.gradient/hessian","Simulation.stress","Optimize.curve_fit","plot_stress_stretch"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
