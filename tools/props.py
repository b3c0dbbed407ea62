P = "ormatex_py/"
PROPS = []
NA = {}


def add(id, title, statement, over, forall, why, mech, tech, note, obs=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why,
                      mech=[(n, w if w.startswith("src/") else P + w) for n, w in mech], tech=tech, note=note, obs=list(obs)))


SYM = "symbolic tracing of the real functions (JAX operations over symbolic reals), z3 (QF_NRA/UF) decides the negated property"
REAL = "Floating point is read as real arithmetic. "

add("P01", "Exponential Rosenbrock and EPI integrators reach their documented order",
    "For a smooth system u' = f(t,u), autonomous or not, one step of size h from the exact solution has local error O(h^(p+1)), where p is 2 for "
    "exprb2, epi2 and their dense/pfd variants, 3 for exprb3 and for epi3 once it has exact history, and 4 for pexprb4; before epi3 has "
    "history it still has local error O(h^3).",
    ["inputs", "programs"], "every right-hand side (through its Taylor polynomial of the degree that matters), initial time and state, step size (as a formal variable)",
    "The regression tests compare a few trajectories of three systems with loose tolerances; a wrong coefficient, sign or missing time-derivative "
    "term that only lowers the order on other systems passes.",
    [("step formulas", "ode_exp.py:ExpRBIntegrator.step"), ("remainder and time derivative", "ode_sys.py:IntegrateSys._remf"),
     ("frozen linearisation", "ode_sys.py:OdeSys.fjac")],
    SYM + ", over power series in the step size",
    REAL + "n=2, Taylor data of degree p-1, all real coefficients; phi evaluators replaced by their defining series (P09-P13 decide those).")
add("P02", "Split exponential integrators reach their order for any linear part",
    "With an additive splitting f(t,u) = L u + N(t,u), the methods exp1, exp2 and exp3 (and their dense variants) have local error O(h^(p+1)) with p = 1, "
    "2 and 3, for every choice of the constant matrix L.",
    ["inputs", "programs"], "every splitting matrix, right-hand side (Taylor data), time, state, step size",
    "No passing test runs the split methods on a non-autonomous problem or on more than one splitting.",
    [("split steps", "ode_exp.py:ExpSplitIntegrator.step"), ("nonlinear remainder", "ode_exp.py:ExpSplitIntegrator._remf"), ("linear part", "ode_sys.py:OdeSplitSys.fl")],
    SYM + ", over power series in the step size", REAL + "n=2 unknowns, Taylor data of degree p, history-free methods.")
add("P03", "The explicit Runge-Kutta integrator is of order four",
    "One rk4 step of size h has local error O(h^5) for every smooth right-hand side, including time-dependent ones.",
    ["inputs"], "every right-hand side (Taylor data up to degree 3), time, state, step size",
    "Tests run one problem at one step size.",
    [("stages", "ode_explicit.py:RKIntegrator.step")], SYM + ", over power series in the step size", REAL + "n=2 unknowns.")
add("P04", "Leja-based EPI integrators reach their documented order",
    "One step of epi2_leja_re and epi2_leja_im has local error O(h^3), and one step of epi3_leja_im with exact history O(h^4), for every smooth right-hand "
    "side, provided the Leja evaluation of the exponential has converged.",
    ["inputs", "programs"], "every right-hand side (Taylor data), time, state, history, step size",
    "Leja integrators are in no passing test at all.",
    [("leja step", "ode_exp.py:ExpLejaIntegrator.step"), ("augmented operator", "matexp_leja.py:build_a_tilde")],
    SYM + ", over power series in the step size", REAL + "n=2 unknowns; the converged Leja evaluation is replaced by the exact exponential (P13, P16 decide it).")
add("P05", "Exponential integrators are exact on linear and affine systems",
    "For u' = A u + b + c t every Rosenbrock, EPI, dense, pfd and Leja-based step, and every split step whose linear part is A and whose order covers the "
    "forcing (exp1: c = 0), returns the exact solution at t+h for every step size h, whatever A is.",
    ["inputs", "configurations"], "every matrix, forcing vectors, state, step size; every method",
    "Tests integrate one Bateman matrix; exactness for every matrix, with and without forcing, singular or not, is a universally quantified identity.",
    [("rosenbrock steps", "ode_exp.py:ExpRBIntegrator.step"), ("split steps", "ode_exp.py:ExpSplitIntegrator.step"), ("leja steps", "ode_exp.py:ExpLejaIntegrator.step")],
    SYM + ", coefficients of the power series in the step size", REAL + "n=2; identity of the coefficients of h^0..h^5 (thorough: h^8).")
add("P06", "The threaded integrator's result does not depend on thread scheduling",
    "A pexprb4 step evaluates its stages on a thread pool; whatever order the tasks run in and wherever they are pre-empted, the step returns the "
    "same new state and time as when they run one after another.",
    ["schedules", "inputs"], "every interleaving of the tasks at right-hand-side evaluations and phi-vector products, every system",
    "Tests see the one schedule the machine happens to produce.",
    [("stage tasks", "ode_exp.py:ExpRBIntegrator._step_pexprb4"), ("thread pool", "ode_exp.py:ExpRBIntegrator.step")],
    "symbolic execution under a cooperative scheduler whose choices are branches; z3 decides equality of the resulting terms for every system",
    "Pre-emption points: right-hand-side evaluations and phi-vector products; at most 1 (thorough 2) slices between two submissions; one step.")
add("P07", "Steps are transactional: only accepted steps move time, state and history",
    "A step returns time t+dt and step size dt and leaves the integrator's time and state unchanged until it is accepted; computing and discarding a step has no effect "
    "on any later result. After accepting a step, even one whose state the caller corrected, time and state are those of the accepted step; after a restart "
    "from (t,y) the integrator behaves like a newly created one.",
    ["histories", "inputs"], "operation sequences of step/accept/discard/correct/restart, all step sizes, states and systems",
    "Tests only ever step and accept with one fixed step size; no test discards a step, changes the step size or restarts.",
    [("accept/reset protocol", "ode_sys.py:IntegrateSys.accept_step"), ("history", "ode_sys.py:IntegrateSys.reset_ic"), ("dense caches", "ode_exp.py:ExpSplitIntegrator.step")],
    "symbolic execution of operation sequences with uninterpreted systems; z3 decides equality with a fresh integrator",
    REAL + "Sequences of up to 3 operations plus a final step; n=2; 18 method variants; Leja warm-start data is outside (accuracy only).")
add("P08", "integrate() returns exactly the states and times of stepping by hand",
    "integrate(sys,y0,t0,dt,n,method) returns n+1 times t0+i*dt and n+1 states, the first being y0, equal to creating the method's integrator with the given options and stepping and accepting n "
    "times; before-step and after-accept callbacks are called once per step in order with the current system, time and state, and their results are collected. "
    "Method names that do not exist are rejected.",
    ["configurations", "inputs", "histories"], "every method name, options, start time, step size, number of steps, system, initial state",
    "Tests use t0=0 and a few methods; options such as Krylov dimension or pfd table being dropped only changes accuracy or cost.",
    [("dispatch", "integrate_wrapper.py:integrate"), ("stepping loop", "integrate_wrapper.py:integrate_ormatex"), ("diffrax adapter", "integrate_wrapper.py:integrate_diffrax")],
    "symbolic execution of integrate() with uninterpreted systems; z3 decides equality with stepping by hand",
    REAL + "n=2, nsteps 0..3 (thorough 4); diffrax itself is a contract (its arguments and the assembly of its result are checked); Rust methods are not built here.")
add("P09", "The dense phi-function evaluators compute phi_k",
    "f_phi_k, f_phi_k_inv, f_phi_k_ext, f_phi_k_sq(_all) return phi_k(Z) = sum_j Z^j/(j+k)! (with return_all: every order 0..k, in order) and f_phi_k_appl returns phi_k(Z)B with "
    "the shape of B, for every square Z and order k; near-singular Z is either computed correctly or warned about.",
    ["inputs"], "every matrix Z, order k, vector or block B",
    "Tests compare a few random matrices and small k; the recursions differ per k, per size and per number of squarings.",
    [("inverse formula", "matexp_phi.py:f_phi_k_inv"), ("extension formula", "matexp_phi.py:f_phi_k_ext"), ("scaling and squaring", "matexp_phi.py:f_phi_k_sq_all"), ("action on B", "matexp_phi.py:f_phi_k_appl")],
    SYM + ", over power series in a scale factor, and over intervals for the accuracy of scaling and squaring",
    REAL + "Sizes 1 and 2, k up to 4, coefficients up to h^4; expm is its series, QR an orthogonal factorisation.")
add("P10", "Partial fraction tables and evaluator give the named rational approximations",
    "f_phi_k_pfd(Z,B,k,name) returns r_k(Z)B with the shape of B, where r_0 is the named approximation of exp (the (m,n) Pade approximant for IE, CN and pade_m_n; within the best-approximation error "
    "on the negative axis for cram_n) and z r_k(z) = r_{k-1}(z) - r_{k-1}(0); the legacy tables approximate phi_1 within their error on [-40,0].",
    ["inputs", "configurations"], "every table name, every z in the stated interval, every order k, matrices and blocks B",
    "Tests use six of the 45 tables on one matrix with tolerance 1e-3; a wrong digit in a table or a wrong power of a pole in k>=2 goes unseen.",
    [("tables", "matexp_phi_pfd_dict.py:pfd_dict"), ("evaluator", "matexp_phi.py:f_phi_k_pfd")],
    "the evaluator is traced at a symbolic z; z3 (nonlinear real arithmetic) decides the error bound for every z in the interval",
    REAL + "z in [-100,2] (Pade), all z<=0 (CRAM); matrices 2x2; k up to 3 (thorough 4); table entries are exact binary values.")
add("P11", "Arnoldi returns an orthonormal Krylov basis and the projected operator",
    "arnoldi_lop(A,s,b,m,iom) returns Q with orthonormal columns, first column b/|b|, spanning the Krylov space of (A,b) cut at dimension min(m,n), and H = Q^T (sA) Q; at a "
    "breakdown the space is exactly the invariant one. With incomplete orthogonalisation each new unit vector is orthogonal to its iom predecessors and s A q_k = sum_j h_jk q_j; for operators "
    "whose recurrence is that short the result equals full orthogonalisation.",
    ["inputs"], "every operator, start vector, scale, Krylov dimension and orthogonalisation depth",
    "Tests take random matrices, where no breakdown happens and short recurrences never occur.",
    [("orthogonalisation step", "arnoldi_jax.py:arnoldi_mgs_lop"), ("driver and breakdown", "arnoldi_jax.py:arnoldi_lop_jit"), ("reduced result", "arnoldi_jax.py:arnoldi_lop")],
    SYM, REAL + "n <= 4 (thorough 5): A = Q H Q^T with symbolic H and fixed orthogonal Q; n=2 partly with everything symbolic; breakdown norm exactly 0 or >= 1e-3.")
add("P12", "Krylov and augmented-matrix reductions compute phi-vector products",
    "phi_linop(A,dt,v,k) = phi_k(dt A) v and matexp_linop(A,dt,v) = exp(dt A) v once the Krylov space is exhausted (below that, |v| Q phi_k(H) e1); kiops_fixedsteps(A,dt,[b_0..b_p]) = sum_j phi_j(dt A) b_j and "
    "exp of build_a_tilde's operator applied to its vector has that sum as its first n entries; a zero vector gives zero; Krylov dimension and depth are honoured.",
    ["inputs"], "every operator, step size, vectors (some or all of them zero), number of vectors",
    "No passing test calls these with more than two vectors, with vectors of very different norms or with a zero vector.",
    [("Krylov action", "matexp_krylov.py:phi_linop"), ("linear combinations", "matexp_krylov.py:kiops_fixedsteps"), ("augmented operator", "matexp_leja.py:build_a_tilde"), ("augmented product", "ode_sys.py:AugMatrixLinOp._matvec")],
    SYM, REAL + "n <= 3 (phi_linop, with the real Arnoldi), n <= 2 and up to 4 vectors (kiops); small matrix functions are arbitrary polynomials or truncated series.")
add("P13", "Leja evaluators return the Newton interpolant, and convergence means small terms",
    "real_leja_expmv, complex_conj_leja_expmv and complex_conj_imag_leja_expmv return (the real part of) the Newton interpolation polynomial in dt A, applied to u, with the given coefficients at the given shifted and "
    "scaled points, using exactly the number of terms they report; convergence is never reported while every computed term is at least tol |u|; u = 0 gives 0.",
    ["inputs"], "every operator, vector, step, shift, scale, points, coefficients, tolerance",
    "No passing test runs a Leja evaluator.",
    [("real points", "matexp_leja.py:real_leja_expmv"), ("conjugate pairs", "matexp_leja.py:complex_conj_leja_expmv"), ("imaginary points", "matexp_leja.py:complex_conj_imag_leja_expmv"), ("error estimate", "matexp_leja.py:decay_fun")],
    SYM, REAL + "2x2 companion matrices, up to 6 (thorough 7) points; for convergence up to 4 terms whose sizes are arbitrary. Coefficients are taken as given (P14).")
add("P14", "Divided-difference routines return the Newton coefficients of exp and phi_k",
    "newton_poly_div_diff returns the coefficients of the polynomial through the given values; leja_coeffs_exp_dd, leja_coeffs_exp, dd_exp_taylor, leja_coeffs_ts_phi and its JAX version return the divided differences "
    "of exp or phi_k at the shifted and scaled points; expm_taylor is the Taylor polynomial of exp(shift + scale A), and its argument is scaled down until the truncation is below tolerance; zero padding prepends distinct near-zero points.",
    ["inputs", "configurations"], "every shift, scale, step fraction and values; every point set of 2 or 3 real points and eight fixed sets (real, conjugate pairs, imaginary)",
    "Tests compare coefficients for one point set and one scale.",
    [("Newton form", "matexp_poly.py:newton_poly_div_diff"), ("matrix exponential", "matexp_poly.py:leja_coeffs_exp"), ("Taylor variant", "matexp_poly.py:dd_exp_taylor"), ("phi coefficients", "matexp_poly.py:leja_coeffs_ts_phi")],
    SYM + ", with shift and scale as power series", REAL + "Identities of the coefficients of eps^0..eps^3 (thorough eps^5) where shift and scale are multiplied by eps; accuracy for scales up to 3 (thorough 8) on two points, and a truncation bound for scales up to 500. complex64 precision of the JAX phi routine is outside.")
add("P15", "Generated interpolation points are Leja points of the requested region",
    "gen_leja_fast returns distinct points of [a,b] with both ends first and each further point maximising the product of distances over the midpoints the method considers; leja_seq_reordering returns a permutation in Leja order; "
    "gen_leja_conjugate and gen_leja_circle return conjugate-closed distinct points of the ellipse or circle they name.",
    ["inputs"], "every interval, every box, every list of at most 4 points; the listed point counts",
    "Tests never generate points on an interval other than the default.",
    [("fast Leja", "matexp_leja.py:gen_leja_fast"), ("reordering", "matexp_leja.py:leja_seq_reordering"), ("ellipse", "matexp_leja.py:gen_leja_conjugate")],
    "symbolic execution of the real functions on symbolic reals; z3 decides the negated property",
    REAL + "3..6 (thorough 7) fast points for every interval, 30 for intervals of fixed proportions; ellipses with 2..17, 32, 33, 64 points.")
add("P16", "Leja substepping covers the unit interval with converged substeps, or raises",
    "real_leja_expmv_substep and complex_conj_leja_expmv_substep return the first n entries of exp(A)v as a composition of converged substeps only, whose sizes add up to exactly one, whatever initial size is given and "
    "whichever substeps fail; failed substeps leave no trace; the substep interpolation gets the given (zero-padded) points and coefficients that interpolate exp at them. If the evaluation does not converge, the Leja integrators raise instead of returning a step.",
    ["inputs", "fault_sequences", "schedules"], "every initial substep size, vector, pattern of substep failures, padding, divided difference method",
    "No passing test runs a Leja evaluator, and substep failures need stiff operators or few points.",
    [("real driver", "matexp_leja.py:real_leja_expmv_substep"), ("conjugate driver", "matexp_leja.py:complex_conj_leja_expmv_substep"), ("integrators", "ode_exp.py:ExpLejaIntegrator")],
    "symbolic execution of the drivers with a symbolic initial size and every failure pattern as branches; z3 decides that the result is the exact flow over time 1",
    REAL + "Initial size in [1/3, 1.1], up to 3 (thorough 5) failures per evaluation; the interpolation itself is P13's contract on a nilpotent 3x3 operator.")
add("P17", "Linear operators are their matrices; Jacobian operators are true derivatives",
    "For every linear operator the matrix-vector product, call, numpy-compatible product and dense form are those of one and the same matrix (identity, diagonal, dense, sparse, augmented); the Jacobian operator of a system at (t,u) "
    "is df/du there with df/dt as its time derivative and f(t,u) as its cached value: exactly for automatic differentiation and supplied Jacobians, up to the finite-difference error otherwise, scale and shift included.",
    ["inputs"], "every matrix, vector, right-hand side (Taylor data and right-hand sides with exp, sin, cos, sqrt), time, state (zero included), scale and shift",
    "Tests compare one Jacobian at one point; an operator that is wrong only at u = 0, at an integer time, with a shift or for repeated sparse entries passes.",
    [("operators", "ode_sys.py:MatrixLinOp"), ("automatic differentiation", "ode_sys.py:AdJacLinOp"), ("finite differences", "ode_sys.py:FdJacLinOp"), ("supplied Jacobian", "ode_sys.py:CustomJacLinOp")],
    SYM, REAL + "n <= 4; Taylor data of degree 3 (thorough 4); default finite-difference step: error at most 1e-6 relative to the second derivatives, n = 2.")
add("P18", "Steps keep equilibria fixed and conserve linear invariants",
    "If w.f(t,u) = 0 for every t and u (and w.L = 0 for the split methods' linear part), every step of every one-step, multi-step, split, Leja and Runge-Kutta method keeps w.u; if f(t,u0) = 0 for every t, a step from u0 returns u0, for every step size.",
    ["inputs", "configurations"], "every right-hand side with the invariant or equilibrium (Taylor data), every weight, splitting, state, history with the same invariant; every method",
    "Tests check mass of one Bateman run to a loose tolerance; a wrong weight of one remainder term breaks conservation at the level of the local error, where accuracy tests cannot see it.",
    [("rosenbrock steps", "ode_exp.py:ExpRBIntegrator.step"), ("split steps", "ode_exp.py:ExpSplitIntegrator.step"), ("leja steps", "ode_exp.py:ExpLejaIntegrator.step"), ("rk4", "ode_explicit.py:RKIntegrator.step")],
    SYM + ", over power series in the step size", REAL + "n=2, Taylor data of degree 2; identity of the coefficients of h^0..h^4 (thorough h^5). exp_pfd only for linear systems.")
add("P19", "Bateman matrices follow the decay library; chain solutions solve the chain",
    "gen_bateman_matrix places, for every library and every species order, minus the sum of its branch constants on each species' diagonal and every branch's constant at (daughter, parent), nothing else ('none' is a loss), so that libraries whose branches all have daughters conserve the total; "
    "gen_transmute_matrix is minus the flux times that matrix; analytic_bateman_single_parent solves the chain it is given with the initial amount in the first species, for distinct constants (the last one may be zero), and refuses matrices that are not such a chain.",
    ["inputs", "configurations"], "every library structure of the stated sizes, every constant, flux, species order; every set of distinct constants and initial amount",
    "Tests use one single-branch library and one set of constants.",
    [("decay matrix", "progression/bateman_sys.py:gen_bateman_matrix"), ("transmutation", "progression/bateman_sys.py:gen_transmute_matrix"), ("analytic chain", "progression/bateman_sys.py:analytic_bateman_single_parent")],
    SYM, REAL + "Libraries of up to 4 species and 3 branches per species; chains of up to 4 species, Taylor coefficients in t (enough of them to determine the solution).")
add("P20", "Shipped models' Jacobians, linear parts and time derivatives are consistent",
    "For the shipped predator-prey, Bateman test and advection-diffusion systems (steady and with time-dependent boundary data), the supplied Jacobian and time derivative are the derivatives of the right-hand side the model computes, the linear part of split systems does not depend on the "
    "state and equals the linear operator the model is built from, Dirichlet rows have zero right-hand side (or follow the prescribed boundary data), and the mass operator is the lumped mass matrix.",
    ["inputs", "configurations"], "every parameter, state, time; every stiffness matrix, lumped mass and Dirichlet set the assembler could deliver",
    "Tests integrate two of these systems with one parameter set.",
    [("predator-prey", "progression/lotka_volterra.py:LotkaVolterra"), ("linear transport", "progression/advection_diffusion_1d.py:AffineLinearSEM"), ("time-dependent transport", "progression/advection_diffusion_1d.py:NonautonomousSEM")],
    SYM, REAL + "3 nodes; the finite element assembly is replaced by arbitrary matrices (P22 decides it); time away from the kinks of the torus distance.")
add("P21", "Species source terms follow their rate laws and conserve what they move",
    "Mass-transfer and reaction terms are the documented rate laws (order, coefficient, sign, limiting), move between species exactly what they remove from one and add to the other, and the multi-species advection-diffusion systems add them at the species and mesh point they belong "
    "to, with each species' linear part, Dirichlet nodes and decay; stacking and flattening states are inverse to each other; closed multi-species systems conserve the total inventory.",
    ["inputs", "configurations"], "every concentration, coefficient, tank volume; every stiffness matrix, mass, state, Dirichlet set",
    "No passing test touches the reactor models.",
    [("rate laws", "progression/species_source_sink.py:mxf_liq_vapor_lin"), ("bubbles", "progression/species_source_sink.py:bubble_surface_area"), ("Bateman with transfer", "progression/bateman_nonlin_sys.py:NonlinearBateman"), ("transport", "progression/rad_1d_3s.py:RAD_SEM")],
    SYM, REAL + "1..4 points times 1..4 species for the layout, 2 or 3 mesh points for the transport systems; assembly replaced by arbitrary matrices (P22).")
add("P22", "Spectral-element assembly reproduces the advection-diffusion operator",
    "The operators AdDiffSEM assembles act on every polynomial of degree up to p as the advection-diffusion operator does at every node (fixed nodes: zero, natural outflow at the right end), on every mesh; the stabilisation adds exactly tau*h*|velocity|/2 of diffusion on uniform "
    "meshes, constants are steady, periodic transport conserves the inventory, the lumped mass is positive quadrature of the length, variable velocity (of either sign) and sources enter where they belong, keyword arguments reach the field functions, zero velocity is pure diffusion; the nodal element's basis is the Lagrange basis of the "
    "Gauss-Lobatto points at any points asked for, in any order of calls.",
    ["inputs", "configurations"], "every velocity, diffusivity, tau, source, element size, polynomial coefficient; orders 1..4, 1..4 elements",
    "No passing test assembles an operator.",
    [("assembly", "progression/advection_diffusion_1d.py:AdDiffSEM"), ("element", "progression/element_line_pp_nodal.py:ElementLinePp_nodal"), ("quadrature", "progression/element_line_pp_nodal.py:GLL_quad")],
    SYM, REAL + "scikit-fem's own assembly loops run on symbolic arrays; node coordinates are compared to 1e-14 and operators to 1e-10.")
add("P23", "Leja methods get a nonempty finite spectral interval from Rayleigh quotients",
    "The power iteration returns the Rayleigh quotient of its last iterate and the normalised image of that iterate, stops exactly when the estimate changes by no more than the tolerance or the iteration limit is reached, and never returns NaN; the shift and scale derived from it "
    "describe the interval between zero and the scaled estimate and are never empty; the Leja integrators hand exactly the estimated or user-supplied interval or ellipse, times the step size, with their options, to the generator and the evaluator, and are exact on nilpotent linear systems.",
    ["inputs", "configurations"], "every operator within the bounds, start vector, scale factor, step size, interval half axes",
    "Tests use two operators with one dominant negative eigenvalue.",
    [("power iteration", "matexp_leja.py:power_iter"), ("interval", "matexp_leja.py:leja_shift_scale"), ("steps", "ode_exp.py:ExpLejaIntegrator")],
    SYM, REAL + "operators up to 3x3 (4x4 diagonal); b0 = 0 is outside.")
add("P25", "Before-step controls reach every right-hand side evaluation of that step",
    "What callback_before_step returns is handed to the system's right-hand side (keyword frhs_kwargs) at every evaluation the step makes - all stages, the remainder at the previous state, the Jacobian, its time derivative and its cached value - and only in that step: "
    "each step of integrate() with a callback equals the same step, after the same accepted results, of the system with that control built in. An empty dict, None or no callback means no controls; the callback's results are recorded as they are.",
    ["histories", "configurations", "inputs"], "every controlled system (uninterpreted functions of time, state and control), every sequence of control values, state, step size, every native method",
    "No test uses the callback; dropping the control in one stage leaves every run without callbacks unchanged and is only an accuracy loss with one.",
    [("stepping loop", "integrate_wrapper.py:integrate_ormatex"), ("rosenbrock steps", "ode_exp.py:ExpRBIntegrator.step"), ("leja steps", "ode_exp.py:ExpLejaIntegrator.step"), ("split steps", "ode_exp.py:ExpSplitIntegrator.step"),
     ("rk4", "ode_explicit.py:RKIntegrator.step"), ("Jacobian operators", "ode_sys.py:SysJacLinOp")],
    "symbolic execution of integrate() with uninterpreted controlled systems; z3 decides equality with steps of the system with the control built in",
    REAL + "n=2, 3 steps (thorough 4), one numeric control entry; the linear part of split systems gets no controls; diffrax and Rust methods take none.")
add("P24", "The Rust integrators reach their documented order and agree with Python",
    "The Rust exponential Rosenbrock, EPI, Runge-Kutta, backward Euler, BDF2 and Crank-Nicolson integrators reach their documented orders, the Rust phi and exponential evaluators compute what the Python ones compute, and a rejected step leaves time, state and history unchanged.",
    ["inputs", "histories"], "every right-hand side, step size, history", "The Rust tests are not among the tests that run here.",
    [("EPI", "src/ode_epirk.rs:EpirkIntegrator"), ("BDF", "src/ode_bdf.rs:BdfIntegrator"), ("phi functions", "src/matexp_pade.rs:phi")],
    "none", "not claimed")
NA["P24"] = ("The crate cannot be compiled here: faer, faer-traits, num-complex, reborrow and pyo3 are not in the offline cargo cache, so neither MIR/LLVM IR for symbolic execution nor a build to replay a counterexample on "
             "can be obtained; checking a hand-made transcription would not be a check of the real code. The installed Python package and its tests do not use the crate.")
