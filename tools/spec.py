"""Source of properties.jsonl and MANIFEST.json.  Run from /verif: python3 tools/spec.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'spectralDNS/solvers/'
O = 'spectralDNS/optimization/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append((d, technique, note))


prop('C01', 'Periodic solvers evaluate the right-hand side of their equations',
     'Every right-hand side a periodic solver (2D/3D Navier-Stokes, velocity-vorticity, MHD, 2D Boussinesq) evaluates during a run '
     'equals, to rounding, the Fourier-Galerkin right-hand side of its governing equations at the state it is evaluated at: '
     'convection in the chosen form and dealiasing, pressure projection, diffusion, buoyancy and source. '
     'Evaluating it does not change that state, and nothing but that state and the parameters matters.',
     ['inputs', 'configurations', 'histories'],
     'all fields without Nyquist content, even and odd meshes, anisotropic boxes, all convection forms, dealiasing methods, parameters and sources, all moments of a run',
     'The tests run Taylor-Green and a few other symmetric flows on cubic meshes and compare one energy at the end to a few digits; '
     'terms that vanish by symmetry (mean flow, anisotropic boxes, sources, most forms and dealiasing on random fields) are never seen.',
     [S+'NS.py', S+'NS2D.py', S+'VV.py', S+'MHD.py', S+'Bq2D.py', 'spectralDNS/maths/cross.py'],
     [('convection forms', S+'NS.py:getConvection'), ('pressure and diffusion', S+'NS.py:add_pressure_diffusion'),
      ('vorticity form', S+'VV.py:ComputeRHS'), ('Elsasser form', S+'MHD.py:divergenceConvection'),
      ('buoyancy', S+'Bq2D.py:add_pressure_diffusion')],
     ['every ComputeRHS call made by solve()'],
     'online monitor: every RHS evaluation against an independent reference model',
     'Held on the executed runs; the oracle is an independent NumPy-FFT evaluation (vlib/ref.py), tolerance 1e-11 of the size of the terms.')

prop('C02', 'Periodic velocities and magnetic fields stay divergence free and real',
     'From a divergence-free start, the velocity (and vorticity, and magnetic field) of every periodic solver is divergence free to rounding after every step and at every stage, '
     'for every integrator, convection form, dealiasing and domain. The spectral state stays the transform of a real field without Nyquist content, and the velocity handed to the user is the transform of that state.',
     ['inputs', 'configurations', 'histories'],
     'all solenoidal initial fields, meshes, boxes, integrators, forms, dealiasing methods, decompositions and numbers of steps',
     'No test checks the divergence of any periodic run, and energies do not reveal it.',
     [S+'NS.py', S+'VV.py', S+'MHD.py', S+'NS2D.py', S+'Bq2D.py', 'spectralDNS/maths/integrators.py'],
     [('projection', S+'NS.py:add_pressure_diffusion'), ('antisymmetric induction term', S+'MHD.py:set_Elsasser'),
      ('curl of the velocity', S+'VV.py:ComputeRHS'), ('Nyquist mask', S+'NS.py:ComputeRHS')],
     ['state at every RHS evaluation and after every step', 'get_velocity, get_divergence'],
     'online invariant monitor on every stage and step',
     'Held on the executed runs; divergence measured with the monitor\'s own wavenumbers, tolerance 1e-12 relative.')

prop('C03', 'Conservation laws and budgets of the periodic equations hold',
     'With aliasing removed, the computed tendencies conserve exactly what the equations conserve: mean momentum always, energy and helicity (3D), energy and enstrophy (2D), total energy, cross and magnetic helicity (MHD) without dissipation, '
     'and with dissipation, sources or buoyancy each of these changes by exactly its budget. Over a run the invariants drift no more than the order of the time integrator allows.',
     ['inputs', 'configurations', 'histories'],
     'all admissible fields, convection forms, dealiasing by truncation or padding, domains and parameters',
     'The tests look at the energy of one decaying symmetric flow; helicity, enstrophy, cross helicity, momentum and density variance are never computed.',
     [S+'NS.py', S+'NS2D.py', S+'VV.py', S+'MHD.py', S+'Bq2D.py', 'spectralDNS/maths/integrators.py'],
     [('rotation form', S+'NS.py:getConvection'), ('dealiasing', S+'NS.py:get_context'), ('Elsasser form', S+'MHD.py:divergenceConvection')],
     ['state and tendency at every RHS evaluation', 'state after every step'],
     'online budget monitor plus offline drift check over the recorded trajectory',
     'Held on the executed runs; budgets are bilinear identities evaluated from state and tendency only (no reference solver), tolerance 1e-11.')

prop('C04', 'Fixed-step integrators advance the solution with their stated scheme',
     'Each fixed-step integrator (forward Euler, second-order Adams-Bashforth, classical Runge-Kutta 4, Bogacki-Shampine 5) produces the trajectory of its mathematical scheme applied to the governing equations, '
     'including the first step, a shortened last step, a nonzero starting time or step number, and consecutive solves. Its error therefore decreases with the stated order as the step is refined.',
     ['inputs', 'configurations', 'histories'],
     'all periodic solvers, initial fields, step sizes, start times and step numbers, end times that are not multiples of the step, repeated solves in one process',
     'Tests use one flow, start at t=0 and step 0, and end times that are multiples of dt; a wrong coefficient of a small term survives their tolerance.',
     ['spectralDNS/maths/integrators.py', 'spectralDNS/__init__.py'],
     [('RK4, AB2, ForwardEuler, adaptiveRK', 'spectralDNS/maths/integrators.py'), ('time loop', 'spectralDNS/__init__.py:solve')],
     ['state after every step (update callback)'],
     'offline trace check: recorded trajectory against an executable model of the scheme',
     'Held on the executed runs; the model integrates the independent right-hand side of C01, tolerance 1e-11.')

prop('C05', 'Time bookkeeping and adaptive step control keep their promises',
     'Time advances by exactly the step taken, the step counter by one, and a periodic run ends exactly at the end time without passing it and leaves the configured step unchanged. '
     'The adaptive integrator only accepts steps whose embedded error estimate meets the tolerance, retries rejected steps from the unchanged state with a smaller step, lets 0.8 est^(-1/5) times a step follow it, never more than 2 or less than 0.01 times (nor more than once after a rejection), and announces every rejection.',
     ['inputs', 'configurations', 'histories'],
     'all solvers and integrators, initial fields, tolerances, initial steps (far too large to far too small), start and end times',
     'The adaptive integrator is tested on one flow by its final energy; rejections, last steps and accepted error are not observed.',
     ['spectralDNS/__init__.py', 'spectralDNS/maths/integrators.py', S+'NS.py', S+'spectralinit.py'],
     [('time loop', 'spectralDNS/__init__.py:solve'), ('step control', 'spectralDNS/maths/integrators.py:adaptiveRK'), ('last step', S+'NS.py:end_of_tstep')],
     ['update, additional_callback and end_of_tstep calls', 'params.t, params.dt, params.tstep'],
     'trace specification over recorded step events, with recomputed error estimates',
     'Held on the executed runs; every accepted step is recomputed from its start state with an independent embedded pair.')

prop('C06', 'Optimised implementations compute what the NumPy implementation computes',
     'For every solver, dimension, precision, integrator, convection form and dealiasing, choosing a compiled implementation (Cython, Numba, Pythran) gives the same solution as the plain implementation up to rounding, and accepts every configuration the plain one accepts. '
     'Each optimised routine gives, for any arrays, the result of the routine it replaces.',
     ['inputs', 'configurations'],
     'all routines that have an optimised version, all array shapes including odd and unequal ones, all values',
     'The tests run the optimised code on cubic meshes of one flow and compare one energy to a few digits; several routines are never reached.',
     [O+'__init__.py', O+'cython_maths.in', O+'cython_integrators.in', O+'cython_solvers.in', O+'numba_module.py', O+'pythran_module.py', O+'pythran_maths.py'],
     [('dispatch', O+'__init__.py:optimizer'), ('kernels', O+'*.in'), ('kernels', O+'numba_module.py'), ('kernels', O+'pythran_maths.py')],
     ['arguments and results of each routine', 'fields at the end of paired runs'],
     'differential monitor: paired executions and per-call shadow execution of each routine',
     'Held on the executed pairs; tolerance 1e-12 (double) and 1e-5 (single) relative.')

prop('C07', 'Native code never touches memory outside its arrays',
     'No compiled routine (Cython kernels, wall-normal matrix kernels, the C++ program) reads or writes outside the arrays it is given or executes undefined behaviour, for every mesh shape and every configuration in which the package calls it.',
     ['inputs', 'configurations'],
     'all mesh shapes (even, odd, unequal, small), dimensions, precisions, solvers, forms, integrators and process counts',
     'The kernels are compiled with bounds checks off; an access just outside an array usually returns a plausible number and the tests pass.',
     [O+'cython_maths.in', O+'cython_integrators.in', O+'cython_solvers.in', 'spectralDNS/shen/LUsolve.pyx', 'cpp/spectralDNS.cpp'],
     [('loops over array shapes', O+'*.in'), ('pointer kernels', 'spectralDNS/shen/LUsolve.pyx:Mult_CTD_1D_ptr'), ('FFTW arrays', 'cpp/spectralDNS.cpp')],
     ['every element access in instrumented builds'],
     'sanitizer builds (AddressSanitizer, UBSan) and Cython bounds checking under solver workloads and guarded kernel calls',
     'Held on the executed kernels; arrays of direct kernel calls are exact-size heap blocks so that one element outside is reported.')

prop('C08', 'Results do not depend on the number of processes or the decomposition',
     'On any number of MPI processes and with slab or pencil decomposition, every solver computes the same fields, diagnostics, time steps and files as on one process, up to rounding.',
     ['configurations', 'schedules', 'inputs'],
     'process counts 1-8 (also more than divide the mesh evenly), both decompositions, all solvers, forms, dealiasing methods and integrators including the adaptive one',
     'The tests run serially; local indexing, reductions and rank-0 special cases are only exercised with one rank.',
     [S+'NS.py', S+'KMM.py', S+'KMMr.py', S+'Coupled.py', 'spectralDNS/maths/integrators.py', 'spectralDNS/utilities/__init__.py', 'spectralDNS/h5io/HDF5File.py'],
     [('decomposition', S+'NS.py:get_context'), ('error norm', 'spectralDNS/maths/integrators.py:adaptiveRK'), ('zero wavenumber on rank 0', S+'KMM.py:solve_linear'), ('reduction', 'spectralDNS/utilities/__init__.py:dx')],
     ['gathered global state after every step on 1..8 ranks'],
     'multi-process runs with a monitor on the gathered global state, against independent references and the one-process run',
     'Held on the executed runs.')

prop('C09', 'A checkpoint restores the run without loss',
     'A checkpoint file holds exactly the spectral state, time and step number of the step it was written at. '
     'A run restarted from it (in a new process, on any number of processes) continues as the uninterrupted run would, to rounding for one-step schemes and the two-level channel schemes. '
     'Appending to an existing file loses nothing already in it.',
     ['histories', 'crash_points', 'configurations'],
     'all solvers, checkpoint intervals, interruption points, file modes, numbers of processes before and after',
     'No test reads a checkpoint back.',
     ['spectralDNS/h5io/HDF5File.py', S+'NS.py', S+'VV.py', S+'MHD.py', S+'Bq2D.py', S+'KMM.py'],
     [('checkpoint writing', 'spectralDNS/h5io/HDF5File.py:update'), ('what is stored', S+'*.py:get_context')],
     ['files on disk', 'trajectories before and after the restart'],
     'history monitor over interrupted, killed and restarted runs',
     'Held on the executed histories; states compared exactly with the recorded ones, trajectories to 1e-12.')

prop('C10', 'Results and checkpoints are written at exactly the requested steps',
     'Results are written at exactly the steps that are multiples of the result interval, and contain the physical fields of that step; checkpoints at exactly the multiples of the checkpoint interval. '
     'A kill file in the run folder stops the run after the step in progress, with a checkpoint of that step written and the file removed, and writing never changes the solution.',
     ['configurations', 'histories', 'fault_sequences'],
     'all intervals, solvers, file modes, moments at which the kill file appears, numbers of processes',
     'No test opens an output file or uses the kill file.',
     ['spectralDNS/h5io/HDF5File.py', 'spectralDNS/__init__.py', S+'NS.py', S+'KMM.py'],
     [('schedule', 'spectralDNS/h5io/HDF5File.py:update'), ('kill file', 'spectralDNS/h5io/HDF5File.py:check_if_kill'), ('components', S+'*.py:update_components')],
     ['files on disk', 'exit status', 'state after every step'],
     'offline check of the written files against the recorded trajectory, with injected kill files',
     'Held on the executed histories.')

prop('C11', 'The time loop calls the user back in the promised order, on the promised state',
     'In every run the user functions see each step exactly once and in order: the update function after the step with time and step number already advanced and the new solution in place, then output, then the end-of-step function, whose true value ends the run; the regression function once at the end. '
     'The integrator\'s extra callback sees the right-hand side at the start of the step, and functions not supplied have no effect.',
     ['histories', 'configurations'],
     'all solvers and integrators, all combinations of user functions, early stops, changes of the step size, and of the solution or the source between steps (with one-step integrators and AB2)',
     'The tests supply callbacks but never check when and on what they are called.',
     ['spectralDNS/__init__.py', S+'spectralinit.py', 'spectralDNS/maths/integrators.py'],
     [('loop', 'spectralDNS/__init__.py:solve'), ('registration', 'spectralDNS/__init__.py:get_solver')],
     ['call log of every user function'],
     'trace specification automaton over the recorded call log',
     'Held on the executed runs.')

prop('C12', 'Channel flows satisfy no-slip and continuity at every step',
     'After every step of every channel solver the velocity vanishes at both walls, is divergence free to rounding, and the mean wall-normal velocity is zero; the reported divergence is the divergence of the reported velocity. '
     'This holds for every convection form, dealiasing, quadrature, forcing, box and resolution.',
     ['inputs', 'configurations', 'histories'],
     'all initial fields satisfying the boundary conditions, all channel solvers and their options',
     'The channel tests follow one eigenmode at one resolution.',
     [S+'KMM.py', S+'KMMr.py', S+'KMMRK3.py', S+'Coupled.py', S+'CoupledRK3.py', S+'KMM_RB.py', S+'KMMRK3_RB.py'],
     [('bases that satisfy the conditions', S+'KMM.py:get_context'), ('v, w from u, g', S+'KMM.py:solve_linear'), ('coupled system', S+'Coupled.py')],
     ['state after every step and stage, evaluated at the walls by the monitor'],
     'online invariant monitor after every step',
     'Held on the executed runs; the monitor evaluates and differentiates the Chebyshev expansions itself.')

prop('C13', 'Channel solvers integrate the Navier-Stokes equations in a channel',
     'Every channel solver, from any admissible initial field and pressure gradient, follows the trajectory of the stated semi-implicit scheme (Crank-Nicolson with Adams-Bashforth, or the three-stage Runge-Kutta scheme) for the incompressible equations between two walls, whatever convection form, dealiasing, quadrature or wall-normal axis is used. '
     'In particular mean flow, forcing and all wavenumbers are advanced consistently.',
     ['inputs', 'configurations', 'histories'],
     'all resolved fields, viscosities, steps, boxes, resolutions, forms, dealiasing methods, quadratures and solvers',
     'The tests follow a two-dimensional eigenmode on a laminar profile: spanwise flow, forcing, most forms, dealiasing and other solvers are not observed.',
     [S+'KMM.py', S+'KMMr.py', S+'KMMRK3.py', S+'Coupled.py', S+'CoupledRK3.py', 'spectralDNS/shen/LUsolve.pyx', 'spectralDNS/shen/Matrices.py'],
     [('right-hand side', S+'KMM.py:ComputeRHS'), ('linear solves', S+'KMM.py:solve_linear'), ('RK3 stages', S+'KMMRK3.py:integrate'), ('coupled solve', S+'Coupled.py')],
     ['velocity after every step'],
     'offline trace check against an independent Chebyshev-collocation channel code',
     'Held on the executed runs; tolerance 1e-8 for Adams-Bashforth solvers and a measured splitting error for the Runge-Kutta ones.')

prop('C14', 'Rayleigh-Benard solvers transport heat and feel buoyancy correctly',
     'The Rayleigh-Benard solvers advance temperature by advection and diffusion with the prescribed wall temperatures held at every step, and accelerate the flow by buoyancy, following the stated scheme. '
     'Without motion the temperature relaxes to the conductive profile, which is a steady state.',
     ['inputs', 'configurations', 'histories'],
     'all resolved velocity and temperature fields, diffusivities, viscosities, boxes, dealiasing methods, forms and quadratures',
     'No test runs these solvers.',
     [S+'KMM_RB.py', S+'KMMRK3_RB.py'],
     [('temperature right-hand side', S+'KMM_RB.py:ComputeRHS'), ('Helmholtz solve', S+'KMM_RB.py:solve_linear')],
     ['velocity and temperature after every step'],
     'offline trace check against an independent reference, plus online boundary monitor',
     'Held on the executed runs.')

prop('C15', 'Wall-normal matrix kernels equal the operators they stand for',
     'For every size, quadrature, axis and right-hand side, the package\'s banded matrix-vector products and derivative kernels for the wall-normal direction equal the dense operators (Galerkin mass, stiffness and biharmonic combinations, Chebyshev differentiation, divergence) applied to the same vectors.',
     ['inputs', 'configurations'],
     'all sizes (from 8; biharmonic from 16), even and odd, all axes, quadratures, coefficients and complex vectors',
     'The tests check one size with one vector.',
     ['spectralDNS/shen/Matrices.py', 'spectralDNS/shen/LUsolve.pyx'],
     [('HelmholtzCoeff, BiharmonicCoeff', 'spectralDNS/shen/Matrices.py'), ('Mult_Div_1D, Mult_CTD_3D_ptr', 'spectralDNS/shen/LUsolve.pyx')],
     ['results of direct calls and of calls made during channel runs'],
     'differential monitor on kernel calls against dense matrices by high-order quadrature',
     'Held on the executed calls; dense operators are built from polynomials with NumPy, not with shenfun.')

prop('C16', 'The configuration means what was set, and only that',
     'A parameter set by the application, by the command line or after the fact has the value that was set last (command line over application default), is the same through attribute and key access, and is what the run uses; mesh and box sizes are derived consistently and cannot be changed in place. '
     'Choices the command line does not offer are refused, missing parameters are reported as missing, and defaults of one mesh type do not reach another.',
     ['inputs', 'configurations', 'histories'],
     'all sequences of settings, all parameters and legal values, all mesh types and solvers',
     'The tests set a few parameters in one order.',
     ['spectralDNS/config.py', 'spectralDNS/__init__.py'],
     [('Params', 'spectralDNS/config.py:Params'), ('parsers', 'spectralDNS/config.py'), ('update', 'spectralDNS/config.py:update'), ('get_solver', 'spectralDNS/__init__.py')],
     ['values read back, and shapes, domains and coefficients of the context'],
     'model-based history checker over random operation sequences',
     'Held on the executed histories.')

prop('C17', 'Diagnostics are correct and do not disturb the run',
     'Velocity, vorticity, divergence, density and velocity derivatives obtained from a solver at any moment are those of its current state, the pressure is that of the right-hand side evaluated last, and asking for them any number of times at any moment leaves the subsequent solution unchanged. '
     'Setting the velocity and getting it back is the identity on admissible fields.',
     ['inputs', 'histories', 'configurations'],
     'all solvers that offer the diagnostic, all fields, all moments and orders of calls',
     'The tests use diagnostics only in energies, and never compare a run with and without them.',
     [S+'NS.py', S+'NS2D.py', S+'VV.py', S+'MHD.py', S+'Bq2D.py', S+'KMM.py', S+'KMMr.py', S+'Coupled.py'],
     [('get_velocity, get_curl, get_pressure, get_divergence', S+'*.py'), ('work arrays', S+'NS.py:compute_curl')],
     ['return values of diagnostic calls injected between and inside steps', 'final states with and without them'],
     'monitor with injected diagnostic calls, and paired runs',
     'Held on the executed runs; oracle: independent spectral evaluation.')

prop('C18', 'Solutions respect the symmetries of the equations',
     'Translating by grid points, reflecting or permuting the axes, reversing the magnetic field, or scaling length and time of the initial condition transforms the computed solution in the same way, up to rounding. '
     'A flow that is two-dimensional or unidirectional stays so.',
     ['inputs', 'configurations'],
     'all fields, domains and solvers, all symmetry operations of the discretisation',
     'A single symmetric flow cannot reveal an asymmetry between components or axes.',
     [S+'NS.py', S+'VV.py', S+'MHD.py', S+'NS2D.py', S+'Bq2D.py', S+'KMM.py', S+'KMMr.py'],
     [('component-wise formulas', S+'NS.py:divergence_convection')],
     ['final states of paired runs'],
     'metamorphic monitor over paired executions',
     'Held on the executed pairs; tolerance 1e-11.')

prop('C19', 'The standalone C++ and short Python programs solve the same problem',
     'For every resolution, viscosity, step and number of processes they accept, the C++ program and the short Python program report the energies of the pseudo-spectral Runge-Kutta solution of the Taylor-Green flow up to rounding, the same as each other, and the same as the package\'s own solver where the flow is resolved.',
     ['configurations', 'schedules'],
     'all resolutions and process counts the programs accept',
     'Neither program is run by the tests.',
     ['cpp/spectralDNS.cpp', 'spectralDNS3D_short.py', S+'NS.py'],
     [('time loop', 'cpp/spectralDNS.cpp:main'), ('time loop', 'spectralDNS3D_short.py')],
     ['printed energies'],
     'differential monitor over the outputs of both programs, the package and a reference',
     'Held on the executed resolutions and process counts; tolerance 1e-12.')

prop('C20', 'Single precision runs follow double precision runs',
     'Every periodic solver that accepts single precision runs every configuration it runs in double precision, keeps its fields in single precision, ends at the same time after the same number of fixed steps, and its solution differs by no more than accumulated single rounding.',
     ['inputs', 'configurations'],
     'all periodic solvers, integrators, forms, dealiasing methods, end times and fields',
     'The tests run single precision on one flow with a tolerance of a few digits.',
     ['spectralDNS/config.py', S+'spectralinit.py', S+'NS.py', 'spectralDNS/maths/integrators.py'],
     [('data types', S+'spectralinit.py:datatypes'), ('parameter rounding', 'spectralDNS/config.py:Params')],
     ['fields, times and step counts of paired runs'],
     'differential monitor over paired executions',
     'Held on the executed pairs.')

prop('C21', 'Runs are reproducible and independent of what ran before',
     'A run\'s result depends only on its parameters and initial condition: repeating it in the same or a new process, after other runs, while other contexts of the solver are advanced in turns, or (for the methods that keep nothing between steps) in two halves at step boundaries gives the same result to rounding. '
     'The time loop restores every parameter it changes except time and step number.',
     ['histories', 'configurations'],
     'all sequences of runs, contexts and solvers within a process',
     'Every test function checks its own run only.',
     ['spectralDNS/__init__.py', 'spectralDNS/config.py', S+'NS.py', S+'KMM.py', 'spectralDNS/maths/integrators.py'],
     [('solver modules as state', 'spectralDNS/__init__.py:get_solver'), ('work arrays', S+'NS.py:get_context')],
     ['final states of runs in different histories'],
     'history monitor: same run embedded in different histories',
     'Held on the executed histories; tolerance 1e-12.')

prop('C22', 'Domain integrals for channel fields are exact',
     'The integral of a channel field over the domain is exact for every polynomial the quadrature resolves times resolved trigonometric functions, for both quadratures, wall-normal axes, boxes and any number of processes, and does not change the field.',
     ['inputs', 'configurations'],
     'all resolved polynomials, sizes (even and odd), quadratures, axes, boxes, process counts',
     'Used in the tests only as a norm of one eigenmode.',
     ['spectralDNS/utilities/__init__.py'],
     [('dx', 'spectralDNS/utilities/__init__.py:dx')],
     ['return values of direct calls'],
     'monitor on direct calls against analytic integrals',
     'Held on the executed calls; tolerance 1e-12.')

prop('C23', 'The demonstration flows reproduce their known solutions',
     'The demonstration programs end without failing, with their own regression functions on, as shipped and at other sizes, solvers, forms, dealiasing methods and process counts, and reproduce what is known of their flows: '
     'Taylor-Green, Kelvin-Helmholtz, vortex and forced isotropic flows follow the equations from the initial condition they state (isotropic: at constant energy, both formulations alike), '
     'Orr-Sommerfeld waves grow and travel as linear theory says, convection below and near onset decays or grows at the rate of linear theory, laminar channel flow follows its start-up solution, the turbulent channel keeps its mass flux.',
     ['configurations', 'inputs'],
     'demo programs that run without display, all solvers they accept, several resolutions and parameters',
     'Only six demos have copies in the tests, at one or two resolutions.',
     ['demo/OrrSommerfeld.py', 'demo/Isotropic.py', 'demo/TG.py', 'demo/LaminarChannel.py', 'demo/RayleighBenard.py', 'demo/MKM.py'],
     [('initialisation and forcing', 'demo/*.py')],
     ['states at the start, on the way and at the end of spectralDNS.solve, exit status and output'],
     'end-to-end monitor around the demos\' solve, against analytic solutions, linear-theory eigenvalue problems and a reference integration',
     'Held on the executed demos. Vortices2D runs against the reference integration only: its data file is accurate to 1e-5.')

prop('C24', 'Instrumentation options only observe a run, and report truthfully',
     'Profiling, verbosity, FFT threads and planning effort change neither the solution nor the steps. The timings reported at the end bound the times of the steps as stated '
     '(fastest and slowest over steps, then over processes; total time), profiles give every listed routine the least and most own and cumulative time over processes, and memory reports give the resident and virtual memory of all processes and its growth.',
     ['configurations', 'schedules'],
     'all solvers, options, process counts, delays in steps and in the right-hand side, allocations',
     'No test looks at what is reported, or compares runs with different options.',
     ['spectralDNS/utilities/__init__.py', 'spectralDNS/utilities/create_profile.py', 'spectralDNS/utilities/memoryprofiler.py', 'spectralDNS/__init__.py', 'spectralDNS/config.py'],
     [('Timer', 'spectralDNS/utilities/__init__.py:Timer'), ('profile', 'spectralDNS/utilities/create_profile.py'), ('memory', 'spectralDNS/utilities/memoryprofiler.py'), ('loop', 'spectralDNS/__init__.py:solve')],
     ['printed reports', 'solver.results', 'states and steps of paired runs'],
     'reports parsed and checked against injected delays, counted calls and the kernel\'s memory account; paired runs with and without the options',
     'Held on the executed runs. Time bounds are one-sided (a sleep never ends early), so that load cannot violate them.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, _, _ in P:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d)+'\n')
    checks, na = [], []
    for d, tech, note in P:
        m = 'c%s' % d['id'][1:]
        if os.path.exists(os.path.join(HERE, 'checks', m+'.py')) and d['id'] not in UNCLAIMED:
            checks.append(dict(property=d['id'],
                               quick_cmd='/opt/venv/bin/python -B -m checks.%s' % m,
                               thorough_cmd='/opt/venv/bin/python -B -m checks.%s --tier thorough' % m,
                               technique=tech, level='exploration', level_note=note))
        else:
            na.append(dict(property=d['id'], reason=UNCLAIMED.get(d['id'], 'not built yet')))
    man = dict(version=1, setup_cmd='/opt/venv/bin/python -B -m tools.setup', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the monitors are attached from outside, to the public module-level '
                     'functions of the solvers (as the demos do). See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', [x['property'] for x in na])


UNCLAIMED = {}

if __name__ == '__main__':
    main()
