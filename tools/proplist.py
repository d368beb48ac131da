BASE = ('Every obligation is generated from the LLVM IR of the current sources and discharged for all real inputs; '
        'assumes: doubles read as reals, machine integers as mathematical integers, exact libm. ')

prop('C01', 'Coordinate conversions describe the same point, vector and matrix',
     'Converting a position, a position-velocity pair, or a triple of moments between Cartesian, cylindrical, spherical and '
     'spheroidal coordinates yields the same physical point, velocity and moments, and converting back returns the original. '
     'The canonical momenta, the angular momentum and its z-component are those of the same phase-space point in every system. '
     'A rotated orientation is described by an orthogonal matrix, rotates vectors and moments by that matrix and its transpose, '
     'and is recovered by the Euler angles extracted from it.',
     ['inputs'], 'every point (including the z axis and the origin, where the documented convention applies), every velocity, every focal distance, every Euler angle triple',
     'tests sample a few dozen points and compare to 1e-8 or so; a wrong branch for a half-plane, an axis or an oblate/prolate system is a measure-zero or unsampled case',
     ['src/coord.h', 'src/coord.cpp'],
     [('toPos/toPosVel/toVel conversions', 'src/coord.cpp, src/coord.h'), ('Orientation', 'src/coord.h, src/coord.cpp (makeRotationMatrix and friends)'),
      ('Ltotal, Lz, canonical momenta', 'src/coord.h')],
     BASE + 'math::sincos and math::pow are used by contract.')

prop('C02', 'Derivatives of coordinate maps and of converted fields obey the chain rule',
     'The first and second derivatives reported with a coordinate transformation are the derivatives of the transformation itself. '
     'The value, gradient and second derivatives of a scalar field evaluated in one coordinate system and converted to another are '
     'those of the same field expressed in the second system, whichever subset of them the caller requests.',
     ['inputs'], 'every point where the derivatives exist, every pair of coordinate systems (Cartesian, cylindrical, spherical, prolate and oblate spheroidal), every smooth field, every subset of outputs',
     'tests compare a handful of potentials and points with finite differences of limited accuracy; the mixed prolate derivative was wrong and no test noticed',
     ['src/coord.h', 'src/coord.cpp'],
     [('toPosDeriv', 'src/coord.cpp'), ('evalAndConvert, evalAndConvertTwoStep, evalAndConvertSph', 'src/coord.h'), ('toGrad, toHess', 'src/coord.cpp')],
     BASE + 'The field is an arbitrary smooth function (uninterpreted, with consistent derivatives).')

prop('C03', 'Forces of analytic potentials are derivatives of the documented potential',
     'For the Plummer, isochrone, NFW, Miyamoto-Nagai, logarithmic, harmonic and Kepler-binary models, the reported potential is the documented '
     'function of the position, the gradient is its gradient and the second derivatives are its second derivatives, in Cartesian, '
     'cylindrical and spherical coordinates, whichever subset of them is requested. The two components of a Kepler binary move on '
     'Kepler ellipses about their common centre of mass with the velocities that are the rates of change of their positions.',
     ['inputs'], 'every position (including the centre and the axis where the model is regular), every value of the model parameters, every subset of outputs',
     'tests evaluate the models at fewer than 20 points with one set of parameters; the second derivatives of the Kepler binary had the wrong sign and no test noticed',
     ['src/potential_analytic.h', 'src/potential_analytic.cpp'],
     [('Plummer, Isochrone, NFW, MiyamotoNagai, Logarithmic, Harmonic', 'src/potential_analytic.cpp'), ('KeplerBinary', 'src/potential_analytic.cpp (keplerOrbit, evalCar)')],
     BASE + 'math::solveKepler is assumed to return the solution of the Kepler equation.')

prop('C04', 'Density, mass and symmetry of a potential agree with the potential itself',
     'The density reported by an analytic potential, or derived from the derivatives of any potential, is its Laplacian divided by 4 pi in every '
     'coordinate system. The enclosed mass of a spherical potential is r^2 times its radial force, the total mass is the documented one, '
     'and the symmetry a model declares is a symmetry of its potential and density. Any potential or density defined in one coordinate '
     'system reports the same field in the others at the requested time. The on-the-fly spherical and azimuthal averages are exact for '
     'polynomials up to degree 14, leave spherical and axisymmetric inputs unchanged, and report the derivatives of the averaged potential '
     'for any requested subset of outputs. The total energy is potential plus kinetic energy.',
     ['inputs'], 'every position off the axis, every parameter value, every potential (an arbitrary smooth function) for the base classes, every declared symmetry',
     'tests check a few potentials at a few points with a tolerance of finite differences or of numerical integration',
     ['src/potential_base.h', 'src/potential_base.cpp', 'src/potential_analytic.h', 'src/potential_analytic.cpp'],
     [('BasePotential::densityCar/Cyl/Sph', 'src/potential_base.cpp'), ('BasePotentialCar/Cyl/Sph, SphericallySymmetric', 'src/potential_base.h'),
      ('Sphericalized, Axisymmetrized', 'src/potential_base.cpp'), ('symmetry()', 'src/potential_analytic.h')],
     BASE + 'Quadrature constants are compared with relative tolerance 1e-12; the density is claimed where the Laplacian is not dominated by rounding (1e-9 of its terms).')

prop('C05', 'Modified, composite and evolving models follow from their inner models',
     'A shifted, tilted, rotating or scaled potential or density is the inner one at the shifted, tilted, rotated or rescaled point, with the documented '
     'amplitude, at the requested time; its force and second derivatives are those of the transformed field. A composite is the sum of its components, '
     'whichever coordinate system each of them prefers, for any requested subset of outputs. An evolving potential is its nearest or linearly interpolated '
     'time stamp. Evaluating the density at several points gives the same values as evaluating each point. Total masses, enclosed masses and the declared '
     'symmetry follow from those of the inner objects. A uniform acceleration is the gradient of the corresponding linear potential.',
     ['inputs'], 'every inner potential or density (an arbitrary smooth function), every offset, angle, scale and amplitude linear in time, every time, every point off the axis, every subset of outputs',
     'tests cover a few combinations of components and modifiers at a few points; errors in one coordinate system, one subset of outputs or one batch position are not sampled',
     ['src/potential_composite.h', 'src/potential_composite.cpp'],
     [('Shifted, Tilted, Rotating, Scaled', 'src/potential_composite.h, src/potential_composite.cpp'), ('Composite, CompositeDensity (evalComponents)', 'src/potential_composite.cpp'),
      ('Evolving, UniformAcceleration', 'src/potential_composite.cpp')],
     BASE + 'Time dependence is represented by splines with one knot (a linear function of time evaluated by the real spline code); composites of up to seven components; batches of 2-3 points.')

prop('C06', 'Orbits obey the equations of motion in every internal coordinate system',
     'The right-hand side integrated by the orbit integrator is Newton\'s law in the given (possibly time-dependent) potential rotating with the given pattern speed, '
     'whichever of the Cartesian, cylindrical or spherical coordinates are used internally, also after the orbit has passed through R<0, r<0 or theta outside 0..pi. '
     'An initial state is returned unchanged at the initial time; states are returned as the same physical position and velocity, normalised to R>=0, r>=0 and 0<=theta<=pi. '
     'A run stops exactly at the requested time, forward or backward, or earlier on a failed step, the step limit or on request, calling every runtime function for contiguous intervals. '
     'A trajectory recorded at regular intervals holds the solution at exactly those times, none missing. '
     'The variational equation uses minus the Hessian of the potential in the inertial frame, and its vectors are reported in the rotating frame.',
     ['inputs', 'histories'], 'every potential (an arbitrary smooth function of position and time), every pattern speed, time and state off the axis; every step length for 1-3 steps; every sampling interval',
     'tests integrate a few orbits and compare conserved quantities to a tolerance; sign errors that appear only on one side of the axis, backward in time or with rotation are not sampled',
     ['src/orbit.cpp', 'src/orbit.h', 'src/orbit_variational.cpp'],
     [('OrbitIntegrator::eval, init, getSol, getSolNative, getAccuracyFactor', 'src/orbit.cpp'), ('BaseOrbitIntegrator::run', 'src/orbit.cpp'),
      ('RuntimeTrajectory::processTimestep', 'src/orbit.cpp'), ('RuntimeVariational::eval, storeSolution', 'src/orbit_variational.cpp')],
     BASE + '|theta| < 2 pi. The solver is replaced by an abstract one (property C07 covers the real ones). The number of steps (up to 3) and of recorded points (up to 4) is enumerated: these contracts hold for all real inputs but a bounded number of steps. Roundoff in the sampling times is excluded (sampling interval > 1e-11 times the time itself).')

prop('C07', 'ODE solvers have the stated order and dense output joins the computed steps',
     'A step of DOP853 satisfies all 200 order conditions up to order 8, its stages use the right times, its dense output has local error O(dt^7) and joins adjacent steps with the '
     'right derivatives; a given step length is used as is, a step chosen automatically goes in the requested direction of time, is never longer than the estimate, and is shortened if rejected. '
     'The Hermite solver performs the documented predictor-corrector step, exact for accelerations that are cubic in time. '
     'The Gauss-Legendre solvers for linear second-order systems evaluate the matrices at the Gauss-Legendre nodes, have order 6 and 8, advance several vectors independently, '
     'and their interpolated velocity is the derivative of the interpolated position. '
     'The solution at the current time is the current state, including right after initialization; a subsequent step starts from the end of the previous one.',
     ['inputs', 'histories'], 'every ODE system (the values of derivatives at each stage are arbitrary), every initial state, time, signed step length and accuracy; every time inside a step',
     'tests integrate a few systems to a loose tolerance: one wrong digit in a tableau, a wrong dense output or derivative, or a lower order goes unnoticed',
     ['src/math_ode.cpp', 'src/math_ode.h'],
     [('OdeSolverDOP853::init, doStep, getSol', 'src/math_ode.cpp'), ('OdeSolverHermite::init, doStep, getSol', 'src/math_ode.cpp'),
      ('Ode2SolverGL3, Ode2SolverGL4', 'src/math_ode.cpp'), ('initTimeStep', 'src/math_ode.cpp')],
     BASE + 'Tableau constants are compared with tolerances of 1e-11 (order conditions) and 1e-9 (dense output). Order of the Gauss-Legendre solvers is established for scalar equations with coefficients that are polynomials in time; '
     'coupling between dimensions by forcing terms. Adaptive steps: at most two (DOP853) or three (Hermite) attempts per step; systems of one or two equations.')

prop('C08', 'Spline interpolators pass through their data with consistent derivatives',
     'One-dimensional interpolators locate the grid cell that contains the point for a grid of any length; linear, cubic and quintic interpolators pass through '
     'their values (and slopes, second derivatives) at every node, report derivatives of the very function they evaluate for any subset of outputs, and continue linearly outside the grid. '
     'Cubic splines are twice continuously differentiable with the given end slopes or natural ends; quintic splines are as smooth as documented. '
     'B-spline basis functions satisfy the recurrence that defines them, their derivatives are derivatives, and the amplitudes, the single-point and batch interfaces, the extrapolated and the natural basis agree with them. '
     'The monotonicity filter bounds the slopes by three times those of the neighbouring segments and leaves compliant slopes alone.',
     ['inputs'], 'every grid of any length (evaluation), of 2-5 nodes (construction), all values, slopes and amplitudes, every point inside or outside the grid',
     'tests compare splines of a few functions with loose tolerances; errors at the end nodes, in one derivative, for nearly degenerate grids or for one choice of boundary condition are not sampled',
     ['src/math_spline.h', 'src/math_spline.cpp', 'src/math_core.cpp'],
     [('binSearch', 'src/math_core.cpp'), ('LinearInterpolator, CubicSpline, QuinticSpline', 'src/math_spline.cpp'), ('constructCubicSpline, constructQuinticSpline, regularizeSpline', 'src/math_spline.cpp'),
      ('bsplineValues, bsplineDerivs, bsplineNaturalCubic, BsplineInterpolator1d', 'src/math_spline.cpp')],
     BASE + 'Construction of splines is enumerated for 2-5 nodes (values arbitrary). B-spline functions that return the grid cell rely on the contract of binSearch, which is proved with an automatically found loop invariant.')

prop('C09', 'Integrals, roots, extrema and projections of splines are those of the splines',
     'The integral of a linear, cubic or quintic interpolator or of a B-spline interpolator (degree 0-3), with or without a power of x, between any two points (swapped limits included) is that of the '
     'piecewise polynomial that is evaluated, with nothing outside the grid; integrals and convolutions with another function use its integrals on each segment. '
     'The derivative and the antiderivative of a B-spline function are again given by the computed amplitudes. '
     'Roots of linear and quadratic equations are correct and ordered; the equation solved on each segment of a spline is the one that defines its roots or extrema; '
     'the roots in the requested interval are reported in increasing order, each once, and no other; extrema start at the left end of the interval, and the function alternately rises and falls between them. '
     'Finite-element projections of polynomials onto B-splines or their derivatives, and the matrices of their scalar products, are exact, and the convolutions with a kernel refer to the right argument. '
     'Integrals of a Gaussian and of monomials are antiderivatives of them.',
     ['inputs'], 'all grids of 3-4 nodes, all values and amplitudes, all limits of integration and intervals in any cells or outside the grid, all candidate roots',
     'tests integrate a few splines over selected intervals; limits in particular cells, outside the grid or reversed, roots at nodes and projections of each derivative are not sampled',
     ['src/math_spline.h', 'src/math_spline.cpp', 'src/math_core.cpp'],
     [('integratePiecewise, integrateBspline, findRoots, findExtremaBspline', 'src/math_spline.cpp'), ('RootsCubicSpline, RootsDerivQuinticSpline, RootsBspline', 'src/math_spline.cpp'),
      ('FiniteElement1d', 'src/math_spline.cpp'), ('solveLinear, solveQuadratic, solveCubic, solveQuartic, vandermonde, Gaussian, Monomial', 'src/math_core.cpp')],
     BASE + 'Gauss-Legendre constants are compared with a tolerance of 3e-13 of the largest coefficient. solveCubic, solveQuartic and math::erf are checked at sampled inputs only (bounded); '
     'for the segment polynomials the solvers are replaced by stand-ins that expose their coefficients. Roots of quintic splines (iterative) and computeConvMatrix are not covered. Distinct roots closer than 10 eps of their value may be merged.')

prop('C10', 'Two- and three-dimensional, log-log splines and grids are consistent',
     'Bilinear, bicubic and biquintic (trilinear and tricubic) interpolators return, in every cell including its edges, the tensor product of one-dimensional interpolants of the node values and derivatives, '
     'hence pass through the data and are continuous across cells; each requested derivative is that of the interpolated function, any subset of outputs gives the same numbers, and points outside the grid give NaN. '
     'Constructed splines have along each row and column the derivatives of the one-dimensional spline with the given end slopes, and mixed derivatives consistent between the directions. '
     'Three-dimensional B-splines are products of one-dimensional ones with a one-to-one numbering of components; all ways of evaluating them agree, and they vanish outside the grid. '
     'A log-log spline is the exponential of a spline of logarithms with matching derivatives, a power law (or a constant) outside the grid, and never negative for nonnegative data. '
     'Grids have the requested number of nodes, strictly increase from the first to the last requested value, and are symmetric when so requested.',
     ['inputs'], 'all grids (2-4 nodes per dimension), all values and derivatives at nodes, every point in the listed cells and on their edges or outside the grid',
     'tests interpolate a few functions with loose tolerances; one mixed derivative, an edge cell, one boundary condition or one subset of outputs being wrong is not sampled',
     ['src/math_spline.h', 'src/math_spline.cpp'],
     [('LinearInterpolator2d, CubicSpline2d, QuinticSpline2d', 'src/math_spline.cpp'), ('LinearInterpolator3d, CubicSpline3d, BsplineInterpolator3d', 'src/math_spline.cpp'),
      ('LogLogSpline', 'src/math_spline.cpp'), ('createUniformGrid, createExpGrid, createNonuniformGrid, mirrorGrid, createSymmetricGrid', 'src/math_spline.cpp')],
     BASE + 'Grids of 2-4 nodes per dimension (values arbitrary); the larger construction contracts assume grids not symmetric about zero (symmetric ones are covered for smaller grids). '
     'The slope limiter enters the two- and three-dimensional constructions as an abstract function (the limiter itself is under C08). Log-log constructions from derivatives and grids produced by the iterative root finder are checked at sampled inputs only (bounded).')

prop('C11', 'Distribution functions equal their formulas, with derivatives by actions',
     'The double power-law (with core, cutoff and rotation), exponential and quasi-isothermal distribution functions return the documented functions of actions, nonnegative and finite also at zero actions '
     'where a finite limit exists, and their derivatives by actions; parameters are accepted if and only if they are valid. '
     'A composite DF is the sum of its components, or reports each of them, at every point of a vectorised call. '
     'The scalings of the action space are inverse to each other, have the reported Jacobian, stay in the unit cube and reject arguments outside it; total mass and entropy integrate the DF times this Jacobian. '
     'Spherical DFs of energy and angular momentum are converted to functions of actions with the right derivatives; the Cuddeford-Osipkov-Merritt DF has the documented dependence on E and L and vanishes for Q>=0; '
     'the augmented density and its derivatives by potential that it is constructed from are consistent.',
     ['inputs'], 'all actions (either sign of Jphi, zero actions), all valid parameters, abstract components, frequencies, energies and profiles',
     'tests evaluate a few models with default parameters; particular combinations of options, signs of Jphi, zero actions and individual derivatives are not sampled',
     ['src/df_halo.cpp', 'src/df_disk.cpp', 'src/df_base.cpp', 'src/df_base.h', 'src/df_factory.cpp', 'src/df_spherical.h', 'src/df_spherical.cpp', 'src/math_specfunc.cpp'],
     [('DoublePowerLaw', 'src/df_halo.cpp'), ('QuasiIsothermal, Exponential', 'src/df_disk.cpp'), ('ActionSpaceScalingTriangLog, ActionSpaceScalingRect, DFIntegrandNdim', 'src/df_base.cpp'),
      ('CompositeDF', 'src/df_factory.cpp'), ('QuasiSpherical, QuasiSphericalIsotropic', 'src/df_spherical.h'), ('QuasiSphericalCOM, AugmentedDensity, createSphericalDF', 'src/df_spherical.cpp')],
     BASE + 'The action finder, frequencies, phase volume and splines used by the DFs are abstract functions. scale(ScalingCub) is assumed to solve its equation. '
     'For DoublePowerLaw with both rotation and core the derivative by Jphi is not covered, and nonnegativity of QuasiIsothermal with all three q-parameters is not. '
     'The inversion formula (createSphericalDF) is compared with analytic DFs at sampled inputs only (bounded), as is the small-q expansion of the q-exponential. Numerical integration and sampling of DFs are not covered.')

prop('C12', 'Orbit-related functions of potentials, phase volume and projections',
     'The radii R_max(E), R_circ(E), R_from_Lz and the functions L_circ(E), T_circ, v_circ and epicyclic frequencies of a potential satisfy their defining equations, and the functions passed to root finders have the right derivatives. '
     'Peri- and apocentre satisfy the equation of motion and bracket the radius of a circular orbit; polishing of a root is a step of a root-finding method of the right equation. '
     'The interpolated potential returns values and derivatives of one and the same function inside and outside the grid, with any subset of outputs, and the derivatives of the interpolated orbital functions are those of the values. '
     'Scaled energy and phase volume are inverse to their inverse functions with the reported derivatives, and differences of energies are consistent with them. '
     'Projected density, potential, forces and force derivatives integrate along the line of sight the corresponding quantity in the rotated frame, for any orientation and any subset of outputs, and return each integral in its place.',
     ['inputs'], 'all abstract potentials, energies, angular momenta, radii, orientations and abstract splines; inside, at and outside the limits of the grid, all subsets of outputs',
     'tests compare a few potentials with loose tolerances; particular derivatives, asymptotic laws, degenerate arguments, one projected component and subsets of outputs are not sampled',
     ['src/potential_utils.h', 'src/potential_utils.cpp'],
     [('Interpolator, R_max, R_circ, L_circ, R_from_Lz, T_circ, v_circ, epicycleFreqs', 'src/potential_utils.cpp'), ('innerSlope, refineRoot, findPlanarOrbitExtent, findRoots', 'src/potential_utils.cpp'),
      ('PhaseVolume, scaleE, unscaleE, unscaleDeltaE', 'src/potential_utils.cpp'), ('projectedDensity, projectedEval, principalAxes', 'src/potential_utils.cpp')],
     BASE + 'Splines are abstract functions with derivatives; findRoot returns an abstract point at which the function vanishes (its convergence is not claimed), and integrateNdim is replaced by an abstract integral of a named function. '
     'Derivatives of the interpolated orbital functions outside the grid are claimed to be those of the uncorrected spline times the corrected value. The construction of the interpolators is covered for given grid nodes; math::createInterpolationGrid itself is not.')

prop('C13', 'Spherical-harmonic expansions and multipole potentials',
     'The Legendre and trigonometric functions of the expansion are the mathematical ones with matching derivatives, also on the poles; an index set contains exactly the terms that its symmetry allows. '
     'The forward transform inverts the inverse one and returns the coefficients of any function with a finite expansion; the inverse transform with derivatives returns the value, gradient and second derivatives of one and the same sum, '
     'for every symmetry, also in the shortcut for degree 2. '
     'Multipole potentials and spherical-harmonic densities evaluate the sum of harmonics with radial dependence given by splines inside the grid and power laws outside, with consistent derivatives for any subset of outputs; '
     'the density of the power-law part is its Laplacian over 4 pi; the extrapolation matches value and derivative at the boundary, and no term allowed by symmetry or present in the coefficients is dropped. '
     'The construction stores data that the evaluation maps back to the input coefficients.',
     ['inputs'], 'all positions, angles, radii, coefficients and slopes; all symmetries; degrees up to 3-4 and 2-3 radial nodes; any subset of outputs',
     'tests use a few symmetric models at moderate accuracy; a rarely used symmetry, a single second derivative, a degenerate exponent or a term that is absent from one of two arrays is not sampled',
     ['src/math_sphharm.h', 'src/math_sphharm.cpp', 'src/potential_multipole.h', 'src/potential_multipole.cpp'],
     [('legendrePrefactor, sphHarmArray, trigMultiAngle', 'src/math_sphharm.cpp'), ('SphHarmIndices, getIndicesFromCoefs, getIndicesAzimuthal', 'src/math_sphharm.cpp'),
      ('FourierTransformForward, SphHarmTransformForward, sphHarmTransformInverse', 'src/math_sphharm.cpp'),
      ('sphHarmTransformInverseDeriv, transformDerivsSphToCyl, computeExtrapolationCoefs, initAsympt, PowerLawMultipole, MultipoleInterp1d, MultipoleInterp2d, DensitySphericalHarmonic, Multipole', 'src/potential_multipole.cpp')],
     BASE + 'Degrees and orders up to 4 (Legendre functions), 2-4 (transforms), 1-3 (potentials); two or three radial nodes in constructions. sin(theta) below 1.1e-8 but nonzero is not covered. '
     'Splines and, in the potentials, Legendre functions and the transforms are represented by their contracts (proved separately for concrete degrees); lambertW is a solution on the required branch; eliminateNearZeros is a no-op. '
     'The nodes of two-dimensional splines are checked for degrees 1 and 2 and two radii; the solution of the Poisson equation is covered for given coefficients of the density on a given radial grid. Expansions of N-body snapshots and the choice of the radial grid are not covered.')

prop('C14', 'Actions, angles and orbits in the isochrone potential',
     'The actions, frequencies and energy returned for a point in the isochrone potential are the integrals of motion given by the documented formulas; any subset of outputs gives the same numbers. '
     'The angles increase along every orbit at a constant rate equal to the frequencies, for either sense of rotation, at any phase. '
     'The mapping from actions and angles to position and velocity returns a point that has these actions, frequencies and angles, is periodic in each angle, '
     'degenerates correctly for planar orbits, and returns NaN for negative radial or vertical actions.',
     ['inputs'], 'all positions and velocities of bound orbits, all actions and angles, all masses and scale radii, both signs of Lz',
     'tests follow a few orbits and compare with loose tolerances; one sense of rotation, one quadrant of an angle, a degenerate orbit or an angle outside [0,2pi) is not sampled',
     ['src/actions_isochrone.cpp', 'src/actions_isochrone.h'],
     [('evalIsochrone, mapIsochrone', 'src/actions_isochrone.cpp')],
     BASE + 'math::wrapAngle is the angle modulo 2 pi, math::solveKepler a solution of the Kepler equation, math::sincos the pair of functions. '
     'The constancy of the rate is the identity of the derivative of each angle along the equations of motion with the frequency. Orbits with Lz=0 (for which the azimuthal frequency depends on the direction of approach) are covered for actions only.')

prop('C15', 'Actions, angles and frequencies in Staeckel potentials and the fudge',
     'The integrals of motion computed for an axisymmetric Staeckel potential in prolate spheroidal coordinates are those of the equations of motion, and the Staeckel approximation is exact when the potential is of Staeckel form. '
     'The functions of the separated coordinates have the stated derivatives and limits; actions, their derivatives by integrals, derivatives of the generating function, frequencies and angles '
     'are the integrals and the inverse of the Jacobian that the method prescribes, for any requested subset of outputs, on either side of the equatorial plane, in it and at turning points, and for either direction of motion; unbound orbits give infinite or undefined values as documented. '
     'The oblate and prolate perfect ellipsoid has a potential with consistent first and second derivatives which satisfies the Poisson equation with its density.',
     ['inputs'], 'all positions, velocities, focal distances, integrals of motion and abstract functions of the separated coordinates; all subsets of outputs',
     'tests check the constancy of actions along a few orbits with loose tolerances; one derivative, one half-space, an orbit passing near the focal ring or a subset of outputs is not sampled',
     ['src/actions_staeckel.cpp', 'src/actions_staeckel.h', 'src/potential_perfect_ellipsoid.cpp', 'src/potential_perfect_ellipsoid.h'],
     [('findIntegralsOfMotionOblatePerfectEllipsoid, AxisymFunctionStaeckel, AxisymFunctionFudge', 'src/actions_staeckel.cpp'),
      ('computeActions, computeIntDerivatives, computeActionDerivatives, computeGenFuncDerivatives, computeFrequencies, computeAngles', 'src/actions_staeckel.cpp'),
      ('findIntegrationLimitsAxisym', 'src/actions_staeckel.cpp'), ('PerfectEllipsoid', 'src/potential_perfect_ellipsoid.cpp')],
     BASE + 'Coordinate conversions enter by their contracts (C01, C02); findRoot returns a root; scale/unscale(ScalingCub) are inverse; wrapAngle is the angle modulo 2 pi; '
     'the separated functions are abstract; integrals are the sums of the Gauss-Legendre rule with the code\'s number of nodes replaced by one node. '
     'Not covered: the interpolated action finder (ActionFinderAxisymFudge), second derivatives of the perfect ellipsoid in cylindrical coordinates other than their consistency between subsets of outputs and the Laplacian, '
     'the choice between box and tube orbits for Lz=0 and between normal and nearly shell orbits.')
