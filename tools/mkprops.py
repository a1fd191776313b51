#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=None)))
G='src/geometry/'; F='src/FGraph/'; FF='src/FGraph/factors/'; C='src/PCRegistration/'
p('C01','The SO3 exponential is the matrix exponential for every rotation vector',
  'For every rotation vector w, the rotation built from w is the matrix exponential of its skew matrix: it is orthonormal with determinant +1, leaves w fixed and turns by exactly |w| in the positive sense about w. This holds for zero, tiny, ordinary and arbitrarily large |w|, with no jump between the small-angle and the regular computation.',
  ['inputs'],'all w in R^3 (|w| up to 1e-5 on the series branch, any larger |w| on the closed-form branch)',
  'Tests evaluate a few hand-picked rotation vectors; a wrong sign, coefficient or threshold shows only for particular w or at the branch boundary.',
  [G+'SO3.cpp'],[('SO3(Mat31), SO3::exp, hat3','src/geometry/SO3.cpp')],['SO3 constructor from a 3-vector','R()'])
p('C02','The SE3 exponential is the matrix exponential for every twist',
  'For every twist (w, v), the rigid transformation built from it has the rotation exp(w), last row 0 0 0 1, and the translation t given by the matrix exponential of the 4x4 twist matrix, including w = 0 (pure translation t = v) and the small-angle regime.',
  ['inputs'],'all twists in R^6; series branch within 1e-3 rad to a stated tolerance',
  'Tests sample a handful of twists; the branch thresholds and series coefficients are reached by none or one of them.',
  [G+'SE3.cpp',G+'SO3.cpp'],[('SE3(Mat61), SE3::exp','src/geometry/SE3.cpp')],['SE3 constructor from a 6-vector'])
p('C03','The SO3 logarithm inverts the exponential on every rotation',
  'For every rotation R, the logarithm w satisfies exp(w) = R and |w| <= pi, and it equals the original rotation vector whenever that had norm below pi. This includes the identity, tiny angles, angles above 90 degrees, exact half turns and axes whose components are equal in magnitude.',
  ['inputs'],'all rotation matrices (all axes and angles in [0, pi]); exact arithmetic idealisation, plus rounding-level perturbations of the trace at both ends',
  'The tests draw random rotations; ties between diagonal entries, half turns and branch thresholds have probability zero.',
  [G+'SO3.cpp'],[('SO3::ln','src/geometry/SO3.cpp')],['ln_vee()','ln()'])
p('C04','The SE3 logarithm inverts the exponential on every rigid transformation',
  'For every rigid transformation T, exp(ln(T)) = T, the rotation part of ln(T) is the rotation logarithm, and ln(exp(xi)) = xi whenever the rotation part of xi is shorter than pi. Regenerating a valid transformation leaves it unchanged.',
  ['inputs'],'all T in SE3: every axis, every angle in [0, pi], every translation',
  'Random samples in tests never reach the thresholds, the half turn or tied axes.',
  [G+'SE3.cpp',G+'SO3.cpp'],[('SE3::ln, SE3::regenerate','src/geometry/SE3.cpp')],['ln_vee()','regenerate()'])
p('C05','Composition, inverse and point transformation obey the rigid-motion group laws',
  'Products of rotations and of rigid transformations are the matrix products, the inverse composed on either side gives the identity, and transforming a point or every row of an N-by-3 array applies R p + t. Named and operator forms of the product agree, assignment and copies are exact, and self-assignment changes nothing.',
  ['inputs'],'all rotations/transformations and points; arrays of 0 to 4 rows',
  'Group laws quantify over pairs and triples of elements; tests check single samples.',
  [G+'SE3.cpp',G+'SO3.cpp'],[('operator*, mul, inv, transform, transform_array','src/geometry/SE3.cpp')],['operator*','inv','transform','transform_array'])
p('C06','Adjoint, hat/vee maps and manifold updates follow the twist convention',
  'With twists ordered (rotation, translation), hat and vee are mutually inverse, the adjoint A of T satisfies hat(A xi) = T hat(xi) inverse(T) for every twist, a left update by dx gives exp(dx) T and a right update gives T exp(dx), for both rotations and rigid transformations.',
  ['inputs'],'all T and all twists',
  'Tests compare one adjoint numerically; block-order or side errors vanish for pure rotations or small updates.',
  [G+'SE3.cpp',G+'SO3.cpp'],[('adj, hat3/hat6, vee3/vee6, update_lhs, update_rhs','src/geometry/SE3.cpp, SO3.cpp')],['adj','update_lhs','update_rhs'])
p('C07','Pose distances are the norms of the relative motion',
  'The rotation distance of two rotations or poses is the angle of the relative rotation, the translation distance is the Euclidean distance of the translations, and the full distance is the norm of the logarithm of the relative transformation. All are zero for equal arguments, non-negative and symmetric.',
  ['inputs'],'all pairs of rotations/transformations',
  'Tests use the distances as oracles but never check them.',
  [G+'SE3.cpp',G+'SO3.cpp'],[('distance, distance_rotation, distance_trans','src/geometry/SE3.cpp, SO3.cpp')],['distance','distance_rotation','distance_trans'])
p('C08','Quaternion and roll-pitch-yaw conversions represent the same rotation',
  'A quaternion (x, y, z, w) of any non-zero norm maps to the rotation of its normalised value, a rotation maps to a unit quaternion that maps back to the same rotation for every rotation, and roll-pitch-yaw maps to Rx(roll) Ry(pitch) Rz(yaw).',
  ['inputs'],'all non-zero quaternions, all rotations (all four branches of the conversion), all angle triples',
  'Tests exercise only one or two of the four conversion branches and a few angle triples.',
  [G+'SO3.cpp'],[('quat_to_so3, so3_to_quat, rpy_to_so3','src/geometry/SO3.cpp')],['quat_to_so3','so3_to_quat','rpy_to_so3'])
p('C09','Group membership tests accept exactly rotations and rigid transformations',
  'The rotation test accepts every orthonormal matrix of determinant +1 and rejects every matrix that is clearly not one (non-orthonormal, reflected, scaled or with undefined entries). The rigid-transformation test additionally requires the last row to be 0 0 0 1 and rejects any clear deviation of either sign.',
  ['inputs'],'all 3x3 and 4x4 matrices outside a thin tolerance shell (deviation below 1e-6 or above 1e-2 of a membership equation)',
  'Tests check acceptance of a few valid matrices; rejection must hold for every invalid one.',
  [G+'SO3.cpp',G+'SE3.cpp'],[('isSO3, isSE3','src/geometry/SO3.cpp, SE3.cpp')],['isSO3','isSE3'])
p('C10','Pose covariance compounding follows the documented second and fourth order rules',
  'Compounding an uncertain pose with an uncertain increment composes the poses and yields S1 + Ad S2 Ad^T at second order, and at fourth order adds exactly the fourth-order moment terms of zero-mean Gaussian twists; the result is symmetric whenever the inputs are. All overloads, the product operator and the named product agree.',
  ['inputs'],'all poses, all symmetric covariances (every basis pair of the bilinear fourth-order term)',
  'Tests compare one or two numeric cases; a wrong block only shows for covariances with particular cross-correlations.',
  [G+'SE3cov.cpp',G+'mrob/SE3cov.hpp'],[('compound_2nd_order, compound_4th_order, brackets, curly_wedge','src/geometry/SE3cov.cpp')],['compound_2nd_order','compound_4th_order','operator*','mul'])
p('C11','Node updates retract on the manifold and can be undone exactly',
  'Updating a node adds the increment on its manifold (vector sum for landmarks and positions, heading wrapped to [-pi, pi), exp(dx) T for 3D poses, unit plane coordinates for planes); updating from the auxiliary state applies the increment to the last stored state without losing it. Setting the state and the auxiliary state restores it exactly.',
  ['inputs','histories'],'all states and increments of each node type; sequences of up to 3 operations',
  'Tests only see converged graphs; the stored-state semantics are exercised only indirectly.',
  [FF+'nodePose2d.cpp',FF+'nodePose3d.cpp',FF+'nodeLandmark2d.cpp',FF+'nodeLandmark3d.cpp',FF+'nodePlane4d.cpp'],
  [('update, update_from_auxiliary, set_state, set_auxiliary_state','src/FGraph/factors/node*.cpp')],['get_state','get_auxiliary_state'])
p('C12','Angle wrapping terminates, stays in [-pi, pi) and keeps the direction',
  'Wrapping any finite angle terminates promptly, whatever its magnitude, and returns a value in [-pi, pi) equal to the angle modulo one turn (up to rounding); angles already in range are returned unchanged bit for bit.',
  ['inputs'],'every finite double (bit-precise for angles already in range and within a few turns; magnitude argument for larger)',
  'Boundary values and huge magnitudes are not sampled by any test.',
  [F+'node.cpp'],[('wrap_angle','src/FGraph/node.cpp')],['wrap_angle','2D node and factor headings'])
p('C13','2D pose and odometry factors: residual and Jacobian are exact and consistent',
  'The 2D prior, pose-to-pose and odometry factors have zero residual (heading modulo a turn) exactly when the states agree with the observation, the reported Jacobian is the exact derivative of the reported residual with respect to the states, and the pose-to-pose factor means the same whichever of the two nodes has the lower id (the odometry factor requires the origin to be added first). When asked to initialise the second node, the resulting residual is zero.',
  ['inputs','configurations'],'all poses, observations and information matrices; both node orders; with and without initialisation',
  'Tests use zero headings or already consistent graphs where a missing rotation term vanishes.',
  [FF+'factor1Pose2d.cpp',FF+'factor2Poses2d.cpp',FF+'nodePose2d.cpp'],
  [('Factor1Pose2d, Factor2Poses2d, Factor2Poses2dOdom','src/FGraph/factors/')],['get_residual','get_jacobian','get_chi2'])
p('C14','3D pose factors: residual, Jacobian and node order are exact',
  'The 3D prior and pose-to-pose factors report the logarithm of the observation error, zero exactly when states and observation agree; the Jacobian is the exact derivative for left updates exp(dx) T at zero residual and keeps the documented closed form elsewhere; the factor means the same whichever node has the lower id, and initialising the second node gives a zero residual.',
  ['inputs','configurations'],'all poses and observations; both node orders; both constructors; with and without initialisation',
  'No test creates the reversed node order with a non-trivial observation; Jacobian errors only slow convergence.',
  [FF+'factor1Pose3d.cpp',FF+'factor2Poses3d.cpp',FF+'nodePose3d.cpp'],
  [('Factor1Pose3d, Factor2Poses3d','src/FGraph/factors/')],['get_residual','get_jacobian'])
p('C15','Landmark observation factors: residual and Jacobian are exact',
  'The 2D (range, bearing) and 3D (point in sensor frame) landmark factors have zero residual exactly when the landmark seen from the pose equals the observation, their Jacobian is the exact derivative of the residual for the pose and landmark updates, whichever of the two nodes has the lower id, and a landmark initialised from its first observation has zero residual.',
  ['inputs','configurations'],'all poses, landmarks away from the sensor origin, observations; both node orders; with and without initialisation',
  'Tests converge from good guesses so a wrong column or sign still converges; node order is never varied.',
  [FF+'factor1Pose1Landmark2d.cpp',FF+'factor1Pose1Landmark3d.cpp',FF+'nodeLandmark2d.cpp',FF+'nodeLandmark3d.cpp'],
  [('Factor1Pose1Landmark2d, Factor1Pose1Landmark3d','src/FGraph/factors/')],['get_residual','get_jacobian'])
p('C16','Plane and point-to-plane factors: residual and Jacobian are exact',
  'The pose-plane factor compares the observed plane with the mapped plane expressed in the sensor frame, and the point-to-plane factor measures the signed distance of the transformed point to the plane; both are zero exactly when geometry and observation agree, and their Jacobians are the exact derivatives for the pose and plane updates in either node order.',
  ['inputs','configurations'],'all poses, unit-normal planes, points; both node orders; with and without initialisation',
  'No test evaluates these Jacobians; the point-to-plane factor is only run on one small cloud.',
  [FF+'factor1Pose1Plane4d.cpp',FF+'nodePlane4d.cpp',C+'factors/factor1PosePoint2Plane.cpp'],
  [('Factor1Pose1Plane4d, PosePoint2Plane','src/FGraph/factors/, src/PCRegistration/factors/')],['get_residual','get_jacobian'])
p('C17','Robust kernels weight every factor by their documented influence function',
  'The weight of a factor with normalised distance u is 1 for quadratic, 1 below 1 and 1/u above for Huber, 1/(1+u^2) for Cauchy, 1/(1+u^2)^2 for Geman-McClure, and 1 for inliers (u < 1) and 0 for outliers for Ransac; it is always in [0, 1], continuous for all but Ransac and never depends on earlier evaluations. Every factor error equals half the weighted squared residual r^T W r.',
  ['inputs','configurations'],'every u >= 0 (real and bit-precise), every kernel, every factor type and symmetric information matrix',
  'Tests never enable the robust kernels except by example scripts.',
  [F+'factor.cpp',F+'mrob/factor.hpp',FF],[('Factor::evaluate_robust_weight, evaluate_chi2','src/FGraph/factor.cpp')],['evaluate_robust_weight','get_chi2'])
p('C18','Graph assembly stacks every factor block and forms the exact normal equations',
  'For any graph, the adjacency matrix holds each factor Jacobian block at the columns of the node it belongs to, the residual and block-diagonal information stack in factor order with robust weights applied, and the information matrix and vector are A^T W A and A^T W r, independent of the order in which nodes and factors of different sizes were added and of the ids of the factor nodes.',
  ['inputs','histories','configurations'],'all graphs with up to 4 nodes and 6 factors of mixed types built in several orders; all states, observations and full symmetric information matrices',
  'Tests check final states only; off-diagonal information entries, mixed node sizes and anchors in the middle of the ordering are not covered.',
  [F+'factor_graph_solve.cpp',F+'factor_graph.cpp'],[('build_adjacency, build_info_adjacency, build_index_nodes_matrix','src/FGraph/factor_graph_solve.cpp')],['get_adjacency_matrix','get_W_matrix','get_information_matrix','get_vector_b'])
p('C19','Graph bookkeeping: ids, dimensions and estimated states match what was added',
  'Nodes and factors get consecutive ids in insertion order and are retrievable by them, each factor is registered with each of its nodes, the state and observation dimensions are the sums over the non-anchor nodes and the factors, and the estimated state lists every node state in id order. Eigen factors are numbered on their own and registered with their nodes in the same way. Chi2 values are reported per factor in factor order and sum to the total.',
  ['histories','configurations'],'all insertion sequences of up to 4 nodes and 5 factors of the node/factor types, with any anchors',
  'Tests build a fixed graph and do not read back ids, dimensions or neighbour lists.',
  [F+'factor_graph.cpp',F+'factor_graph_solve.cpp',F+'node.cpp'],[('add_node, add_factor, get_estimated_state, chi2, get_chi2_array','src/FGraph/')],['add_node','add_factor','get_estimated_state','get_chi2_array'])
p('C20','A Gauss-Newton step solves the normal equations and never moves anchors',
  'One Gauss-Newton step moves every free node by its own block of the solution of the normal equations at the current states (the minimiser of the linearised error) and leaves anchored nodes unchanged bit for bit; for a linear problem one step reaches the least-squares optimum. Evaluating chi2 without re-evaluating residuals, or with it, reports the error of the stored respectively current residuals and never changes a state.',
  ['inputs','histories','configurations'],'graphs of up to 4 nodes with any anchors, all observations within bounds, both Gauss-Newton and LM entry points',
  'Convergence tests pass even with an inexact or misordered step as long as the final state is close.',
  [F+'factor_graph_solve.cpp'],[('FGraphSolve::solve, optimize_gauss_newton, update_nodes, chi2','src/FGraph/factor_graph_solve.cpp')],['solve','get_state','chi2'])
p('C21','Levenberg-Marquardt never worsens the error and restores rejected steps',
  'For any problem, each accepted Levenberg-Marquardt step does not increase the total error and each rejected step restores every node state exactly, so the final error never exceeds the initial one. The search stops within the iteration budget, the damping starts from the value given by the user, shrinks after good steps and grows after rejected ones.',
  ['inputs','histories'],'arbitrary residual behaviour (every factor returns an arbitrary error at each evaluation) over up to 4 iterations; spherical and ellipsoidal damping',
  'Tests run well-conditioned problems in which no step is ever rejected.',
  [F+'factor_graph_solve.cpp',F+'mrob/factor_graph_solve.hpp'],[('optimize_levenberg_marquardt, synchronize_nodes_auxiliary_state, update_nodes','src/FGraph/factor_graph_solve.cpp')],['solve','chi2','get_state'])
p('C22','The dense solver forms the same normal equations and steps as the sparse one',
  'For graphs of 3D poses, the dense problem builds gradient J^T W r and Hessian J^T W J of the total error, each factor counted once with its robust weight, anchored nodes excluded and untouched, and its bookkeeping of states makes an accepted or rejected step behave as in the sparse solver.',
  ['inputs','configurations'],'graphs of 1 to 3 poses with unary and binary factors, any anchors, all states and observations',
  'The dense solver is not covered by any test.',
  [F+'factor_graph_solve_dense.cpp','src/common/optimizer.cpp'],[('FGraphSolveDense::calculate_gradient_hessian, calculate_error, update_state','src/FGraph/factor_graph_solve_dense.cpp')],['solve','get_estimated_state'])
p('C23','The generic optimizer takes Newton steps and only keeps improving damped steps',
  'For any user problem the Newton-Raphson mode applies minus the inverse Hessian times gradient at each iteration until the error change is below tolerance, and both Levenberg-Marquardt modes keep a step only if the error decreases, otherwise restore the stored state, so the final error never exceeds the initial one. The loop terminates within the iteration budget and reports the iterations performed.',
  ['inputs','histories'],'arbitrary errors, gradients and Hessians returned by the user problem over up to 4 iterations; dimensions 1 and 2',
  'Only one plane-alignment test reaches this code, with a convex problem.',
  ['src/common/optimizer.cpp','src/common/mrob/optimizer.hpp'],[('Optimizer::solve, optimize_newton_raphson, optimize_levenberg_marquardt','src/common/optimizer.cpp')],['solve'])
p('C24','Arun alignment recovers the rigid motion of any non-degenerate point set',
  'For every pair of point sets related by a rigid motion and spanning at least a plane, Arun alignment reports success and returns that motion; the result is always a proper rotation, also where plain orthogonal fitting would give a reflection. For collinear or coincident points it reports failure and leaves the given transformation unchanged.',
  ['inputs'],'all rotations and translations, 3 and 4 point configurations with symbolic coordinates',
  'Tests align one random cloud; planar, reflected and degenerate sets are not covered.',
  [C+'arun.cpp'],[('PCRegistration::arun','src/PCRegistration/arun.cpp')],['arun'])
p('C25','Weighted and GICP alignment step towards and stay at the true motion',
  'For every non-degenerate correspondence set, one step of weighted-point or generalised-ICP alignment is the Gauss-Newton step of its weighted error (weights, or inverse combined covariances rotated by the current pose), a perfectly aligned pair is a fixed point, and zero-weight correspondences have no influence.',
  ['inputs'],'all point pairs, weights and covariance sets of 3 to 4 correspondences within stated bounds',
  'Tests converge from one random start; a wrong Jacobian or weight still converges slowly.',
  [C+'weight_point.cpp',C+'gicp.cpp'],[('PCRegistration::weighted_point, gicp','src/PCRegistration/')],['weighted','gicp'])
p('C26','Plane, normal and centroid estimation fit the given points',
  'The estimated centroid is the mean of the points; the estimated plane has unit normal, passes through the points whenever they are coplanar and otherwise minimises the sum of squared distances; the estimated normal is the unit direction of least variance. The result transforms consistently when the points are rotated or translated and does not depend on their order.',
  ['inputs'],'all point sets of 3 to 5 points with symbolic coordinates',
  'Tests use one synthetic plane.',
  [C+'estimate_plane.cpp'],[('estimate_plane, estimate_normal, estimate_centroid','src/PCRegistration/estimate_plane.cpp')],['estimate_plane','estimate_normal','estimate_centroid'])
p('C27','Each plane landmark reports exact moment matrices, error, gradient and Hessian',
  'A plane observed from several poses keeps exactly the points pushed to it per pose (points of a pose beyond its length are ignored). After any sequence of insertions, clears, resets, pose changes and full or single-pose re-estimations, the plane it reports is the unit 4-vector, and its error the value, of the smallest eigenpair of the sum of homogeneous outer products of all its points moved to the world frame, that is the least sum of squared residuals. The mean point of a pose is the mean in the sensor frame. The gradient and the upper triangle of the Hessian at a pose are the first and second derivatives, with respect to a left update of that pose, of the sum of squared residuals of its points to the current plane.',
  ['inputs','histories'],'all points (up to 3 per pose, up to 3 poses), all poses, all unit plane vectors, sequences of up to 4 operations',
  'Tests observe only a final converged trajectory.',
  [C+'plane.cpp',C+'mrob/plane.hpp'],[('Plane::push_back_point, calculate_all_matrices_S, estimate_plane, estimate_plane_incrementally, calculate_gradient, calculate_hessian, get_mean_point, clear_points','src/PCRegistration/plane.cpp')],['Plane methods'])
p('C28','Plane registration keeps its bookkeeping, interpolation and totals consistent',
  'The registration reports the planes and poses it was configured for and exactly the points added; the cloud of a pose is the union of the points of all planes. Setting the last pose makes pose t of N the fraction t/(N-1) of that screw motion; updates move the last pose on the left and interpolate the others; resetting gives identities; undoing an update restores the kept trajectory. The error is the sum of the plane errors at the current trajectory and points, the pose rmse the root mean squared logarithm of trajectory times inverse ground truth. Gradient and Hessian are the sums over planes and poses weighted by t/(N-1). Initialization recovers every pose from the planes seen from both it and the first pose, and fails if fewer than three are.',
  ['inputs','histories','configurations'],'2, 3 and 5 poses, up to 5 planes with any points, also planes not seen from every pose',
  'Tests run one synthetic scene in which every plane is seen from every pose.',
  [C+'plane_registration.cpp',C+'mrob/plane_registration.hpp'],[('PlaneRegistration','src/PCRegistration/plane_registration.cpp')],['get_current_error','get_trajectory','calculate_poses_rmse','solve(INITIALIZE)','calculate_gradient_hessian'])
p('C29','Synthetic point generation produces points on their planes with valid labels',
  'For every random draw, each generated point, moved to the world by its pose and into the frame of the plane of its label, lies within the patch and off the plane by exactly the drawn noise (zero without noise); clouds, labels and the points stored in each plane agree, every label is a valid plane index; the trajectory starts at the identity, ends at the drawn last pose (rotation below a half turn) and advances by even fractions of that screw motion; a registration filled from the scene has its planes and points with identity poses. Samplers stay within their ranges.',
  ['inputs','configurations'],'every value of the random draws (symbolic), up to 3 planes, 3 poses (5 without rotation), 6 points per pose',
  'Tests run with seeded random draws and do not read labels.',
  [C+'create_points.cpp',C+'mrob/create_points.hpp'],[('CreatePoints, SampleUniformSE3, SamplePlanarSurface','src/PCRegistration/create_points.cpp')],['get_point_cloud','get_point_plane_ids','get_ground_truth_pose'])
p('C30','The Python interface passes every argument and default to the library unchanged',
  'Calling a Python method gives the same result as the corresponding library operation for every value of its arguments: arguments are not swapped, dropped or defaulted, documented default arguments have their documented effect, arrays of either memory layout give the same result, and returned arrays are copies that later operations do not change.',
  ['inputs','configurations'],'all values of the numeric arguments of every bound method of SE3/SO3/SE3Cov/FGraph/registration; both array layouts',
  'Tests call most methods with default or symmetric arguments.',
  ['mrobpy/FGraphPy.cpp','mrobpy/SE3py.cpp','mrobpy/PCRegistrationPy.cpp','mrobpy/PCPlanesPy.cpp'],[('pybind11 bindings','mrobpy/')],['mrob python module'])
p('C31','Estimation results do not depend on the choice of world frame or insertion order',
  'Moving every pose, landmark, plane and prior of a problem by a common rigid motion leaves the relative-pose residuals of 2D graphs and all landmark and plane residuals unchanged and carries the residuals that the library expresses in the world frame (2D priors and odometry, 3D relative poses) by that motion, with the Jacobians carried accordingly; adding the same nodes and factors in another order gives the same error and the same normal equations up to the corresponding permutation.',
  ['inputs','histories'],'all world motions, all states and observations of 2D and 3D pose and landmark factors',
  'A relation between two runs; tests never compare runs.',
  [FF,F+'factor_graph_solve.cpp'],[('factor residuals, graph assembly','src/FGraph/')],['get_residual','chi2'])
p('C32','Eigen-factor plane factors report the exact derivative of the plane error',
  'A plane eigen-factor connected to several poses reports the smallest eigenvalue of its accumulated moment matrix as error and its exact derivatives per pose.',
  ['inputs'],'all points and poses','The code is not part of the build and no test reaches it.',
  ['src/EigenFactors/plane_factor.cpp'],[('PlaneFactor','src/EigenFactors/plane_factor.cpp')])
p('C33','Wall-clock profiling totals equal the time between start and stop',
  'For every sequence of start, stop and reset calls and every spacing of the instants, the profiler total is the sum over the stops since the last reset of the time since the latest start (or reset), in whole microseconds (short by less than one per interval); a second stop measures from the same start, a reset forgets every interval, and the printed breakdown lists the labels in order with their shares of the total.',
  ['histories'],'all call sequences up to the bound and all instants (the clock is symbolic)', 'Timing depends on the machine and is not tested.',
  ['src/common/time_profiling.cpp'],[('TimeProfiling','src/common/time_profiling.cpp')],['total_time','print'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
