"""Single source of the property list: `python3 props.py` rewrites properties.jsonl and MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []
BASE_NOTE = ('Deductive: every obligation generated from the LLVM IR of the real templates (rebuilt from /repo on every run) is discharged by normal form or z3. '
             'Trusted: clang front end, the toonvc VC generator and its loop rules, z3. Floating point is exact real arithmetic unless stated. ')
def prop(id, title, statement, text, why, files, mech, note, over=('inputs',)):
    assert len(title) <= 80, title
    P.append(dict(d=dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), note=BASE_NOTE + note))
I = 'TooN/internal/'

prop('C01', 'Views alias exactly the elements they name',
     'Indexing, slicing, transposing, taking rows, columns, the diagonal, or a row-, column- or diagonal-view of any vector or matrix (owned or wrapped caller memory, fixed or run-time sizes, either storage order, const or not, views of views) yields exactly the documented element of the underlying data and the documented dimensions. Reading through such a view gives that element; writing through it changes that element and no other.',
     'every vector and matrix size, every stride, every storage order and const-ness, every slice start and length in range, every index, and every content of the underlying arrays',
     'Tests read a few slices of a few fixed-size objects; the aliasing map must be right for every size, stride and index, also for chains of views.',
     [I + x for x in ('vbase.hh', 'mbase.hh', 'matrix.hh', 'vector.hh', 'allocator.hh', 'dchecktest.hh', 'reference.hh', 'diagmatrix.h', 'operators.hh')],
     [('row/column stride layouts', I + 'mbase.hh, ' + I + 'vbase.hh'), ('slice holders', I + 'allocator.hh'), ('wrapVector/wrapMatrix', I + 'reference.hh')],
     'Symbolic sizes and indices, arrays of any length; loops in the harness-side reads are cut with inductive rules.')
prop('C02', 'Bounds checking aborts exactly on invalid indices, slices and sizes',
     'With bounds checking compiled in, element access, row access, slicing and slice-size declarations terminate the program exactly when an index or range lies outside the object or contradicts a statically declared value. Independently of that switch, arithmetic, comparison, assignment, product and swap of operands of unequal size terminate the program exactly when the sizes disagree. No access outside the object, and no arithmetic overflow in the check itself, happens for any arguments.',
     'all 32-bit index and range arguments, all sizes, fixed or run-time sized operands, and all storage orders',
     'Tests cannot enumerate index and size combinations, and a check that is off by one, overflows, or misses one operand only shows for particular values.',
     [I + x for x in ('slice_error.hh', 'size_mismatch.hh', 'dchecktest.hh', 'vbase.hh', 'mbase.hh', 'operators.hh', 'vector.hh', 'matrix.hh', 'diagmatrix.h')],
     [('Internal::check_index', I + 'vbase.hh'), ('CheckSlice', I + 'slice_error.hh'), ('SizeMismatch', I + 'size_mismatch.hh')],
     'Index and slice checks are verified under TOON_CHECK_BOUNDS; the abort condition is proved in both directions (aborts iff invalid). Overflow of the check arithmetic is an obligation.')
prop('C03', 'Elementwise arithmetic and comparison are exact and touch nothing else',
     'Sums, differences, negation, scaling and division by a scalar of vectors and matrices (and their in-place forms, and adding scaled identities or constant objects) produce in every element the value that scalar arithmetic gives on the corresponding operand elements, whatever the storage orders, sizes and element types of the operands, also when the destination is an operand. Equality and ordering comparisons agree with element-by-element comparison. Elements outside the destination view are unchanged.',
     'all sizes, element values, element-type mixtures, storage layouts (fixed, run-time, strided, sub-block, transposed) and operator combinations',
     'Tests check a few fixed sizes with one element type; a wrong index, type promotion or evaluation order only shows for particular layouts or type mixtures.',
     [I + x for x in ('operators.hh', 'objects.h', 'vector.hh', 'matrix.hh', 'vbase.hh', 'mbase.hh')],
     [('operator expression objects', I + 'operators.hh'), ('type promotion', I + 'operators.hh'), ('generator objects', I + 'objects.h')],
     'Aliasing of the destination with an operand is covered for same-object aliasing.')
prop('C04', 'Products equal their mathematical definition',
     'Inner products, cross products, matrix-vector, vector-matrix and matrix-matrix products, row and column scaling by a vector and products with diagonal matrices equal the sums of element products that define them, for every size including zero, every storage layout and mixture of element types, and also when the destination is one of the operands.',
     'all sizes (inner and outer dimensions independently, including 0), element values, layouts and element types',
     'Tests multiply a few small matrices; wrong dimension, stride or accumulation order handling appears only for particular shapes or layouts.',
     [I + x for x in ('operators.hh', 'diagmatrix.h', 'vbase.hh', 'mbase.hh')],
     [('dot / cross / matrix products', I + 'operators.hh'), ('DiagonalMatrix', I + 'diagmatrix.h')],
     'Sums are symbolic sums over an arbitrary inner dimension.')
prop('C05', 'Copies are independent, views alias, and lifetime operations keep values',
     'Copying, assigning, moving, resizing and swapping vectors and matrices (fixed, run-time sized, resizable; owned, wrapped or sliced) gives objects of the documented size with the documented elements: copies and assignments between owners have their own storage, copying a view gives another view of the same memory, assignment to a view writes through it, moved values keep their elements, resizing gives the documented size, and nothing is leaked, freed twice or touched after its release. Assignment between objects of different fixed size aborts.',
     'all sizes, element values, storage kinds and layouts of both operands, and all orders of resize, copy, move and destruction in the covered operation sequences',
     'Tests copy a few fixed-size objects; shared storage, stale sizes and leaks only show for particular storage kinds and sequences, and leaks never show in a value test.',
     [I + x for x in ('allocator.hh', 'vector.hh', 'matrix.hh', 'mbase.hh', 'vbase.hh', 'operators.hh', 'reference.hh')],
     [('ownership', I + 'allocator.hh'), ('copy/assign/move', I + 'vector.hh, ' + I + 'matrix.hh')],
     'Allocation is modelled as never failing; every allocation must be released exactly once on every path that returns.')
prop('C06', 'Constant objects and element lists produce exactly the listed values',
     'Assigning or constructing a vector or matrix from Zeros, Ones, Identity (plain, scaled, negated, with or without a size), from makeVector, Data or Fill gives exactly the documented elements in reading order, with the documented size and element type, in every storage order and every kind of destination, and changes nothing outside the destination. Filling with too few or too many elements terminates the program.',
     'all sizes, element values and scale factors, storage layouts and element types, and all numbers of listed elements in the covered ranges',
     'Tests fill a few fixed-size objects; a wrong stride, an unwritten element or a missed over- or underfill only shows for particular shapes and layouts.',
     [I + x for x in ('objects.h', 'make_vector.hh', 'data.hh', 'data_functions.hh', 'comma.hh', 'overfill_error.hh', 'matrix.hh', 'vector.hh')] + ['TooN/TooN.h'],
     [('constant objects', I + 'objects.h'), ('element lists', I + 'make_vector.hh, ' + I + 'data.hh'), ('Fill', I + 'comma.hh')],
     'makeVector is verified for all its 30 arities, Data for 1..32, 50 and 100 values.')
prop('C07', 'Norms, projective helpers and small matrix functions meet their formulas',
     'norm, norm_2, norm_sq, norm_1 and norm_inf of a vector, norm_fro, norm_1 and norm_inf of a matrix, unit and normalize, trace, Symmetrize, project and unproject (vectors and matrices), the inverse of a nonsingular 2x2 matrix, cross_product_matrix, isnan and isfinite, and the deprecated Fill give the documented value for every input and change nothing else; trace, Symmetrize and cross_product_matrix terminate the program exactly when the sizes are wrong.',
     'all sizes, element values, fixed and run-time sizes, storage orders, strides and sub-blocks; for isnan/isfinite every position of a special value in the covered sizes',
     'Tests do not call most of these helpers at all; a wrong stride, index range or missed element only shows for particular shapes.',
     ['TooN/helpers.h'],
     [('vector and matrix norms', 'TooN/helpers.h norm*'), ('projective helpers', 'TooN/helpers.h project/unproject'), ('2x2 inverse, cross product matrix', 'TooN/helpers.h inv, cross_product_matrix')],
     'Maxima are selections proved by an inductive rule: at least as good as every element, and attained.')
prop('C08', 'Minimum and maximum searches return the best element and where it is',
     'min_value, max_value, min_element and max_element of a vector or matrix, and their row-wise (_horizontal) and column-wise (_vertical) forms, return a value that is an element of the searched range and at least as good as every element of it, together with the position of such an element, in a result of the documented size; an empty vector gives zero, an empty matrix an empty result; nothing outside the operand is read and nothing is leaked.',
     'all sizes including zero, element values, storage orders, strides, sub-blocks and element types',
     'Tests do not cover these functions; a wrong start index, row/column mix-up or missed last element depends on where the extreme value lies.',
     ['TooN/helpers.h'],
     [('accumulate and its functors', 'TooN/helpers.h Internal::accumulate*'), ('entry points', 'TooN/helpers.h min_*/max_*')],
     'Searches are cut with an inductive rule for running minima; nested searches are merged into one over pairs of iterations.')
prop('C09', 'Determinants and Gaussian elimination are right for every matrix',
     'determinant and determinant_gaussian_elimination equal the sum over permutations for every square matrix, singular ones included (where they give zero); gaussian_elimination returns the solution of A x = b (vector or matrix right-hand side) and gauss_jordan turns [A|B] into [I|inverse(A) B], for every nonsingular A, whichever elements are zero, without ever dividing by zero; inconsistent sizes terminate the program.',
     'all element values (real arithmetic), sizes 1 to 4 as compile-time sizes and as run-time sizes, storage orders, element types; all sizes for the size checks',
     'Tests solve a few random systems, in which no pivot is ever zero and row exchanges matter only for accuracy; a wrong exchange, sign or index shows only for matrices with particular zero or magnitude patterns.',
     ['TooN/determinant.h', 'TooN/gaussian_elimination.h', 'TooN/gauss_jordan.h'],
     [('determinant', 'TooN/determinant.h'), ('solving', 'TooN/gaussian_elimination.h, TooN/gauss_jordan.h')],
     'Proved for the compile-time sizes 1..4 (every pivot order is a path, every element symbolic); run-time sizes are checked at the same sizes and reported as bounded.')
prop('C10', 'Cholesky and QR reproduce the matrix, solve and invert',
     'Cholesky gives a unit lower triangular L and diagonal D with L D L^T equal to the matrix described by the lower half of its argument (and L L^T for get_L), its determinant and rank, and backsub, get_inverse and mahalanobis solve with that matrix, after construction and after compute(); QR of a matrix with at least as many columns as rows gives an orthogonal Q and an upper triangular R with Q R equal to the matrix, for every matrix, also when columns are zero or already reduced. Wrong sizes terminate the program.',
     'all element values (real arithmetic) with nonzero leading minors for Cholesky and no condition for QR, sizes 1 to 4, storage orders, compile-time and run-time sizes, vector and matrix right-hand sides',
     'Tests decompose a few random matrices; special columns, the unused upper half, a second compute() and particular layouts are never exercised.',
     ['TooN/Cholesky.h', 'TooN/QR.h'],
     [('Cholesky', 'TooN/Cholesky.h'), ('Householder QR', 'TooN/QR.h')],
     'Proved for compile-time sizes up to 4; QR is proved over a rational parametrisation that covers every matrix (four cases per column). Run-time sizes are checked at the same sizes and reported as bounded.')
LAP = 'The LAPACK routines are assumed contracts (specs/lapack_ref.hh: reference algorithms, or factors given by the contract, with the argument checks of the real routines as preconditions); "./check %s --native" compares them with the installed LAPACK. '
prop('C11', 'LU and Lapack_Cholesky solve, invert and report determinant and rank',
     'LU (of any nonsingular square matrix; backsub of a vector or matrix, get_inverse, determinant, also of singular matrices) and Lapack_Cholesky (of the positive definite matrix described by the lower half of its argument; get_L with L L^T equal to it, backsub, get_inverse, mahalanobis, determinant, and the rank reported when a pivot is not positive) give the mathematically right result after construction, after compute() and when several results are asked for, for every storage order, fixed and run-time sizes, double and float, given that LAPACK does what it documents; determinant() gives the same with TOON_DETERMINANT_LAPACK; wrong sizes terminate the program.',
     'all element values (real arithmetic), sizes 1 to 3, storage orders, compile-time and run-time sizes of matrix and right-hand side, numbers of right-hand sides; all sizes for the size checks',
     'Tests solve a few well-behaved systems; a row exchange left undone, a transposed factor or a dimension passed in the wrong place shows only for particular pivot orders and shapes.',
     ['TooN/LU.h', 'TooN/Lapack_Cholesky.h', 'TooN/determinant.h', 'TooN/lapack.h'],
     [('row-major use of the column-major LAPACK', 'TooN/LU.h'), ('Cholesky through potrf/potrs/potri', 'TooN/Lapack_Cholesky.h'), ('determinant_LU', 'TooN/determinant.h')],
     LAP % 'C11' + 'Proved for compile-time sizes up to 3; run-time sizes are checked at the same sizes and reported as bounded.')
prop('C12', 'SVD, SymEigen and QR_Lapack factor, solve and condition correctly',
     'SVD and SQSVD of a matrix of any shape return orthonormal factors with U diag(s) VT equal to the matrix, and backsub, get_pinv and rank treat exactly the singular values with s * condition <= largest as zero; SymEigen of a symmetric matrix (2x2 in closed form, other sizes through LAPACK) returns orthonormal eigenvectors and ascending eigenvalues that reproduce the matrix, backsub and get_pinv invert on exactly the eigenvalues with |l| * condition above the largest, get_sqrtm and get_isqrtm are the symmetric roots, is_posdef, is_negdef and get_determinant follow from the eigenvalues; QR_Lapack returns Q R equal to the column-permuted matrix with Q orthogonal and R upper triangular, given that LAPACK does what it documents.',
     'all matrices given by their factors (rotations depending rationally on parameters, every spectrum including repeated and zero values, every pattern of kept values), shapes up to 3x3 and symmetric 4x4, storage orders, compile-time and run-time sizes, condition numbers above 1',
     'Tests use full-rank random matrices: the conditioned inverse, rank, roots of singular matrices, permutations and the two branches for tall and wide matrices are barely exercised.',
     ['TooN/SVD.h', 'TooN/SymEigen.h', 'TooN/QR_Lapack.h', 'TooN/lapack.h'],
     [('conditioned pseudo-inverse', 'TooN/SVD.h get_inv_diag, TooN/SymEigen.h get_inv_diag'), ('tall and wide storage of the factors', 'TooN/SVD.h do_compute'), ('2x2 closed form', 'TooN/SymEigen.h ComputeSymEigen<2>'), ('pivoted QR', 'TooN/QR_Lapack.h')],
     LAP % 'C12' + 'The closed form for 3x3 symmetric matrices (trigonometric) is outside the contracts except for the zero matrix, as is GR_SVD (iterative). Compile-time sizes are proved, run-time sizes reported as bounded.')

TRIG = 'sin, cos, atan, atan2, asin, acos, sqrt, exp and log are used through assumed contracts (sin^2+cos^2=1, angle addition, parity, values at 0, enclosures by their series near 0; M_PI as the exact number pi). '
prop('C13', 'SO2, SE2 and SIM2 are the groups they claim: products, exp, ln, adjoint',
     'SO2, SE2 and SIM2 behave as the planar rotations, rigid motions and similarities: a product, its in-place form (also with itself), the inverse and the action on vectors, homogeneous vectors and matrices from either side agree with the product of the 2x2/3x3 matrices, also when the two sides have different precision; the constructors and get_ functions return the given parts, SO2 of a matrix of positive determinant is a rotation and leaves a rotation unchanged; exp is the matrix exponential of the combination of the generators, ln inverts it with the angle in (-pi,pi], and T exp(v) T^-1 is exp(T.adjoint(v)), for matrices Ad M Ad^T; in the small-angle and small-scale branches exp and ln are within a stated tolerance of these.',
     'all rotations, translations and scales (real arithmetic, angles parametrised rationally), all coefficient vectors, double, float and mixed, storage orders, compile-time and run-time sized operands',
     'The tests print values of a few transforms; a wrong coefficient in exp or adjoint, a missing scale, or an aliased in-place product shows only on general transforms or in branches taken for small angles.',
     ['TooN/so2.h', 'TooN/se2.h', 'TooN/sim2.h'],
     [('exponential and logarithm', 'TooN/se2.h SE2::exp, SE2::ln, TooN/sim2.h'), ('coercion to a rotation', 'TooN/so2.h SO2::coerce'), ('action on homogeneous vectors', 'TooN/se2.h SE2VMult, TooN/sim2.h SIM2VMult')],
     TRIG + 'Tolerances: SE2 exp 1e-8 below 1e-4 rad and 1e-14 up to 1e-3 rad for a unit translation, SE2 ln 1e-10 below 1e-5 rad, SIM2 exp in its small branches equal to the second-order expansion.')
prop('C14', 'SO3 is the rotation group: construction, action, exp, ln and adjoint',
     'SO3 represents rotation matrices: products (in place, with itself, of different precisions), the inverse and the action on vectors and matrices from either side are those of the 3x3 matrix; construction from a matrix of positive determinant gives the rotation R with M = L R, L lower triangular with positive diagonal (so a rotation is unchanged) and a negative determinant fails the assertion; SO3(a,b) turns the direction of a into that of b about the axis a^b and is the identity for parallel vectors; exp(w) is the rotation I + sin t/t [w] + (1-cos t)/t^2 [w]^2, to within a stated tolerance for small t; ln returns w for every angle below pi, and for a half turn pi times the unit axis in either sense; T exp(v) T^-1 is exp(T.adjoint(v)); generators and generator_field are the derivative basis.',
     'all rotations (axis and half-angle parametrised rationally), all vectors and matrices, double, float and mixed, storage orders',
     'Tests try a handful of axis-angle vectors; the case split of ln on the largest component, half turns and small angles, opposite vectors and aliasing in-place products need specific inputs.',
     ['TooN/so3.h'],
     [('Rodrigues formula', 'TooN/so3.h rodrigues_so3_exp, SO3::exp'), ('logarithm by cases', 'TooN/so3.h SO3::ln'), ('Gram-Schmidt coercion', 'TooN/so3.h SO3::coerce')],
     TRIG + 'Small angles: equal to the rotation about each coordinate axis within 1e-12 and equivariant under rotation of the axis. ln of an angle of less than pi is proved on rational axis parametrisations that cover every axis up to a null set.')
prop('C15', 'SE3 and SIM3 are the groups they claim: products, exp, ln, adjoint',
     'SE3 and SIM3 behave as the rigid motions and similarities of space: products, in-place products (also with itself and left_multiply_by), inverses and the action on vectors, homogeneous vectors and matrices from either side agree with the product of the 4x4 matrices, also for mixed precision; constructors and accessors return, and write access changes, exactly the named parts; exp is the matrix exponential of the combination of the generators and ln inverts it; the adjoint satisfies T exp(v) T^-1 = exp(T.adjoint(v)), trinvadjoint is its inverse transpose, and both act on matrices as J M J^T; generator_field is the generator applied to the point; in the branches for small angles and scales exp and ln are within a stated tolerance or equal to the second-order expansion.',
     'all rotations (rational parametrisations), translations, scales and coefficient vectors, double, float and mixed, storage orders, compile-time and run-time sized operands',
     'Tests check a few transforms by printing or with loose tolerances; wrong scale factors in adjoints, wrong coefficients of a series branch and aliasing need specific inputs.',
     ['TooN/se3.h', 'TooN/sim3.h', 'TooN/so3.h'],
     [('exponential and logarithm', 'TooN/se3.h SE3::exp, SE3::ln, TooN/sim3.h compute_rodrigues_coefficients_sim3, SIM3::exp, SIM3::ln'), ('adjoint and its dual', 'TooN/se3.h, TooN/sim3.h adjoint, trinvadjoint'), ('action on homogeneous vectors', 'TooN/se3.h SE3VMult, TooN/sim3.h SIM3VMult')],
     TRIG + 'SO3<double>::ln and gaussian_elimination<3,double> enter ln through their contracts (C14, C09). ln(exp(v)) of SE3 is proved exactly for angles from 2e-3 to pi and within 1e-10 below 2e-4 (not in between); SIM3 exp in its small branches equals the second-order expansion.')

prop('C16', 'SL is the special linear group; matrix exp, log and sqrt follow their series',
     'SL<N> behaves as the matrices of determinant one: construction and assignment from a matrix of positive determinant give that matrix divided by the N-th root of its determinant, products (in place, with itself, of different precisions), the inverse and the action on vectors and matrices from either side agree with the matrices, the generators are the documented diagonal, symmetric and antisymmetric basis, exp and ln are the matrix exponential and logarithm expressed in that basis, and wrong sizes terminate the program. exp of a square matrix is the Taylor sum of the matrix divided by a power of two that brings its norm to at most one, squared as often; log is the Mercator series of the repeated square root scaled back; whatever the series stop at is the partial sum of their terms; sqrt returns the limit of the Denman-Beavers pair, a square root whenever the iteration has converged.',
     'all group elements and generator coefficients for N = 2, 3, 4 (real arithmetic), double, float and mixed; all matrices of size 1 to 3 (fixed) and 2 (run-time) for the series, every number of iterations',
     'Tests print single transforms and compare one exponential; a wrong coefficient of a late term, a matrix with a large norm, a group of other size or an in-place product with itself is not tried.',
     ['TooN/sl.h', 'TooN/helpers.h', 'TooN/determinant.h'],
     [('basis of the algebra', 'TooN/sl.h SL::generator'), ('coercion to determinant one', 'TooN/sl.h SL::coerce'), ('series with loop invariants', 'TooN/helpers.h Internal::exp_taylor, Internal::log_taylor, sqrt'), ('scaling and squaring', 'TooN/helpers.h exp, log')],
     'determinant, gaussian_elimination and matrix exp/log enter SL through their contracts. The series and square roots are partial correctness by stated loop invariants: that the iterations stop, and how far the partial sum is from the limit, is not shown. pow, log2, exp2 and ldexp are assumed contracts.')
prop('C17', 'WLS accumulates and solves the normal equations; IRLS applies its robust weights',
     'Each add_ function of WLS adds to the inverse covariance (upper triangle until compute()) and to the vector exactly J^T W J and J^T W m of the measurements passed, whatever the storage of the Jacobian, with one weight or a full inverse covariance, row-wise or column-wise, and for sparse Jacobians exactly what the dense Jacobian with zeros elsewhere gives; priors add to the diagonal or matrix; += adds two systems, clear() and construction empty it; compute() hands the symmetric matrix and the vector to the decomposition, keeps both, and with Cholesky the result solves the normal equations; sizes that do not match terminate the program. IRLS enters each measurement with weight w(m) and adds true_scale(m)^2 J J^T to true_C_inv and objective(m) to the residual; the provided weight functions return w(x), w(x) + x w\'(x) and the integral of x w(x) as documented.',
     'all states and measurements (real arithmetic), run-time systems with any number of parameters, fixed systems with 1 to 6, 1 to 3 measurements per call, all block positions listed, double, float and mixed, any weight function',
     'Tests solve one small system; a wrong index in the sparse blocks, a lower triangle used before it is filled, a residual lost in +=, or a wrong derivative in a robust weight only shows in results nobody recomputes.',
     ['TooN/wls.h', 'TooN/irls.h', 'TooN/Cholesky.h'],
     [('normal equations', 'TooN/wls.h WLS::add_mJ, add_mJ_rows, add_sparse_mJ, add_sparse_mJ_rows'), ('solution', 'TooN/wls.h WLS::compute'), ('robust weights', 'TooN/irls.h RobustI, RobustII, RobustIII, ILinear')],
     'Real arithmetic. The run-time sized system is proved for any number of parameters (number of measurements per call fixed); other run-time sized cases are checked at fixed sizes and reported as bounded. log is an uninterpreted function.')

prop('C18', 'Optimisers and numerical derivatives keep their documented step contracts',
     'Given a bracket a < b < c with f(b) below both ends, golden_section_search and brent_line_search return a point inside the bracket together with the value of the function there, no worse than the centre, evaluate the function at most maxiterations times, and when they stop before that limit on a quadratic (golden section: also on |x - m|), the minimum lies within the tolerance they stop at. bracket_minimum_forward returns three ordered points with their function values and the middle strictly below both (or all zero when no descent is found). One step of ConjugateGradient never makes the value worse, keeps x, y, old_x and old_y consistent, moves along the search direction only, updates by Polak-Ribiere and stops exactly when settled or out of iterations. One step of DownhillSimplex reflects, expands, contracts or shrinks exactly as documented, keeps every stored value equal to the function at its vertex, and best, worst, finished and restart mean what they say. Numerical gradients, Hessians and their error estimates are exact on every quadratic, and the extrapolation returns the limit of a polynomial, in real arithmetic, leaving the point of differentiation untouched between axes.',
     'all functions (an opaque function of the coordinates), all brackets, all numbers of iterations, all starting points and directions for 1 and 2 parameters; all quadratics up to 3 variables for the derivatives; real arithmetic without NaN',
     'Tests minimise one or two friendly functions and look at the end point; a bracket cut on the wrong side, a value that belongs to another point, or an iteration limit overrun still ends near the minimum there.',
     ['TooN/optimization/golden_section.h', 'TooN/optimization/brent.h', 'TooN/optimization/conjugate_gradient.h', 'TooN/optimization/downhill_simplex.h', 'TooN/functions/derivatives.h'],
     [('line searches with inferred loop invariants', 'TooN/optimization/golden_section.h golden_section_search, brent.h brent_line_search'), ('bracketing and the conjugate gradient step', 'TooN/optimization/conjugate_gradient.h Internal::bracket_minimum_forward, ConjugateGradient'), ('simplex step', 'TooN/optimization/downhill_simplex.h DownhillSimplex::find_next_point'), ('Ridders extrapolation', 'TooN/functions/derivatives.h Internal::extrapolate_to_zero, numerical_gradient, numerical_hessian')],
     'Real arithmetic without NaN, so the NaN paths of the bracketing are not covered; partial correctness: that bracketing ends is not shown. The conjugate gradient step uses Brent through the contract proved for it; gradients and Hessians use the extrapolation through its contract for constant differences. The simplex step is proved for 1 and 2 dimensions and distinct vertex values.')

prop('C19', 'Writing and reading vectors, matrices and transformations follow one format',
     'operator<< writes every element of a vector in order, each at the width set on the stream and followed by a space; every element of a matrix row by row, each at that width, with a space between elements and a newline after each row, whatever the storage order or view; SO2, SO3 and SL as their matrix; SE2, SE3, SIM2 and SIM3 row by row, the (scaled) rotation followed by that row\'s translation and a newline. Nothing else is written and no other state of the stream is changed. operator>> takes exactly as many numbers as operator<< writes, in that order: element i of what is read is number i of the stream, for every storage order; transformations coerce the rotation read and keep the translation, the scale of a similarity being the mean length of the rows read, so that what was written is read back.',
     'all element values, all field widths from 0 to 1000; vectors and matrices of the listed sizes with elements of double, float and int; all the transformation classes',
     'Tests only look at the printed default format of one or two objects; a width applied to the first element only, a transposed read, or a scale taken after the rotation has been normalised is not tried.',
     ['TooN/internal/operators.hh', 'TooN/so2.h', 'TooN/se2.h', 'TooN/sim2.h', 'TooN/so3.h', 'TooN/se3.h', 'TooN/sim3.h', 'TooN/sl.h'],
     [('vectors and matrices', 'TooN/internal/operators.hh operator<<, operator>>'), ('transformations', 'TooN/se2.h, sim2.h, se3.h, sim3.h operator<<, operator>>')],
     'The formatted input and output of the standard library (a number or character is written at the current width, which is then reset; reading takes the next number) is an assumed contract, a recorder executed by the verifier. Coercion to a rotation is some function of the matrix (C13, C14, C16 say which). Run-time sizes are checked at fixed sizes and reported as bounded. Streams in a failed state are not covered.')

def main():
    for p in P + NA:
        for f in p['d']['anchors']['files']: assert os.path.exists('/repo/' + f), f
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p['d']) + '\n')
        for p in NA: f.write(json.dumps(p['d']) + '\n')
    m = dict(version=1, setup_cmd='true',
             hooks=dict(guard='none', enable='no hooks are needed: the checks compile the headers of /repo as they are', source_commits=[]),
             checks=[dict(property=p['d']['id'], quick_cmd='./check %s' % p['d']['id'], thorough_cmd='./check %s --tier thorough' % p['d']['id'],
                          technique='contract-based deductive verification: verification conditions from LLVM IR of the real templates, discharged by rational normal form and z3',
                          level='proof', level_note=p['note']) for p in P],
             not_applicable=[dict(property=p['d']['id'], reason=p['reason']) for p in NA])
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
        for p in P + NA: jsonschema.validate(p['d'], json.load(open('/root/.vp/PROPERTIES.schema.json')))
    except ImportError: pass
if __name__ == '__main__': main()
