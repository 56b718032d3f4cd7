EX = 'explicit-state exploration of the real code in lock step with a reference model'
BE = 'bounded exhaustive enumeration of operand states on the real code against a reference model'

P('C01', 'A vector is an ordered list of numbers under every editing history',
  'After any sequence of editing calls (append, insert, ordered insert, set, remove, unordered remove, erase, resize, fill, sort, reverse, copy, conversion, concatenation) a vector holds exactly the list of numbers a plain list would hold, and every query and every way of reading it returns what that list says. Out-of-range positions and missing operands are refused without changing anything. Copies are independent of their source.',
  ['histories', 'inputs'], 'every sequence of editing calls on two vectors, aliasing included',
  'The unit tests never edit a vector through more than one or two calls; the property is about all call sequences and boundary positions.',
  ['core/mlpp_vector.cpp', 'core/mlpp_vector.h'],
  [('push_back / insert / remove / remove_unordered / erase', 'core/mlpp_vector.cpp'), ('resize / set_from_* / duplicate_fast', 'core/mlpp_vector.cpp')],
  EX + ' (all call sequences to depth 2/3, breadth-first over merged states beyond)',
  'Bounded: vectors of at most 6 elements in the breadth-first part, three values, plus 8/17/33-element vectors for every single call; built with AddressSanitizer.',
  state=[('data,size', 'the list', 'core/mlpp_vector.h')])

P('C02', 'Vector arithmetic: each operation means the same in all its forms',
  'Every element-wise vector operation (add, subtract, multiply, divide, scale, shift, log, log10, exp, erf, power, square root, cube root, absolute value, sine, cosine, maximum, minimum, subtracting the rows of a matrix) yields the mathematically defined value in each element. The in-place form, the form returning a new vector and the form writing into another vector give the same result, also when operands and destination are the same object and whatever the destination held before. Operands are never modified, and operands of different lengths are refused leaving everything as it was.',
  ['inputs', 'configurations'], 'every operation, form, operand aliasing pattern, destination size and vector of the enumerated values',
  'Tests call a handful of operations once on one shape; the property ranges over forms, aliasing patterns, shapes and values.',
  ['core/mlpp_vector.cpp'], [('in-place, n and b variants', 'core/mlpp_vector.cpp')],
  BE, 'All vectors up to length 3 over an alphabet of values, all destination sizes and aliasing patterns; float results compared with double references.')

P('C03', 'Vector products, norms and reductions have their mathematical value',
  'Dot product, three-dimensional cross product, outer product, Euclidean norm and its square, Euclidean distance and its square, element sum, largest and smallest element and their positions, diagonal-matrix construction and constant-vector construction return their mathematical value for every input. Operands are never modified, and incompatible operands are refused without changing anything.',
  ['inputs'], 'every pair of vectors over the enumerated values and lengths',
  'Tests check none of these for values; the property is over all inputs.',
  ['core/mlpp_vector.cpp'], [('dot, cross, outer_product, norm_2, norm_sq, euclidean_distance, diagnm', 'core/mlpp_vector.cpp')],
  BE, 'All vectors up to length 3 (4 in thorough) over the value alphabet.')

P('C04', 'A matrix is a grid of numbers under every editing history',
  'After any sequence of editing calls (adding, inserting into, reading, overwriting, removing and swapping rows, setting elements, resizing, filling, copying, transposing, converting) a matrix holds exactly the rows a plain list of equal-length rows would hold, and every way of reading it agrees. Rows of the wrong length, positions out of range and missing operands are refused without changing anything. Copies are independent of their source.',
  ['histories', 'inputs'], 'every sequence of editing calls on two matrices, aliasing included',
  'The unit tests exercise one row operation at a time on one 3-column shape.',
  ['core/mlpp_matrix.cpp', 'core/mlpp_matrix.h'],
  [('row_add* / row_remove* / row_swap / resize', 'core/mlpp_matrix.cpp'), ('set_from_* / duplicate_fast', 'core/mlpp_matrix.cpp')],
  EX, 'Bounded to small shapes (up to 3 columns, 4 rows), two or three values and the stated depth; AddressSanitizer build.',
  state=[('data,size', 'row-major grid', 'core/mlpp_matrix.h')])

P('C05', 'Matrix arithmetic: each operation means the same in all its forms',
  'Every element-wise matrix operation (add, subtract, element-wise multiply and divide, scale, shift, log, log10, exp, erf, power, square root, cube root, absolute value, sine, cosine, maximum, add a vector to every row, outer product) yields the mathematically defined value in each element. The in-place form, the form returning a new matrix and the form writing into another matrix agree, also when operands and destination are the same object and whatever the destination held before. Operands are never modified, and operands of different shapes are refused leaving everything as it was.',
  ['inputs', 'configurations'], 'every operation, form, operand aliasing pattern, destination shape and matrix of the enumerated values',
  'Tests call single forms on single shapes; aliasing and stale destinations are never exercised.',
  ['core/mlpp_matrix.cpp'], [('in-place, n and b variants', 'core/mlpp_matrix.cpp')],
  BE, 'All shapes up to 3x2 with value patterns, all destination shapes and aliasing patterns.')

P('C06', 'Matrix products and transposition obey their definition and algebra',
  'Matrix product, matrix-vector product, Kronecker product, element-wise product, transposition, integer power, concatenation, flattening, diagonal, identity, trace-like reductions and row/column helpers equal their textbook definition for every conforming shape, including empty, single-row, single-column and non-square ones. Products distribute over addition and reverse under transposition. Operands of non-conforming shape are refused without changing any object, and operands are never modified.',
  ['inputs', 'configurations'], 'every pair of shapes up to the bound and every value pattern, in every form and aliasing pattern',
  'Tests multiply two fixed matrices; shapes and aliasing are what go wrong.',
  ['core/mlpp_matrix.cpp'], [('mult/multn/multb, transpose*, kronecker_product*, mult_vec*, flatten', 'core/mlpp_matrix.cpp')],
  BE, 'All shape pairs up to 3x3 over integer value patterns (exact in float).')

P('C07', 'Determinants, cofactors and inverses solve the linear system they stand for',
  'The determinant equals the signed sum over permutations for every square matrix. The adjoint times the matrix is the determinant times the identity, the inverse times an invertible matrix is the identity, and the pseudo-inverse is a left inverse of every matrix with independent columns; solving a linear system returns a vector that satisfies it. The in-place, returning and writing-into forms agree, and operands are never modified.',
  ['inputs'], 'every matrix of size 1 to 3 over the enumerated integer entries, and sampled patterns of size 4',
  'Tests print a few inverses and never compare them.',
  ['core/mlpp_matrix.cpp', 'core/lin_alg.cpp'], [('det, cofactor, adjoint, inverse, pinverse, solve', 'core/mlpp_matrix.cpp')],
  BE, 'Exhaustive over all 1x1, 2x2 and 3x3 matrices with entries from a small integer set (4x4: fixed patterns).')

P('C08', 'Rotation, identity and structured matrices have their defining properties',
  'Identity, zero, one, constant, diagonal and rotation matrices have exactly their defining entries; a rotation matrix is orthogonal with determinant one, rotates by the requested angle about the requested axis, and leaves that axis fixed. The predicates for symmetry and positive definiteness are true exactly for matrices with the property.',
  ['inputs'], 'every size up to the bound, a grid of angles, every axis, every small symmetric matrix',
  'Tests never check these.',
  ['core/mlpp_matrix.cpp', 'core/lin_alg.cpp'], [('identity_mat, zero_mat, create_rotation_matrix, is_symmetric, is_positive_definite', 'core/mlpp_matrix.cpp')],
  BE, 'All sizes up to 4, 64 angles, all symmetric integer matrices of size 2 and 3 in the alphabet.')

P('C09', 'Matrix decompositions multiply back to the matrix they came from',
  'For every matrix in their domain, the factors returned by Gram-Schmidt, QR, Cholesky, eigen-decomposition and singular value decomposition multiply back to the input and have their structural properties (orthonormal columns, triangular factors, non-negative diagonal, eigenvector equation). The input is not modified.',
  ['inputs'], 'every full-rank, symmetric or positive definite matrix of size 2 and 3 over the enumerated integer entries, larger ones in patterns',
  'Tests print decompositions and check nothing.',
  ['core/mlpp_matrix.cpp', 'core/lin_alg.cpp'], [('gram_schmidt_process, qrd, chol, eigen, svd', 'core/lin_alg.cpp, core/mlpp_matrix.cpp')],
  BE, 'Exhaustive over small integer matrices in the domain; residuals compared with a stated tolerance.')

P('C10', 'A rank-3 tensor is a stack of grids under every editing history',
  'After any sequence of editing calls (adding, reading, overwriting, removing and swapping slices, setting elements, rows, resizing, filling, copying, converting) a tensor holds exactly the stack of grids the calls describe, and every way of reading it (element, row, slice along each axis, flat) agrees. Operands of the wrong shape, positions out of range and missing operands are refused without changing anything. Copies are independent of their source.',
  ['histories', 'inputs'], 'every sequence of editing calls on tensors with distinct extents along the three axes',
  'The tensor has no unit test at all.',
  ['core/mlpp_tensor3.cpp', 'core/mlpp_tensor3.h'], [('z_slice_*, y_slice_*, x_slice_*, row_*, resize', 'core/mlpp_tensor3.cpp')],
  EX, 'Bounded to tensors up to 3x2x4 and the stated depth; AddressSanitizer build.',
  state=[('data,size', 'z-major stack of row-major grids', 'core/mlpp_tensor3.h')])

P('C11', 'Tensor arithmetic: each operation means the same in all its forms',
  'Every element-wise tensor operation (add, subtract, element-wise multiply and divide, scale, shift, power, square root, absolute value, maximum) yields the mathematically defined value in each element, and flattening and the tensor-vector product have their mathematical value. The in-place form, the form returning a new tensor and the form writing into another tensor agree, also under aliasing and whatever the destination held before. Operands are never modified, and operands of different shapes are refused leaving everything as it was.',
  ['inputs', 'configurations'], 'every operation, form, aliasing pattern, destination shape and value pattern',
  'The tensor has no unit test at all.',
  ['core/mlpp_tensor3.cpp'], [('in-place, n and b variants', 'core/mlpp_tensor3.cpp')],
  BE, 'Shapes up to 2x3x2 with value patterns, all destination shapes and aliasing patterns.')

P('C12', 'The linear-algebra facade agrees with the objects it operates on',
  'Each function of the linear-algebra facade returns the mathematically defined value of its name for every conforming input (sums, products, scalings, element-wise functions, norms, means of rows, constant constructors, outer and dot products, transposes, predicates). It never modifies its arguments and returns nothing for non-conforming ones.',
  ['inputs', 'configurations'], 'every facade function, every small shape and value pattern',
  'Tests print several of these and check none.',
  ['core/lin_alg.cpp'], [('the nv / nm / nt families', 'core/lin_alg.cpp')],
  BE, 'Shapes up to 3x3 and integer or small real values.')

P('C13', 'Activations compute their defining function on numbers, vectors and matrices',
  'For every activation function, evaluating it on a number gives its textbook value; evaluating it on a vector or matrix gives that value in each element (row-wise normalised for the soft-max family); and selecting it by identifier gives the same result as calling it by name. Inputs are not modified. Bounded activations stay within their bounds and soft-max outputs are non-negative and sum to one.',
  ['inputs', 'configurations'], 'every activation identifier, every shape, every value of a grid covering the branches and both tails',
  'Tests print activation values without comparing them; 29 functions in 3 shapes with 2 modes cannot be sampled by hand.',
  ['core/activation.cpp', 'core/activation.h'], [('run_activation_norm_* dispatch and the *_norm* families', 'core/activation.cpp')],
  BE, 'Every identifier x {number, vector, matrix} x a grid of arguments; compared with independent double-precision formulas.')

P('C14', 'Activation derivatives are the derivatives of the activations',
  'For every activation function with a derivative, the derivative on a number equals the slope of the function itself wherever that exists; on vectors and matrices it is the same in each element; and selecting it by identifier equals calling it by name. Inputs are not modified.',
  ['inputs', 'configurations'], 'every activation identifier, shape and grid value away from kinks',
  'Tests never compare a derivative with anything.',
  ['core/activation.cpp'], [('run_activation_deriv_* dispatch and the *_deriv* families', 'core/activation.cpp')],
  BE, 'Every identifier x {number, vector, matrix} x grid; slope computed by Richardson extrapolation of the independent double formula.')

P('C15', 'Cost functions and their derivatives measure what they are named for',
  'Every cost function returns its defining value for vectors and matrices, and its derivative is the corresponding gradient with respect to the prediction (with the 1/n factor of mean costs left to the caller; the mean squared error carries a factor 1/2, Huber loss is the squared residual inside delta and 2*delta*|r|-delta^2 outside); running a cost by identifier equals calling it by name, on vectors and matrices alike. A vector and the one-column or one-row matrix with the same contents give the same cost. Arguments are never modified, and a prediction and target with different numbers of elements are refused.',
  ['inputs', 'configurations'], 'every cost identifier, vector and matrix form, every small pair of prediction and target over a grid',
  'Tests check two cost values at most.',
  ['core/cost.cpp', 'core/cost.h'], [('run_cost_norm_*, run_cost_deriv_*', 'core/cost.cpp')],
  BE, 'All prediction/target pairs up to 2x2 over value grids that cover both branches of every piecewise cost.')

P('C16', 'Regularisation terms, their gradients and the weight update agree',
  'For every regularisation kind the penalty is its defining value, its gradient is the derivative of that penalty, and the weight update with regularisation subtracts exactly that gradient (or clips, for weight clipping), identically for vectors and matrices. Without regularisation weights and cost are unchanged. Arguments are never modified.',
  ['inputs', 'configurations'], 'every kind, parameter combination and weight vector or matrix of the grid',
  'Tests never check regularisation.',
  ['core/reg.cpp', 'core/reg.h'], [('reg_term*, reg_deriv_term*, reg_weights*', 'core/reg.cpp')],
  BE, 'All kinds x parameter grid x all small weights over the value alphabet.')

P('C17', 'Descriptive statistics equal their definitions on every sample',
  'Mean, weighted mean, median, mode, range, midrange, variance, standard deviation, absolute average deviation, covariance, correlation, determination, the power, Lehmer and geometric-type means and the Chebyshev bound equal their definitions for every sample, whatever the order of the sample and with repeated values. Samples are not modified.',
  ['inputs'], 'every sample up to the length bound over the value alphabet, every order',
  'Tests print statistics of one sample.',
  ['core/stat.cpp'], [('mean, median, mode, variance, covariance, the mean family', 'core/stat.cpp')],
  BE, 'Every sample of length 1 to 5 over the alphabet.')

P('C18', 'Convolution, pooling and image filters slide their window correctly',
  'Convolving a single-channel or multi-channel input yields, at every output position, the sum of products of the filter with the window that starts at that position times the stride, over zero padding; pooling yields the maximum, minimum or average of each window; output shapes follow the size formula. Derivative filters and Gaussian filters equal their definitions. Inputs are not modified.',
  ['inputs', 'configurations'], 'every combination of input size, filter size, stride and padding up to the bound',
  'Tests call stride 1 once.',
  ['core/convolutions.cpp'], [('convolve_2d, convolve_3d, pool_2d, pool_3d, global_pool_*, gaussian_filter_2d', 'core/convolutions.cpp')],
  BE, 'All sizes up to 5, filters up to 3, strides 1 to 3, paddings 0 to 2, with position-coded values.')

P('C19', 'Numerical analysis approximates derivatives, roots and expansions',
  'Numerical first, second and third derivatives, gradients, Jacobians, Hessians and third-order tensors of a smooth function agree with its true derivatives within the accuracy a forward difference reaches in single precision; first, second and third order expansions equal the Taylor polynomial; Newton and Halley iteration and inverse quadratic interpolation follow their update rule and reach a simple root when started near it; Euler steps follow the recurrence; clear-cut critical points are classified as minimum, maximum or saddle. Points passed in are not modified.',
  ['inputs'], 'every function of a polynomial family and every grid point',
  'Tests print results of one function.',
  ['core/numerical_analysis.cpp'], [('num_diffr, jacobian, hessian, newton_raphson_method, second_partial_derivative_test', 'core/numerical_analysis.cpp')],
  BE, 'A family of polynomials with small coefficients x a grid of points.')

P('C20', 'The discrete cosine transform equals its definition and is orthonormal',
  'The two-dimensional discrete cosine transform of every block equals the defining double sum, preserves energy and maps a constant block to its single zero-frequency term (samples are centred by subtracting 128), for square and non-square blocks.',
  ['inputs'], 'every block shape up to 4x4 and every basis block',
  'Tests print one transform.',
  ['core/transforms.cpp'], [('discrete_cosine_transform', 'core/transforms.cpp')],
  BE, 'All shapes up to 4x4; every basis block (linearity extends to all blocks) plus dense patterns.')

P('C21', 'Training utilities: metrics, mini-batches and weight initialisation',
  'Accuracy scores count exactly the matching predictions, confusion counts and the derived precision, recall, F1 and accuracy equal their definitions. Splitting into mini-batches partitions the samples in order, pairing every input row with its own output. Weight initialisation fills every weight from the requested distribution, for every shape and kind, and never leaves a weight or bias unset or systematically zero.',
  ['inputs', 'configurations'], 'every small label vector pair, every sample and batch count, every initialisation kind and random outcome of the interposed generator',
  'Tests only see the effect through training printouts.',
  ['core/utilities.cpp'], [('performance_*, tp/fp/tn/fn, create_mini_batches*, weight_initialization*', 'core/utilities.cpp')],
  BE, 'All label vectors up to length 4, all sample counts up to 9 and batch counts up to 4, all initialisation kinds.')

P('C22', 'Data sets survive loading, splitting, encoding and scaling intact',
  'Loading a delimited data file yields exactly its rows with features and targets separated, in file order, with or without a final newline. Splitting into training and test sets partitions the rows, keeping inputs paired with their targets. One-hot encoding, its inverse, scaling and mean-centring equal their definitions and do not modify their input.',
  ['inputs', 'configurations'], 'every small table, every split fraction, every column count and final-newline choice',
  'Tests load fixed files that are missing from a clean tree.',
  ['core/data.cpp'], [('set_data_*, train_test_split, feature_scaling, one_hot_rep', 'core/data.cpp')],
  BE, 'All tables up to 5 rows and 3 columns; every fraction of a grid; random shuffles checked for every seed of a set.')

P('C23', 'Text processing counts and segments words consistently',
  'Lower-casing, splitting into words and characters, removing spaces, empty and stop words, bag-of-words counts, word vocabularies and term-frequency weights agree with a straightforward reading of the text for every text. Arguments are not modified.',
  ['inputs'], 'every text up to a length bound over an alphabet of letters, blanks and punctuation',
  'Tests print results for one sentence.',
  ['core/data.cpp'], [('split_words, segment, remove_stop_words, bag_of_words, tfidf', 'core/data.cpp')],
  BE, 'Every string up to length 6 over a 4-letter alphabet.')

P('C24', 'Nearest-neighbour classification votes by the true nearest neighbours',
  'For every training set and query, the predicted class is one with the most votes among the k training points closest to the query, each counted once. Batch prediction agrees with single prediction and the score is the fraction of training points predicted correctly.',
  ['inputs'], 'every small labelled training set on a grid, every query and every k',
  'Tests print one prediction.',
  ['modules/knn/knn.cpp'], [('nearest_neighbors, determine_class', 'modules/knn/knn.cpp')],
  BE, 'All training sets of up to 4 points on a small grid, all labels, queries and k; distance ties accept any tied choice.')

P('C25', 'Clustering assigns each point to its nearest centroid and moves it to the mean',
  'After training, each sample belongs to exactly one cluster, centroids are the means of the points assigned to them in the last step, and prediction returns the centroid nearest to the query. Each training step never increases the total squared distance, and the silhouette score equals its definition.',
  ['inputs', 'schedules'], 'every small data set, every cluster count and every random initialisation',
  'Tests print one run on fixed data.',
  ['modules/kmeans/kmeans.cpp'], [('_evaluate, _compute_mu, _centroid_initialization, silhouette_scores', 'modules/kmeans/kmeans.cpp')],
  BE, 'Data sets of up to 5 points on a grid, k up to 3, all seeds of a set covering every initial centroid choice.')

P('C26', 'Outlier detection flags exactly the points beyond the threshold',
  'A data point is reported as an outlier exactly when its absolute standard score within its own row or sample exceeds the threshold, and positions are reported in order. Inputs are not modified.',
  ['inputs'], 'every small sample and matrix over a value alphabet and every threshold',
  'Tests print one result.',
  ['modules/outlier_finder/outlier_finder.cpp'], [('model_test, model_set_test', 'modules/outlier_finder/outlier_finder.cpp')],
  BE, 'All samples of length up to 6 over the alphabet and a threshold grid.')

P('C27', 'Naive Bayes classifiers choose the class of highest posterior',
  'For every training set, the Gaussian, Bernoulli and multinomial classifiers predict a class whose posterior, computed from class frequencies and per-class feature distributions of the training data, is maximal; the score is the fraction of training rows so predicted.',
  ['inputs'], 'every small labelled data set and query',
  'Tests print one accuracy.',
  ['modules/gaussian_nb/gaussian_nb.cpp', 'modules/bernoulli_nb/bernoulli_nb.cpp', 'modules/multinomial_nb/multinomial_nb.cpp'], [('evaluate, model_set_test', 'modules/*_nb')],
  BE, 'All labelled data sets up to 4 rows over a small alphabet.')

P('C28', 'Principal component analysis projects onto the top principal directions',
  'The projected data set equals the data multiplied by the top directions of its covariance, those directions are orthonormal and capture the maximal variance, and the score is the fraction of variance retained.',
  ['inputs'], 'every small data set', 'Tests print one projection.',
  ['modules/pca/pca.cpp'], [('principal_components, score', 'modules/pca/pca.cpp')],
  BE, 'Small data sets over a value alphabet.')

P('C29', 'Simple linear regression fits the least-squares line',
  'For every data set with at least two distinct inputs, simple linear regression predicts the least-squares line, for single inputs and for whole vectors.',
  ['inputs'], 'every small data set', 'Tests print one fit.',
  ['modules/uni_lin_reg/uni_lin_reg.cpp', 'core/stat.cpp'], [('constructor, model_test', 'modules/uni_lin_reg/uni_lin_reg.cpp'), ('b0_estimation, b1_estimation', 'core/stat.cpp')],
  BE, 'All data sets of 2 to 4 points over a value alphabet.')

P('C30', 'Linear regression training follows its update rule, epoch by epoch',
  'From the same starting weights and random choices, training a linear regression for any number of epochs by any of its optimisers leaves exactly the weights its documented update rule prescribes, for every regularisation kind and data set; prediction equals the resulting linear function, for single rows and whole sets; the closed-form solution satisfies the normal equations. Training data are not modified.',
  ['inputs', 'histories', 'schedules'], 'every small data set, optimiser, regularisation, epoch count and random sample order',
  'Tests only print a score after training.',
  ['modules/lin_reg/lin_reg.cpp'], [('train_* and normal_equation', 'modules/lin_reg/lin_reg.cpp')],
  EX + ' (every epoch count and every sample order)', 'Small data sets, up to 3 epochs; sample orders enumerated through the interposed random source.')

P('C31', 'Logistic regression training follows its update rule, epoch by epoch',
  'From the same starting weights and random choices, training a logistic regression for any number of epochs by gradient descent, maximum likelihood, stochastic or mini-batch descent leaves exactly the weights its update rule prescribes, for every regularisation kind and data set; prediction is the logistic function of the resulting linear score, for single rows and whole sets. Training data are not modified.',
  ['inputs', 'histories', 'schedules'], 'every small data set, optimiser, regularisation, epoch count and random sample order',
  'Tests only print a score after training.',
  ['modules/log_reg/log_reg.cpp'], [('train_*, evaluate*', 'modules/log_reg/log_reg.cpp')],
  EX + ' (every epoch count and every sample order)', 'Small data sets, up to 3 epochs; sample orders enumerated through the interposed random source.')

P('C32', 'Probit, complementary log-log, tanh and exponential regressions train by rule',
  'From the same starting weights and random choices, training any of these regressions for any number of epochs by any of its optimisers moves the weights by its documented gradient step, for every regularisation kind and data set; prediction is the link function of the resulting linear score, for single rows and whole sets. Training data are not modified.',
  ['inputs', 'histories', 'schedules'], 'every model, small data set, optimiser, regularisation, epoch count and random sample order',
  'Tests only print a score after training.',
  ['modules/probit_reg/probit_reg.cpp', 'modules/c_log_log_reg/c_log_log_reg.cpp', 'modules/tanh_reg/tanh_reg.cpp', 'modules/exp_reg/exp_reg.cpp'], [('train_*, evaluate*', 'the four modules')],
  EX + ' (every epoch count and every sample order)', 'Small data sets, up to 3 epochs.')

P('C33', 'Soft-max regression outputs distributions and trains by its update rule',
  'Soft-max regression predicts, for every input, a probability distribution equal to the soft-max of its linear scores; from the same starting weights and random choices its optimisers leave exactly the weights the cross-entropy update rule prescribes after any number of epochs. Training data are not modified.',
  ['inputs', 'histories', 'schedules'], 'every small data set, optimiser, regularisation, epoch count and random sample order',
  'Tests only print a score after training.',
  ['modules/softmax_reg/softmax_reg.cpp'], [('train_*, evaluate*', 'modules/softmax_reg/softmax_reg.cpp')],
  EX + ' (every epoch count and every sample order)', 'Small data sets, up to 3 epochs.')

P('C34', 'Support vector classifiers classify by sign and train by the hinge step',
  'The support vector classifier predicts the sign of its linear score, for single rows and whole sets, and each of its optimisers moves weights and bias by the hinge-loss gradient step for any number of epochs. The dual classifier predicts from its kernel expansion and keeps its multipliers within their box. Training data are not modified.',
  ['inputs', 'histories', 'schedules'], 'every small data set, optimiser, epoch count and random sample order',
  'Tests only print a score after training.',
  ['modules/svc/svc.cpp', 'modules/dual_svc/dual_svc.cpp'], [('train_*, evaluate*, alpha_projection', 'modules/svc, modules/dual_svc')],
  EX + ' (every epoch count and every sample order)', 'Small data sets, up to 3 epochs.')

P('C35', 'Layers compute activation(input x weights + bias) and keep what they are given',
  'A hidden, output or multi-output layer holding given weights, bias and input computes exactly the activation of the affine map, for batches and single rows, for every activation; setting an input, weight, bias or bookkeeping value never alters any other stored value, and repeated passes give the same result.',
  ['inputs', 'histories', 'configurations'], 'every layer kind, activation, shape and order of setter and pass calls',
  'Tests never inspect a layer.',
  ['modules/hidden_layer/hidden_layer.cpp', 'modules/output_layer/output_layer.cpp', 'modules/multi_output_layer/multi_output_layer.cpp'], [('forward_pass, test, setters, initialize', 'the three modules')],
  EX + ' (every setter/pass sequence)', 'All setter/pass sequences to the stated depth on small shapes.')

P('C36', 'Neural networks predict by composing their layers and descend their cost',
  'For the multilayer perceptron, soft-max network and auto-encoder, prediction equals the composition of the two affine layers with their activations for whole sets and single rows; every training step by full, stochastic or mini-batch descent moves weights and biases by the back-propagated gradient of the cost. Training data are not modified.',
  ['inputs', 'histories', 'schedules'], 'every small network, data set, optimiser, epoch count and random sample order',
  'Tests only print a score after training.',
  ['modules/mlp/mlp.cpp', 'modules/softmax_net/softmax_net.cpp', 'modules/auto_encoder/auto_encoder.cpp'], [('evaluate*, gradient_descent, sgd, mbgd', 'the three modules')],
  EX + ' (every epoch count and every sample order)', 'Small networks and data sets, up to 2 epochs.')

P('C37', 'Layered networks predict layer by layer and train without losing their weights',
  'A network built from layers predicts the composition of its layers for whole sets and single rows alike; a gradient-descent step moves every layer by the back-propagated gradient, and training for n epochs equals n successive training calls of one epoch.',
  ['inputs', 'histories', 'configurations'], 'every small architecture, activation, cost and epoch count',
  'Tests only print a score after training.',
  ['modules/ann/ann.cpp', 'modules/mann/mann.cpp'], [('model_set_test, model_test, gradient_descent, compute_gradients, update_parameters', 'modules/ann/ann.cpp, modules/mann/mann.cpp')],
  EX, 'Small architectures, up to 2 epochs.')

P('C38', 'Copy-on-write sequences behave as independent values',
  'Copies of the bundled vector, string and pool array share nothing observable: after any interleaving of copies and edits each holds exactly what its own edits say, equal to a plain list. References held to shared storage are released exactly once.',
  ['histories'], 'every sequence of copy, edit, insert, remove and read operations on three handles',
  'The bundled library has no tests here.',
  ['platform/sfw.h', 'platform/sfw.cpp'], [('CowData, Vector, PoolVector, String', 'platform/sfw.h')],
  EX, 'All operation sequences to the stated depth over three handles; AddressSanitizer build.')

P('C39', 'Associative containers behave as maps and sets',
  'The bundled hash map, ordered hash map, hash set, red-black map and set and sorted vector map/set hold, after any history of insertions, updates, lookups, removals, copies and clears, exactly the entries a plain map or set would hold, iterate over each exactly once (in key order for sorted ones and insertion order for ordered ones), and answer lookups accordingly.',
  ['histories'], 'every operation history over a small key set, including colliding keys and growth',
  'The bundled library has no tests here.',
  ['platform/sfw.h'], [('HashMap, HashSet, OrderedHashMap, OGHashMap, RBMap, RBSet, VMap, VSet', 'platform/sfw.h')],
  EX, 'All operation sequences to the stated depth, merged by full state; colliding hash functions included.')

P('C40', 'Linked lists, ring buffers and sorting keep every element in order',
  'The bundled linked list holds after any editing history exactly what a plain list would; the ring buffer delivers what was written in order and never more than its space; sorting yields an ordered permutation of its input for every input.',
  ['histories', 'inputs'], 'every editing history and every small permutation with repetitions',
  'The bundled library has no tests here.',
  ['platform/sfw.h'], [('List, RingBuffer, SortArray', 'platform/sfw.h')],
  EX, 'Histories to the stated depth; all arrays up to length 7 over 4 values and structured arrays above the introsort threshold.')

P('C41', 'Reference counting frees an object exactly once, under every interleaving',
  'An object held by counted references lives exactly as long as some reference to it exists, whatever the order in which references are copied, reassigned and dropped, from one thread or several, and even when the references are held by other such objects; the same holds for the copy-on-write buffers of vectors, strings and pool arrays, for interned names, for the slots of the thread-safe page allocator and for the table of objects, and one thread never sees the writes of another thread to its own copy.',
  ['histories', 'schedules'], 'every operation history on three handles and every interleaving of two or three threads',
  'The test driver is single threaded.',
  ['platform/sfw.h', 'platform/sfw.cpp'], [('Ref, Reference, SafeRefCount', 'platform/sfw.h, platform/sfw.cpp')],
  'stateless exploration of thread interleavings of the real code plus ' + EX, 'All interleavings of the atomic operations within the preemption bound.')

P('C42', 'Files read back what was written',
  'Whatever sequence of writes, seeks, closes and reopenings is performed on a file, reading returns the bytes last written at each position, lengths and end-of-file are reported accordingly, and typed values, lines and delimited records round-trip. A backed-up save replaces the old contents only once the new ones are complete, at whatever point the process dies or the disk fills up, and a write that failed is reported.',
  ['histories', 'fault_sequences'], 'every operation history on one file to the depth bound',
  'The tests only read fixed data files.',
  ['platform/sfw.cpp'], [('FileAccess', 'platform/sfw.cpp')],
  EX, 'All operation sequences to the stated depth in a scratch directory.')

P('C43', 'Strings convert, search and split consistently with their text',
  'Searching, replacing, slicing, splitting, trimming, case conversion, classification of characters, comparison and number conversion of the bundled string agree with a straightforward reading of the text for every text.',
  ['inputs'], 'every string up to a length bound over a small alphabet and every pattern',
  'The bundled library has no tests here.',
  ['platform/sfw.cpp', 'platform/sfw.h'], [('String', 'platform/sfw.cpp')],
  BE, 'All strings up to length 5 over a 3-letter alphabet with every argument in range and just outside it.')

P('C44', 'Images and numeric objects convert into each other without loss',
  'Writing a matrix or a tensor slice into an image and reading it back, in every supported channel, returns the same numbers up to 8-bit quantisation, with rows and columns in place, for every shape.',
  ['inputs', 'configurations'], 'every small shape, channel and value pattern',
  'There is no test for images.',
  ['core/mlpp_matrix.cpp', 'core/mlpp_tensor3.cpp', 'platform/image.cpp'], [('set_from_image, get_as_image, z_slice_get_image', 'core/mlpp_matrix.cpp, core/mlpp_tensor3.cpp')],
  BE, 'All shapes up to 4x3 with position-coded values.')

P('C45', 'Every optimiser and learning-rate schedule of the layered network follows its published update rule',
  'Stochastic and mini-batch gradient descent, momentum, Nesterov momentum, Adagrad, Adadelta, Adam, AdaMax, Nadam and AMSGrad, under a constant, time, epoch, step or exponential learning-rate schedule, move the parameters of the layered network exactly as their update rule says for every batch size, number of epochs and sample order; a training call depends on earlier calls only through the parameters they left, and stochastic descent can draw every row.',
  ['histories', 'inputs', 'configurations'], 'every optimiser, schedule, batch size, epoch count, architecture and sample order up to the bound',
  'The tests only run each optimiser once and look at nothing.',
  ['modules/ann/ann.cpp'], [('MLPPANN', 'modules/ann/ann.cpp')],
  EX, 'Networks of up to 3 hidden layers, up to 5 rows, up to 6 epochs, all batch sizes, every ordered pair of optimisers.')

P('C46', 'Image operations move, convert and store exactly the pixels they should',
  'For every image format, size, rectangle and offset (also negative, partly outside or empty ones), reading and writing pixels, converting, cropping, flipping, copying rectangles, filling, blitting and blending with and without masks, resizing, mipmaps and transparency operations change exactly the pixels their definition names, to the values it defines, leave the source images alone and the image unlocked and consistent; images saved as PNG, BMP or TGA load back with the same pixels; truncated or damaged files never corrupt memory or leave an inconsistent image.',
  ['inputs', 'histories', 'faults'], 'every format, small size, rectangle, offset and blend position up to the bound; every truncation and single-byte damage of a file; every operation sequence up to the depth',
  'There is no test for images.',
  ['platform/image.cpp', 'platform/image.h'], [('Image', 'platform/image.cpp')],
  BE, 'All 12 uncompressed formats up to 3x3 (thorough: 4x4), all rectangles and offsets around them, histories of up to 3 (thorough: 4) operations.')

P('C47', 'Texts survive encoding, escaping and number conversion',
  'For every text up to the bound: encoding to UTF-8 and UTF-16 and decoding returns the text; escaping (C, XML, percent/URI, JSON-like) and unescaping returns the text and the escaped form contains no character it has to protect; integers, hexadecimal, binary and real numbers written as text read back as the same number, malformed numerals are told apart from well-formed ones by the validity tests, and values outside the representable range saturate; equal texts have equal hashes and are interned as the same name whatever way they were built; wrapping text keeps its words.',
  ['inputs'], 'every text up to a length bound over alphabets covering every encoding length, sign, digit and escape class',
  'The bundled library has no tests here; a test samples a few texts.',
  ['platform/sfw.cpp', 'platform/sfw.h'], [('String', 'platform/sfw.cpp'), ('StringName', 'platform/sfw.cpp')],
  BE, 'All texts up to length 4-6 over the alphabet of each conversion; boundary integers and reals of every magnitude.')

P('C48', 'Paths split, join, simplify and relate to each other consistently',
  'For every path, relative, rooted, with a drive or a resource prefix, and with either separator: file name, extension, base name and directory part are the pieces their names say and join back to the path; joining never loses or doubles a component; simplification removes exactly the empty, "." and resolvable ".." components, never changes what a path refers to and is idempotent; the relative path from one directory to another, followed from the first, leads to the second.',
  ['inputs'], 'every text up to a length over letters, dots, separators and colons, alone and in pairs',
  'The bundled library has no tests here.',
  ['platform/sfw.cpp'], [('String', 'platform/sfw.cpp')],
  BE, 'All paths up to length 5-9 (thorough: 7-11) with every prefix; all pairs up to length 4 (thorough: 5).')

P('C49', 'Directory operations change exactly what they name and never lose data silently',
  'For every sequence of directory operations on a tree of directories, files and links: making, renaming, removing, linking, copying and erasing change exactly the entries they name (relative names meaning the current directory of the object, not of the process), do not follow links out of a tree that is erased, report success exactly when they did what they were asked, and leave the current directory as it was even when a step in the middle fails or the disk fills up; listings and queries report what is there; nothing stays open or allocated once the directory object is gone.',
  ['histories', 'fault_sequences'], 'every operation sequence to a depth on every starting tree, every failing system call of each operation, every amount of disk space around the sizes written',
  'The bundled library has no tests here; the danger is in links, failures in the middle and paths that mean another directory.',
  ['platform/sfw.cpp', 'platform/sfw.h'], [('DirAccess', 'platform/sfw.cpp')],
  EX, 'About 90 operations on 4 starting trees, depth 2 (thorough: 3; quick: depth 1 on two of the trees), every single failing system call.')
P('C50', 'Arrays and dictionaries are shared, ordered containers under every history',
  'After any history of edits through handles that share, nest in or copy each other, every array and dictionary handle shows exactly what was stored: assignment shares, duplicate copies (deep: everything below it), slices are copies; dictionaries keep insertion order and find arrays by content; sorting (also by an order given by an object), searching, comparing, merging and removing agree with the plain list operations, comparisons are lexicographic orders, and formatting of values agrees with C formatting of the same specification.',
  ['histories', 'inputs'], 'every operation history on two array and two dictionary handles up to a depth, every small array with every slice, search and comparison, every format specification of a grid',
  'The bundled library has no tests here; sharing mistakes only appear in histories with several handles.',
  ['platform/sfw.cpp', 'platform/sfw.h'], [('Array, Dictionary', 'platform/sfw.cpp'), ('Variant evaluation, sprintf', 'platform/sfw.cpp')],
  EX, 'About 90 operations, depth 2 in full and breadth-first by distinct state to depth 5 (cap 2 500 states; thorough 3 and 6, 12 000 states); arrays up to 5 elements of 3 values.')
P('C51', 'Dynamic values obey their own equality, order, hash and arithmetic',
  'For every pair of dynamic values of every type: copies and assignments are indistinguishable from the original; equality is symmetric and exact, equal keys hash equally, < is a strict order that > mirrors; every operator gives what the same arithmetic on the components gives, or is refused (also division by zero), for every combination of types and without depending on where the result is stored; members, indices and iteration read and write exactly the component they name; conversions keep what the target can hold.',
  ['inputs'], 'every pair of a universe of values of every type under every operator; every member name and index of every type; every conversion and every range iteration',
  'The bundled library has no tests here; the table has over 30 000 combinations of types and operators.',
  ['platform/sfw.cpp', 'platform/sfw.h'], [('Variant', 'platform/sfw.cpp')],
  EX, 'About 230 values of 36 types, all pairs under all 25 operators.')
P('C52', 'Objects live exactly as long as they are owned, and signals reach exactly those connected',
  'After any history of creating, sharing, casting, storing in dynamic values and containers, and releasing: a reference-counted object is destroyed exactly when its last owner lets go, never earlier, never twice, also when the owner is part of what is released; its count equals the number of owners; a dynamic value pointing to a deleted plain object says so and never yields another object; identifiers are unique and look up exactly the live objects; casts, class names, notifications and properties follow the class hierarchy; metadata is a map; emitting a signal calls every handler connected throughout exactly once in order of connection with that emission\'s emitter and arguments, also when handlers disconnect, connect or emit; and all memory is returned.',
  ['histories'], 'every history of operations on a small object graph, on plain objects and dynamic values, on metadata and on a signal with re-entrant handlers',
  'The tests only create objects and drop them; ownership mistakes need a certain history, and leaks show in no test at all.',
  ['platform/sfw.cpp', 'platform/sfw.h'], [('Ref, Reference, Object, ObjectDB, RefPtr, Signal, Resource', 'platform/sfw.h'), ('Object, Signal', 'platform/sfw.cpp')],
  EX, 'About 40 operations on 6 slots and up to 4 nodes breadth-first to depth 6 (cap 2 200 states; thorough 7, 12 000); plain objects depth 7; signals with 9 handlers, depth 3 in full and 5 by state.')

P('C53', 'Vectors, rectangles, boxes and planes compute their geometry exactly',
  'For every vector of two, three or four components (real or integer), rectangle, box and plane: arithmetic, products, lengths, angles, projections, reflections, rounding and interpolation give what the definition gives in exact arithmetic up to rounding; rectangles and boxes contain, intersect, enclose, clip, merge, expand and grow exactly as the sets of points they stand for; a plane separates the points on its sides, and segments, rays and planes meet where the equations say, or are refused.',
  ['inputs'], 'every pair of vectors, rectangles and boxes of a grid, every plane of the grid against every point, segment and plane',
  'Only a handful of values appear in the tests; degenerate, touching and negative cases in none.',
  ['platform/sfw.cpp', 'platform/sfw.h'], [('Vector2/3/4, Rect2, AABB, Plane', 'platform/sfw.cpp, platform/sfw.h')],
  EX, 'Grids of up to 7 values per component, all pairs; all boxes and rectangles of a small integer lattice in pairs.')
P('C54', 'Rotations and affine transforms in space compose, invert and decompose correctly',
  'For every rotation given by axis and angle, Euler angles in every order or a quaternion, and every basis and transform built from them with scales, reflections and offsets: the representations agree with the matrix they stand for and convert into each other; composition applies the right operand first; an inverse undoes; decomposition into rotation and scale rebuilds the basis; orthogonalisation yields a rotation keeping the handedness; interpolation starts and ends at its ends and turns evenly; points, boxes and planes are mapped as by the matrix.',
  ['inputs'], 'every axis, angle, Euler triple and order, scale and offset of a grid, alone and in pairs',
  'No test touches them; errors hide in reflections, half turns and gimbal positions.',
  ['platform/sfw.cpp', 'platform/sfw.h'], [('Basis, Quaternion, Transform', 'platform/sfw.cpp')],
  EX, 'All rotations of a grid of axes and angles (24 lattice rotations included) with scales and reflections, in pairs.')
P('C55', 'Planar transforms, projections and triangles follow their definitions',
  'For every planar transform, projection and triangle of the grid: composition, inverse, decomposition and interpolation of planar transforms agree with their matrices; orthogonal, perspective and frustum projections map their near and far planes and corners to the unit cube, give back the parameters they were built from, and invert; a triangle is split by a plane into parts that cover it, lie on the right sides and keep its area; segments and rays hit it exactly where they meet it; its overlap with boxes and its projection range agree with its points.',
  ['inputs'], 'every parameter combination of the grid, every plane against every triangle, every segment between lattice points',
  'No test touches them.',
  ['platform/sfw.cpp', 'platform/sfw.h'], [('Transform2D, Projection, Face3', 'platform/sfw.cpp')],
  EX, 'Grids of angles, scales, shears and offsets; projections over a grid of sizes and planes; triangles and segments of a small lattice.')
P('C56', 'Colours, scalar arithmetic and random numbers keep their ranges and conversions',
  'For every colour of the grid: packing into 32 and 64 bits clamps every channel and reading back gives the same colour to a level; hue, saturation and value, HTML notations convert both ways and are recognised exactly when they can be read; mixing, inverting, contrast and over-blending follow their formulas. For every scalar: rounding, wrapping, modulus, stepping, angles, interpolation and easing give their definition; power-of-two helpers are exact for all widths; every half float reads as its exact value and normal ones round-trip. The random generator repeats its sequence for a seed, and its ranges stay within bounds and reach them.',
  ['inputs'], 'every colour of a grid, every text of a small length as colour notation, every pair of scalars of a grid in both precisions, all 65 536 half floats',
  'No test touches them.',
  ['platform/sfw.cpp', 'platform/sfw.h'], [('Color, Math, RandomPCG', 'platform/sfw.cpp, platform/sfw.h')],
  EX, 'All grid colours in pairs, all scalar pairs of about 30 values, all half floats, spread of seeds.')
P('C57', 'Allocators hand out disjoint, lasting memory and give all of it back',
  'After any history of allocating, reallocating, growing, shrinking, locking and releasing: the blocks of the pool allocator never overlap each other or leave the pool, keep their contents through moves and resizing, stay in place while locked, and a request succeeds exactly when there is room for it (without locks: whenever the sum fits); stale or wrong identifiers are refused; the free, used and peak figures are those of the blocks held; the paged allocator gives distinct, aligned slots, constructs and destroys each once and reuses freed ones; plain memory keeps its contents when reallocated, and its usage and peak figures are exact; arrays of objects construct and destroy every element once; nothing stays allocated.',
  ['histories'], 'every history of operations on small pools by real layout, on paged allocators and on plain memory',
  'The tests never fill, fragment or compact a pool.',
  ['platform/sfw.cpp', 'platform/sfw.h'], [('PoolAllocator, PagedAllocator, Memory', 'platform/sfw.cpp, platform/sfw.h')],
  EX, 'Pools of a few entries and some dozens of bytes (aligned and not) breadth-first over the layout; paged and plain histories to a fixed depth.')
P('C58', 'Text built piece by piece and logged lines are exactly what was put in',
  'For any sequence of appended texts, characters and numbers, of any lengths around the inner capacities and with reservations and intermediate readings, the string buffer and the string builder return exactly the concatenation, with its length, and can be used further afterwards; every logged message comes out exactly once, as a line that starts with its level and contains its place and its text completely, also for texts longer than any inner buffer, and logging keeps no memory.',
  ['histories'], 'every sequence of appends, reservations and readings; every logging entry point over text lengths around the inner buffer sizes',
  'The tests log short texts only; capacity errors show at certain lengths.',
  ['platform/sfw.cpp', 'platform/sfw.h'], [('StringBuffer, StringBuilder, RLogger', 'platform/sfw.cpp, platform/sfw.h')],
  EX, 'Sequences to depth 4 or 5 over about a dozen pieces; every log function and macro.')
P('C59', 'Child processes, network addresses and sockets report what happened',
  'For every argument text (quotes, blanks, wildcards, substitutions), way of running (blocking, with output read, polled, detached), kind of ending and failing or interrupted system call: a child process gets exactly the given arguments; its whole output arrives, once and in order; its exit code is reported; after any history of starting, polling, asking, waiting and stopping the object knows whether a child runs, never signals another process, and leaves no process, descriptor or memory behind. For every address of a grid, IPv4 and IPv6: the text is parsed and printed, classified as loopback or private, copied and compared correctly, and invalid text is refused. For every history of sending, receiving, closing and resetting on a connected pair of sockets over the loopback network, each end receives exactly the bytes sent by the other, in order, then the end of the stream.',
  ['inputs', 'histories', 'faults'], 'every argument and output of a set in every way of running, every history of operations on a process, every failing system call; every address of a grid; every history on a connected pair of sockets',
  'The tests start no process and open no socket.',
  ['platform/sfw.cpp', 'platform/sfw.h'], [('SubProcess, InetAddress, Socket', 'platform/sfw.cpp, platform/sfw.h')],
  EX, 'About 60 argument texts, 40 output sizes around the buffer sizes, process histories to depth 5, 20 000 addresses, socket histories to depth 4.')
P('C60', 'Threads run their work once and locks exclude each other under every schedule',
  'For every program of starting, waiting for, asking about, restarting and dropping threads, and every schedule: each started callback runs exactly once with its argument, priority and platform functions; its effects are visible after waiting; a thread knows the same identifier that its Thread object tells, different from every other live thread, and only the main thread is the main one; a thread does not wait for itself; nothing is used after it is destroyed and no memory is lost. For every program over mutexes (recursive and plain), readers-writer locks, spin locks, the global lock and their scoped forms: two holders never overlap except readers with readers, what one holder wrote the next one sees, attempts succeed exactly when the lock is free for them, recursive locks are free only after as many releases, and no schedule blocks for good.',
  ['schedules', 'histories'], 'every interleaving of every short program on two Thread objects, and of two and three threads on every kind of lock',
  'The tests use no thread; a wrong order shows only under certain schedules.',
  ['platform/sfw.cpp', 'platform/sfw.h'], [('Thread, Mutex, BinaryMutex, MutexLock, RWLock, SpinLock', 'platform/sfw.h, platform/sfw.cpp')],
  'stateless exploration of every interleaving of the real code under a controlled scheduler, with a happens-before race monitor', 'Main programs of up to 4 operations with at most three further threads; lock programs of two threads (up to 2 operations each, spin lock 3) and three threads (1 each); preemption bound 1 and 2 where 4 000 schedules (thorough 20 000) do not suffice.')
P('C61', 'Values keep their bytes and equal keys always meet in hash tables',
  'Every 16, 32 and 64 bit integer, float and double (NaN payloads, infinities and both zeros included) is written as exactly its little-endian bytes, touching no other byte, and is read back bit for bit from any place; C texts are written with their end mark and their length is told; byte swaps reverse. The hash functions (djb2, Murmur3, the 64 to 32 bit integer hash, their seeded and one-value forms) give their published values for every length. For every pair of keys of every key type: the comparison holds exactly when the keys are equal (NaN equal to NaN for reals, two and three dimensional vectors; the two zeros equal), equal keys hash equal, and a map or set finds an entry exactly by the keys equal to its own and keeps one entry for them. The table sizes are increasing primes and the fast remainder is the remainder for every hash value.',
  ['inputs'], 'every value of boundary grids at every alignment, every length and byte pattern, every pair of keys of every key type, every table size',
  'No test writes bytes or compares hashes; a key whose equal form hashes differently is lost only when that very key is used.',
  ['platform/sfw.h'], [('encode/decode functions, hash functions, HashMapHasherDefault, HashMapComparatorDefault, fastmod', 'platform/sfw.h')],
  EX, 'All 16-bit values, boundary grids of 32 and 64 bits at up to 8 alignments; hashes of up to 39 bytes, 256 patterns (thorough 1 280), 4 seeds; about 1 000 keys of 15 types in pairs; 130 000 hash values per table size.')

P('C62', 'Models are repeatable, isolated from each other and leave nothing behind',
  'For every model class (the linear, logistic, probit, complementary log-log, exponential, tanh and soft-max regressions, both support vector classifiers, simple linear regression, nearest neighbours, clustering, principal components, outlier detection, the three naive Bayes classifiers, the multilayer perceptron, the soft-max network, the auto-encoder, both layered networks and the three layer classes) and every short history of training, prediction, scoring and re-initialising calls: with the same random numbers the same history gives the same results bit for bit; predicting, scoring and asking for progress output never change what the model does afterwards; a returned result is an object of its own, so writing into it does not reach the model; two models alive at once, of the same or of different classes, with data of their own or sharing the objects they were given, behave under every interleaving of their calls as each does alone; the data handed in keeps its values bit for bit; repeating calls does not grow the model; and once it is released all of its memory is given back and nothing refers to the data any more.',
  ['inputs','sequences'], 'every call history up to a depth of every model class; every interleaving of the calls of every pair of models and both release orders',
  'A test trains one model once, looks at one number and exits: hidden state shared between models, a prediction that disturbs training, and memory that is never returned all pass it.',
  ['modules/lin_reg/lin_reg.cpp', 'modules/kmeans/kmeans.cpp', 'modules/ann/ann.cpp', 'modules/mlp/mlp.cpp'], [('training, prediction and scoring methods of all model classes in modules/', 'modules/ann/ann.cpp')],
  EX, '26 model classes, 3 to 26 calls each; histories of up to 3 calls (2 for the two classes with more than 20 calls; thorough one more); pairs with 2 + 2 calls, 6 interleavings, 2 release orders.')

P('C63', 'Library functions are pure: operands survive, aliasing is harmless, results are fresh',
  'For every function of the numeric facades (linear algebra, activations, costs, regularisation, statistics, transforms, convolutions, numerical analysis, data) and every method of the vector, matrix and tensor objects, for every choice of arguments from a pool, the same object in several places included: operands keep their shape and every bit of their contents (an in-place method changes its receiver only, a function with an output argument that argument only); the result is the same, and the receiver ends the same, as when every argument is a separate copy; a returned object is not one of the operands, and writing into it changes neither them nor the result of the next call; the same call gives the same bits each time; no reference to an operand is kept and everything allocated is given back.',
  ['inputs'], 'every function of the library on every choice and aliasing of arguments from a pool, at several sizes',
  'Tests pass distinct objects, look at the returned value and never at the operands afterwards; a function that writes into its operand, returns it, or resizes the receiver before reading an alias of it passes them.',
  ['core/lin_alg.cpp', 'core/mlpp_vector.cpp', 'core/mlpp_matrix.cpp', 'core/mlpp_tensor3.cpp', 'core/activation.cpp'], [('MLPPLinAlg, MLPPActivation, MLPPCost, MLPPReg, MLPPStat, MLPPTransforms, MLPPConvolutions, MLPPNumericalAnalysis, MLPPData, MLPPVector, MLPPMatrix, MLPPTensor3', 'core/lin_alg.cpp')],
  EX, '757 functions; two objects of each kind; sizes 2 and 3 (thorough 4); 2 values per number, 5 per enumeration.')
P('C64', 'Adversarial networks train their two halves against each other',
  'For every GAN and Wasserstein GAN of up to five hidden layers, every real data set and every history of training calls from given parameters: each epoch first trains the discriminator (the layers behind the middle one, and the output) to tell the generated rows from the real rows, targets 0 and 1 (five rounds with targets -1 and 1 for the Wasserstein kind), then trains the generator (the layers up to the middle one) through the discriminator towards being taken for real; each step is one gradient step of the loss plus the penalty, scaled by the rate over the number of real rows, and leaves the other half of the network exactly as it was. Every step draws fresh standard normal noise. generate_example(n) gives n rows, the generator applied to noise, in the shape of the real rows, and they stay as they are whatever is called later; score() is the share of generated rows taken for real; the real rows are never changed; progress output changes nothing. Layers of a WGAN are created, added, looked up and removed in order.',
  ['inputs', 'histories'], 'every small network (layer sizes, activations, penalties), every short training history, every short sequence of layer edits',
  'The suite only prints what one WGAN makes after training, from random noise, and trains no GAN; a step that trains the wrong half, with the wrong targets or with a stale gradient still ends with plausible numbers.',
  ['modules/gan/gan.cpp', 'modules/wgan/wgan.cpp'], [('MLPPGAN::gradient_descent', 'modules/gan/gan.cpp'), ('MLPPWGAN::gradient_descent', 'modules/wgan/wgan.cpp')],
  EX, '1..5 hidden layers of 1 or 2 units; 4 activations (2 for the deepest); 4 penalties; 1 or 3 real rows; 1 or 2 noise inputs; 1..4 epochs in up to two calls; layer edits up to 4 deep (thorough 6).')
P('C65', 'Clocks move forward, sleeps last as long as asked and randomised generators differ',
  'For every history of waiting, sleeping and looking at the clocks, from any starting point of the system clock: the running time of a thread never goes back, moves by exactly the time that passed, and reads the same in nanoseconds, microseconds, milliseconds (rounded down), seconds, minutes and hours; date_epoch is the number of seconds of the system date. A sleep of any length, in any unit, lasts as long as asked and not noticeably longer, also when signals interrupt it, and one of no or negative length returns at once. Randomising a generator (or the global one) at a different second of a program start, or at a different moment of the same run, gives different numbers, which the seed it reports reproduces.',
  ['histories', 'inputs'], 'every short history of waits, sleeps and looks on a simulated clock, from several starting points, with and without signals; every pair of program starts from a grid',
  'Tests run on the real clock: they cannot make it jump by decades, stop it, deliver a signal at each point of a sleep, or compare two starts of a program at chosen dates.',
  ['platform/sfw.cpp'], [('SFWTime', 'platform/sfw.cpp'), ('RandomPCG::randomize', 'platform/sfw.cpp')],
  EX, 'histories of up to 3 events (thorough 4) out of 19; 5 clock and 3 date starting points; clocks that stand still or move by 7 ns a look; 0, 1 or 3 signals a sleep; 32 program starts pairwise.')
