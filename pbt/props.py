"""The properties: the single source of properties.jsonl and MANIFEST.json
(regenerate with python tools/gen_manifest.py)."""

PROPS = []


def prop(id, title, statement, over, domain, why, files, mechanism, oracle,
         note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                      over=over, domain=' '.join(domain.split()),
                      why=' '.join(why.split()), files=files,
                      mechanism=mechanism, oracle=oracle,
                      note=' '.join(note.split()), observe=list(observe)))


prop('P01', 'Parametric shape models reproduce and best-approximate shapes',
     '''For every training set and every queried shape, a parametric shape
     model's reported shape is the least-squares approximation its motion and
     active deformation components allow, parameters map to a shape and back
     to the same parameters, shapes the model can represent (any
     similarity-moved mean; any global motion of mean plus deformation) are
     reproduced exactly, and asking for an already reproduced shape changes
     nothing. Similarity and deformation components of the orthogonalised
     model form one orthonormal family. Changing the number of active
     components at any moment leaves the model in the state of a model
     that always had that number, still matching the shape it was showing.''',
     ['inputs', 'histories', 'configurations'],
     '''training sets (3-9 shapes, 4-12 points, scales 1-150), component
     limits, targets at any pose and with off-model deformation, sequences of
     set-target / set-parameters / change-components operations; plain,
     globally transformed, orthogonal, rigid and dense linear models''',
     '''The 11 tests exercise only homogeneous/TPS/RBF Jacobians on fixed
     numbers; no test builds a shape model.''',
     ['menpofit/modelinstance.py', 'menpofit/transform/modeldriven.py',
      'menpofit/builder.py'],
     [('projection and reconstruction', 'menpofit/modelinstance.py'),
      ('similarity model and orthonormalisation',
       'menpofit/modelinstance.py OrthoPDM'),
      ('sparse-to-dense solve', 'menpofit/transform/modeldriven.py')],
     'independent least-squares oracle, round trips',
     '''Randomised search against numpy least-squares/SVD oracles with relative
     tolerances 1e-6..1e-9; degenerate (rank-deficient) training sets are not
     generated. Trusts menpo's PCA.''')

prop('P02', 'Analytic Jacobians and first-order composition are exact',
     '''For every state and every evaluation point, each analytic derivative
     offered by the library (homogeneous motions, radial basis kernels,
     piecewise affine and thin plate spline warps, shape models and
     model-driven warps; with respect to parameters, anchor landmarks or
     space) equals the derivative of what the object actually computes.
     Composing a parameter increment onto a model-driven warp changes its
     parameters by the first-order projection of the composed motion, and
     inverting an increment negates it. Warps stay in sync with their model:
     they always map their source onto the model's current shape.''',
     ['inputs', 'configurations', 'histories'],
     '''random transforms (2D/3D), point sets inside the hull, kernels with
     and without coincident centres, models at arbitrary pose/zoom/weights,
     repeated evaluation through one reused buffer. Warp derivatives with
     respect to landmarks are taken at the undeformed warp; the piecewise
     affine spatial derivative is documented as the identity and excluded;
     global-motion columns are documented to be evaluated at the mean''',
     '''The existing tests compare Jacobians with frozen arrays at one state
     each (identity warps, three or four points).''',
     ['menpofit/transform/homogeneous.py', 'menpofit/transform/rbf.py',
      'menpofit/transform/piecewiseaffine.py',
      'menpofit/transform/thinsplatesplines.py',
      'menpofit/transform/modeldriven.py', 'menpofit/modelinstance.py'],
     [('closed form derivatives', 'd_dp/d_dl/d_dx methods'),
      ('first order composition', 'menpofit/transform/modeldriven.py')],
     'central finite differences of the public behaviour',
     '''Compares with central differences (rtol 1e-4..1e-6). Spline systems
     that menpo itself truncates as near-singular are discarded.''')

prop('P03', 'Incrementally updated shape models equal batch-trained ones',
     '''Updating a shape model with new shapes (one call or several, any
     splitting, lists or iterators) gives the mean, components and variances
     that training once on all the shapes gives, as far as the model keeps
     all its components. A forgetting factor below one weights the earlier
     shapes down accordingly. After an update the model is internally
     consistent: its current shape, weights, global transform, number of
     active components and similarity components all belong to the updated
     model, exactly as in a freshly built one.''',
     ['histories', 'inputs'],
     '''training sets split at arbitrary points into 1-4 updates, forgetting
     factors in (0, 1], plain, globally transformed and orthogonal shape
     models at arbitrary states''',
     '''No test updates a model; the guarantee quantifies over every splitting
     of every training set.''',
     ['menpofit/modelinstance.py'],
     [('increment', 'menpofit/modelinstance.py PDM.increment'),
      ('global/orthogonal bookkeeping',
       'menpofit/modelinstance.py GlobalPDM/OrthoPDM')],
     'weighted batch PCA as reference model, history-based generation',
     '''Compares with a numpy eigen-decomposition of the (weighted) scatter,
     rtol 1e-6.''')

prop('P04', 'Scale, option and complexity settings mean what they say',
     '''Every per-scale option may be given as one value, as a one-element
     list or as one value per scale, and each spelling trains the same models
     and yields the same fits; wrong lengths or types are rejected. Limits on
     shape and appearance components (a count, a variance ratio or None) and
     iteration budgets are honoured exactly at each scale, in the trained
     models, in the fitters and in every reported parameter vector. The
     feature, patch size, sampling and limit named for a scale are the ones
     used at that scale in training and fitting.''',
     ['configurations', 'inputs'],
     '''1-4 scales, all model families (AAM, ATM, CLM, APS, unified), all
     spellings (scalar, list, tuple, one element, numpy integers, index
     arrays and masks), valid and invalid values''',
     '''The option space is a product of spellings, scales and families; the
     tests contain no model at all.''',
     ['menpofit/checks.py', 'menpofit/fitter.py', 'menpofit/aam/base.py',
      'menpofit/atm/base.py', 'menpofit/clm/base.py', 'menpofit/aps/base.py',
      'menpofit/unified_aam_clm/base.py'],
     [('option expansion', 'menpofit/checks.py'),
      ('per-scale training and fitting', 'menpofit/*/base.py')],
     'reference expansion, differential between spellings, single-scale '
     'models as reference for multi-scale ones',
     '''Small synthetic images (44-54 px), 4-6 training images. Relative
     tolerances 1e-5..1e-8.''')

prop('P05', 'Training data is brought into a common reference frame correctly',
     '''The reference shape is the mean of the (first batch of) training
     landmarks at the requested bounding-box diagonal, or the given shape;
     training images and landmarks are rescaled together so that landmarks
     have the reference size at each scale, in order and without touching the
     originals. Reference frames contain a translated copy of the landmarks
     with the requested margin and a mask equal to the area of the mesh or
     patches. Warped images show at each reference pixel the image at the
     point its own shape maps that pixel to, patches show the pixels around
     their landmark, dense shapes are the warped pixels, and Procrustes
     alignment yields centred similarity copies best aligned to their
     mean.''',
     ['inputs', 'configurations'],
     '''images 44-64 px with 1-3 channels, 1-7 shapes of 3-12 points, diagonals
     20-300, boundaries 0-12, patch sizes 1-13, piecewise affine and thin
     plate spline warps, every model family; given and computed reference
     shapes''',
     '''No test trains a model or builds a frame.''',
     ['menpofit/builder.py', 'menpofit/aam/base.py', 'menpofit/atm/base.py',
      'menpofit/clm/base.py', 'menpofit/aps/base.py',
      'menpofit/unified_aam_clm/base.py'],
     [('normalisation', 'menpofit/builder.py'),
      ('frames, warps and patches', 'menpofit/builder.py')],
     'independent geometric oracles: barycentric interpolation of affine '
     'images, slicing, point in mesh, procrustes optimality',
     '''Warps are judged on images that are affine functions of position,
     where interpolation is exact. Pixels closer than about 2% of a triangle
     to the mesh border are not judged.''')

prop('P06', 'Fits live in the coordinates of the image that was handed in',
     '''For every fitter, start, list of scales and features, every shape of a
     fit is reported in the coordinates of the given image: with no
     iterations the first scale reports what its model makes of the given
     start, each scale starts where the previous one ended, and features that
     crop, pad or resize the image at some scales change nothing but the
     picture. Translating image and start translates the whole fit, a fit on
     a magnified picture is the magnified fit, and fitting from a bounding box
     is fitting from the reference shape aligned with that box.''',
     ['inputs', 'configurations'],
     '''every model family, Lucas-Kanade, parametric and non-parametric
     cascades; 1-3 scales in any order including repeated and non-unit last
     scales; features that crop, pad, downscale or add channels, mixed per
     scale; starts at any pose''',
     '''The tests contain no fit.''',
     ['menpofit/fitter.py', 'menpofit/result.py', 'menpofit/builder.py',
      'menpofit/sdm/fitter.py', 'menpofit/lk/fitter.py'],
     [('scale chain', 'menpofit/fitter.py MultiScaleNonParametricFitter'),
      ('affine and scale transforms of results', 'menpofit/result.py')],
     'independent projection onto the shape model, affine maps recovered from '
     'menpo alone, metamorphic relations (translation, resolution, features)',
     '''Synthetic images (58-72 px). Translation equivariance is judged for
     fits that stay away from the image border, and not for families built on
     thin plate splines (menpo truncates their linear system). The resolution
     relation is approximate (1 px).''')

prop('P07', 'Results account for the whole run',
     '''A fitting result lists every shape of the run in order (given start,
     reconstruction and iterations of each scale) in original coordinates;
     iteration counts, displacements, errors under any metric, costs and
     parameters all refer to exactly those shapes, and every shape of a
     parametric fit is the one its parameters generate. Iterations never
     exceed the limits asked for, information that was not given (ground
     truth, image, start, costs) is reported as missing rather than invented,
     and converting a result keeps or drops what was asked; the results of the
     algorithms that make the fit at one scale do the same. Displays and plots
     show these shapes and values under their right names.''',
     ['inputs', 'configurations', 'histories'],
     '''all result classes built from 1-4 scales of 0-5 random iterations with
     random affine maps, every combination of given and missing parts; real
     fits of every family; displayed figures read back from matplotlib''',
     '''The tests contain no result.''',
     ['menpofit/result.py', 'menpofit/aam/result.py', 'menpofit/lk/result.py',
      'menpofit/aps/result.py', 'menpofit/unified_aam_clm/result.py',
      'menpofit/visualize/base.py'],
     [('result classes', 'menpofit/result.py'),
      ('drawing of shapes', 'menpofit/visualize/base.py')],
     'reference lists computed from the ingredients, independent shape '
     'generation from parameters, artists read back from figures',
     '''Lucas-Kanade lists the given shape (not its affine approximation) as
     the first shape of a scale: accepted as such.''')

prop('P08', 'Lucas-Kanade alignment minimises its stated residual',
     '''For every residual (SSD, Fourier, ECC, gradient images, gradient
     correlation), algorithm (forward additive, forward and inverse
     compositional) and motion model, a template cut out of an image is found
     again from a nearby start and does not move from its own place; the
     surroundings of the compared region play no role. Reported costs are the
     residual's objective between template and resampled image, steepest
     descent images are derivatives of what is compared, all steps are
     Gauss-Newton steps (of the filtered residual), reported parameters are
     those of the motions, and the Fourier formulation (with or without a
     filter) makes the same steps as the spatial one. Bias, gain and joint
     intensity changes have no effect on the residuals insensitive to
     them.''',
     ['inputs', 'configurations'],
     '''images 64-146 px with 1-3 channels, affine and similarity motions up to
     about 2 px, 1-2 scales with and without resampling, random symmetric
     filters, bias and gain 0.25-40''',
     '''The tests contain no alignment.''',
     ['menpofit/lk/algorithm.py', 'menpofit/lk/residual.py',
      'menpofit/lk/fitter.py', 'menpofit/transform/homogeneous.py'],
     [('residuals', 'menpofit/lk/residual.py'),
      ('update rules', 'menpofit/lk/algorithm.py')],
     'planted solutions, from-scratch Gauss-Newton step and objective, '
     'differential (Fourier vs spatial), metamorphic (bias, gain)',
     '''Recovery tolerance 0.3 px without and 1 px with resampling. Steepest
     descent images of the gradient residuals use an approximation of the
     crossed second derivatives and are only judged by what the fits do.''')

prop('P09', 'Error measures are the stated distances and normalisations',
     '''Euclidean and root mean square errors of any two shapes (point clouds or
     arrays) equal their definitions, are symmetric and vanish exactly for
     equal shapes. Normalised errors divide by the stated bounding box measure
     of the ground truth (or the given shape), by the given distance function,
     or by the distance between two points of the ground truth. Face measures
     compare the landmarks the named markup shares, for every accepted
     combination of 68, 66, 51 and 49 point markups, normalise by the distance
     between pupils, outer eye corners or bounding box edges of the ground
     truth, and reject other markups; inputs are left unchanged.''',
     ['inputs', 'configurations'],
     '''2-40 points (68 for faces) in 2-3 dimensions, sizes 1e-3 to 1e4, noise 0
     to 3 times the size, arrays, point clouds and graphs''',
     '''The tests contain no error measure.''',
     ['menpofit/error/base.py', 'menpofit/error/human/face.py'],
     [('measures', 'menpofit/error/base.py'),
      ('faces', 'menpofit/error/human/face.py')],
     'independent scalar definitions, indices within the 68 point markup, '
     'metamorphic relations (permutation, scale, irrelevant points)', '')

prop('P10', 'Statistics, tables and plots of errors are exact',
     '''The cumulative error distribution is, at each bin, the proportion of
     errors not larger than it (ties included). The failure rate is the
     proportion of errors above the maximum error; the area under the curve is
     the area of that distribution up to the maximum error divided by it, so
     that perfect results score one (for a zero minimum) and failures zero.
     Mean, deviation, median, median absolute deviation and maximum equal
     their definitions for one or several methods, from lists or arrays;
     tables show them in the requested columns under the right method, sorted
     from best to worst on request, and plots draw these distributions.''',
     ['inputs', 'configurations'],
     '''1-60 errors (with ties, on bins and on the maximum), 1-5 methods of
     different sizes, steps 0.001-1/3, whole and partial last steps, all table
     options''',
     '''The tests contain no statistics.''',
     ['menpofit/error/stats.py', 'menpofit/visualize/textutils.py',
      'menpofit/visualize/base.py'],
     [('statistics', 'menpofit/error/stats.py'),
      ('tables', 'menpofit/visualize/textutils.py')],
     'reference definitions in exact loops, exact area of the step function '
     'with the quadrature bound, curves and table cells read back', '')

prop('P11', 'Regressions solve the least squares problems they state',
     '''Regularised linear regression (with or without bias) minimises its
     penalised squared error and recovers exact relations; incrementing it with
     any split of samples gives the regression trained on all of them at once.
     Indirect regression inverts the regression of features on targets.
     Principal component and optimal regression are least squares on the fewest
     leading components that keep the requested variance, and ordinary least
     squares when all are kept; Procrustes regression is the orthonormal map
     best correlated with the targets (whitened: closest to the least squares
     solution). Predictions are the same one by one or
     in batches, inputs stay unchanged, and models that cannot be incremented
     say so.''',
     ['inputs', 'histories', 'configurations'],
     '''1-15 features, 1-6 targets, 25-60 samples, regularisation 0-40, up to 4
     increments of 1-20 samples, variance fractions 0.05-1''',
     '''The tests contain no regression.''',
     ['menpofit/math/regression.py'],
     [('regressions', 'menpofit/math/regression.py')],
     'augmented SVD least squares, batch versus incremental differential, '
     'optimality certificates, planted exact relations',
     '''The whiten option of Procrustes regression is not specified. The indirect
     regression has no bias by design and no increments.''')

prop('P12', 'Convolutions and correlation filters are exact',
     '''Fourier domain convolutions equal direct convolutions in every mode and
     boundary treatment for any image and filter size, for arrays and images,
     channel by channel or summed, and filters given in the frequency domain
     act as circular convolutions of the extended image; cropping undoes
     padding and both keep the centre pixel (at half the size) in the centre,
     as do filtered images, for even and odd sizes alike. MOSSE and multi-channel correlation filters minimise the
     regularised squared error between desired and obtained responses over all
     samples, do not depend on the order of samples, agree for one channel,
     and incrementing them equals training on all samples, older ones weighted
     by the forgetting factor.''',
     ['inputs', 'histories', 'configurations'],
     '''images 6-24 px, filters 1-11 px, 1-3 channels; 1-4 samples of 5-11 px,
     up to 3 increments, forgetting 0-1''',
     '''The tests contain no filter.''',
     ['menpofit/math/correlationfilter.py', 'menpofit/math/fft_utils.py'],
     [('filters', 'menpofit/math/correlationfilter.py'),
      ('convolution', 'menpofit/math/fft_utils.py')],
     'direct convolution, rolled sums, optimality in the spatial domain, '
     'frequency by frequency reference, batch versus incremental',
     '''The valid mode of
     filters given in the frequency domain is not specified (their spatial
     size is unknown).''')

prop('P13', 'Landmark experts answer where a patch was learnt, as probabilities',
     '''For every training set, patch and context size (even or odd), number of
     channels, sample offsets, patch normalisation, cosine mask, desired
     response covariance and filter type, the response of each expert of an
     ensemble equals the convolution of the normalised patch at its landmark
     with the correlation filter trained on the (masked) context patches of
     all images seen, whether in one go or by increments; training and
     prediction treat patches alike and change none of their inputs. Known
     patches that were displaced give the strongest response at exactly that
     displacement. Probability maps are non-negative, sum to one, are a shifted
     and scaled copy of the response, uniform for constant responses, and
     leave the response untouched. Filter images show the trained filters
     channel by channel.''',
     ['inputs', 'configurations', 'histories'],
     '''1-4 training images of 1-3 channels, 1-4 landmarks, patches 4-14 px,
     contexts to 22 px, 0-3 sample offsets, up to 2 increments, MCCF/MOSSE and
     custom filters; localisation with 15-22 px patches of noise''',
     '''No test builds an expert.''',
     ['menpofit/clm/expert/ensemble.py', 'menpofit/clm/expert/base.py',
      'menpofit/base.py'],
     [('ensembles', 'menpofit/clm/expert/ensemble.py'),
      ('probability_map', 'menpofit/clm/expert/base.py')],
     'independent frequency-by-frequency reference, planted displacements',
     '''Trusts the patch extraction and normalisation of menpo. Localisation
     judges the median of 32 or more experts.''')

prop('P14', 'Cascaded regression learns from where each step ended',
     '''For every supervised descent algorithm (non-parametric, parametric
     shape, parametric appearance, fully parametric, and the six that regress
     parameters of any kind of AAM), every training set, number of bounding
     boxes per image (which may differ), number of iterations, patch features,
     holistic features and scales: each iteration regresses from the features
     at the current shapes to their remaining error (of points or shape
     parameters) and moves every current shape by its own prediction, scales
     start where the previous one ended, and the first one from the reference
     shape aligned with each perturbed and each given bounding box; running
     applies these regressions in turn to any image. Each perturbation is
     asked for with the bounding box of the ground truth and the box to
     perturb. An image given twice counts twice. The remaining training error of ridge regressions never grows,
     training samples that look different are recovered when there are more
     features than samples, ground truths and images stay untouched, and
     untrained algorithms refuse increments.''',
     ['inputs', 'configurations'],
     '''3-5 images, 1-2 channels, 4-6 points, patches 3-8 px, 1-3 iterations,
     1-2 scales, 0-4 boxes per image, ridge .01-1, 21 algorithms + 6 x 5 AAM
     kinds''',
     '''No test trains a cascade.''',
     ['menpofit/sdm/algorithm/base.py', 'menpofit/sdm/fitter.py',
      'menpofit/sdm/algorithm', 'menpofit/aam/algorithm/sd.py'],
     [('cascade', 'menpofit/sdm/algorithm/base.py'),
      ('fitters', 'menpofit/sdm/fitter.py'),
      ('aam_cascades', 'menpofit/aam/algorithm/sd.py')],
     'independent cascade (single regressions are trusted, P11), recorded '
     'perturbations, recovery of training samples',
     '''Cases in which disturbing features by 1e-9 moves results by more than
     half a milli-pixel are not judged. Increments and batches of cascades
     raise an error because their regressions are not incrementable; that is
     explicit behaviour and not specified here.''')

prop('P15', 'Perturbations are the requested noise around the optimal alignment',
     '''For every pair of shapes (or shape and bounding box, wherever and how
     large they are), noise type, percentage and alignment option, a noisy
     alignment is the optimal similarity (with or without rotation) followed
     by rotation and scaling about the centre of the target and a translation;
     uniform noise is uniform within half the percentage of the scale, 180
     degrees times the percentage and the percentage of the range of the
     target per axis, Gaussian noise is normal with a third of these as
     deviation, all four independent and absent where the percentage is zero.
     Noisy shapes are the source under that transform. White noise on
     alignment targets has the requested deviation (per point) relative to the
     extent of the target. Generated boxes are the requested number of
     perturbations of every box of every image plus the given boxes, inside
     the image. Options and shapes given are never modified, unknown noise
     types are refused.''',
     ['inputs', 'configurations'],
     '''3-9 points, scales .5-45, centres up to 300 px apart, percentages
     0-.3; 300 draws per distribution; 1-4 images with 1-3 boxes''',
     '''No test draws a perturbation.''',
     ['menpofit/fitter.py'],
     [('perturbations', 'menpofit/fitter.py')],
     'decomposition of the noise against a closed form similarity, '
     'Kolmogorov-Smirnov tests at 1e-9 with fixed seeds, recorded calls',
     '''Two dimensional shapes. Distribution tests only reject gross
     deviations (some ten per cent of the extent).''')

prop('P16', 'Instances and reconstructions show the weights they are given',
     '''For every generative model (AAM, ATM, CLM, APS and unified AAM-CLM, all
     scales, any spelling of the scale index), an instance shows mean plus
     components weighted in standard deviations: its shape is the weighted
     shape model, its patches are the weighted appearance model (or the
     template), its image is that appearance warped onto that shape (inside
     the mesh or the patches, nowhere else) with the shape as landmarks;
     missing weights are zero, the highest scale is the default and templates
     stay as they were. Random instances draw every active shape and every
     active appearance weight independently from a standard normal. Appearance
     reconstructions of lists of parameters over scales are the instances of
     the model of their scale, one more than the iterations of every scale, in
     order.''',
     ['inputs', 'configurations'],
     '''4-7 images of 4-6 points, 1-3 scales, 1-2 channels, 0-3 weights within
     two standard deviations, 1-3 or all components, fitted and synthetic
     parameter lists''',
     '''No test builds an instance of any model.''',
     ['menpofit/aam/base.py', 'menpofit/atm/base.py', 'menpofit/clm/base.py',
      'menpofit/aps/base.py', 'menpofit/unified_aam_clm/base.py',
      'menpofit/aam/fitter.py', 'menpofit/unified_aam_clm/fitter.py'],
     [('instances', 'menpofit/aam/base.py'),
      ('templates', 'menpofit/atm/base.py'),
      ('graphs', 'menpofit/aps/base.py'),
      ('unified', 'menpofit/unified_aam_clm/base.py')],
     'independent weighted sums and warps (barycentric coordinates, bilinear '
     'interpolation), Kolmogorov-Smirnov tests at 1e-9',
     '''Appearance of meshes is compared where the reference lies inside the
     template. Linear families have no instances (NotImplementedError by
     design).''')

prop('P17', 'Models are trained from all the data given and nothing else',
     '''For every AAM, ATM and CLM (all families), trained at once, in batches
     or by increments of any size (one image included), the shape model of
     each scale is that of the aligned landmarks of all images, the appearance
     model is the (limited) principal component analysis of the features of
     all images warped to the reference frame of that scale, experts have seen
     all images, templates are those given last, and every forgetting factor
     affects its own model only. Verbosity, the container holding the images
     (lists, tuples, iterators), unrelated landmark groups, leaving out the
     name of the only group, the order of images, batches as large as the data,
     images given twice rather than copied and the precision of pixels make no difference to any model, supervised
     descent and pictorial structures included; nothing is printed unless
     asked for.''',
     ['inputs', 'configurations', 'histories'],
     '''3-6 images plus 0-2 increments of 1-4 images, 4-6 points, 1-3 scales
     with any mix of three features, component limits None/1/2/0.9, forgetting
     factors .6-1, 13 model families''',
     '''No test trains or increments a model.''',
     ['menpofit/aam/base.py', 'menpofit/atm/base.py', 'menpofit/clm/base.py',
      'menpofit/aps/base.py', 'menpofit/unified_aam_clm/base.py',
      'menpofit/sdm/fitter.py', 'menpofit/builder.py'],
     [('aam', 'menpofit/aam/base.py'), ('atm', 'menpofit/atm/base.py'),
      ('clm', 'menpofit/clm/base.py'), ('sdm', 'menpofit/sdm/fitter.py')],
     'independent incremental PCA of the warped images, differential shape '
     'models and experts (decided by P01, P03, P13), metamorphic retraining',
     '''Supervised descent fitters cannot be trained in batches
     (NotImplementedError by design). Appearance models limited to a ratio of
     variance are only compared in their means after increments.''')

prop('P18', 'Fitting and training are pure functions of what they are given',
     '''Fitting the same image from the same start always gives the same
     result, whatever was fitted before with the same fitter or with other
     fitters of the same model, and whether or not costs are asked for (all
     of shapes, parameters, costs, image). A fitter built on a model that has
     already been used works like one built on the model when it was fresh;
     building and using fitters leaves the statistics of the model alone.
     Results already obtained never change when more fits are run or when
     the fitted image or the initial shape is modified afterwards. Neither
     training nor fitting modifies anything it is given: images (pixels,
     masks, landmark groups and points, including bounding boxes used as
     starts), reference shapes, initial shapes and ground truths, nor does a
     fit or training that fails half-way, at whatever call, and fits that
     follow it are those of an untouched fitter.''',
     ['histories', 'inputs', 'configurations', 'fault_sequences'],
     '''all fitters (Lucas-Kanade image alignment, five kinds of AAM and ATM with
     every algorithm, CLM, APS, unified AAM-CLM, supervised descent in all its
     forms, dlib ensembles of regression trees), 1-3 scales, random orders of
     up to six fits over four images, fits from shapes and boxes. Fitters
     that request different numbers of active components of one shared model
     share that setting by design and are not mixed''',
     '''No test builds a fitter; state left behind shows only in particular
     orders of fits and fitter constructions.''',
     ['menpofit/fitter.py', 'menpofit/aam/algorithm/lk.py',
      'menpofit/atm/algorithm.py', 'menpofit/clm/algorithm/gd.py',
      'menpofit/aps/algorithm/gn.py', 'menpofit/unified_aam_clm/algorithm.py',
      'menpofit/dlib/fitter.py', 'menpofit/sdm/fitter.py',
      'menpofit/lk/fitter.py', 'menpofit/builder.py'],
     [('precomputation at construction', 'the _precompute methods'),
      ('shared models', 'build_fitter_interfaces methods'),
      ('training', '_train / _train_batch')],
     'metamorphic: repetition, reordering, deep-copied control, snapshots',
     '''Repeats must agree within 1e-9 (shared models 1e-7, relative).''')

prop('P19', 'AAM and ATM iterations are Gauss-Newton steps of their costs',
     '''For every AAM and ATM (five kinds each, every algorithm, any sampling
     mask or step, any number of active components, one or more scales and
     channels) the reported cost of every iteration is the sum of squared
     differences, over the sampled pixels, between the image warped to the
     reference frame with the reported shape parameters and the template (plus
     the appearance reconstructed from the reported appearance parameters, or
     with the appearance subspace projected out for project-out and Wiberg
     algorithms). Every reported change of the shape parameters (and, for
     simultaneous algorithms, of the appearance parameters) is the
     least-squares solution of that cost linearised with the gradient of the
     warped image (forward) or of the model (inverse) and the warp Jacobian at
     the mean shape. Appearance parameters start at, and for modified
     alternating algorithms stay at, the projection of the warped image. With
     map_inference, steps also minimise the weighted squares of the parameters
     (pulling them towards the mean, with the same weights at every
     iteration of every fit). Fits stop at the first step that moves the shape
     by at most the tolerance, or at the iteration limit.''',
     ['inputs', 'configurations', 'histories'],
     '''5-point models of six noisy 44x46 images with 1-2 channels, 1-3 scales,
     scale dependent features, displaced and rotated starts, 0-40 iterations
     per scale. Singular (diverged) problems are discarded''',
     '''No test runs a fit; an inexact step still tends to converge on easy
     data, so that only comparison with the exact step shows an error.''',
     ['menpofit/aam/algorithm/lk.py', 'menpofit/atm/algorithm.py',
      'menpofit/aam/fitter.py', 'menpofit/atm/fitter.py',
      'menpofit/transform/modeldriven.py'],
     [('sampling masks, warps and Jacobians',
       'menpofit/aam/algorithm/lk.py interfaces'),
      ('steps and costs', 'menpofit/aam/algorithm/lk.py, '
       'menpofit/atm/algorithm.py')],
     'reference model: every step and cost is recomputed from the reported '
     'parameters, numeric warp Jacobians, own gradients and normal equations',
     '''Relative tolerance 1e-5. Jacobians of thin plate spline warps are taken
     from the (P02-checked) transform, because menpo truncates their systems.
     The appearance parameters of alternating and Wiberg algorithms are
     accepted with or without their linear prediction.''')

prop('P20', 'Part-based fitters take the steps of their stated problems',
     '''Constrained local models: in every iteration the target of each point is
     the mean offset of its search window, weighted by the response map of its
     expert times a centred Gaussian of the kernel covariance (regularised
     landmark mean shift), or by a Gaussian around the pixel of highest
     response, truncated to the window (active shape model); window sizes may
     be odd, even or rectangular and the centre pixel is at size // 2. The
     reported change of the shape parameters is the least-squares solution
     for these targets, with map_inference the ridge solution under the shape
     prior (noise variance over eigenvalues, global motion free), pulling the
     parameters towards the mean. Active pictorial structures (Inverse and
     Forward): the reported costs are the squared Mahalanobis distances of
     the sampled appearance and of the deformation times its weight, and
     their sum; steps are the Gauss-Newton steps of that sum with the
     gradients of the mean appearance (Inverse) or of the image (Forward),
     with any sampling mask, weight (one, or one per scale) and with or
     without Procrustes alignment. Unified AAM-CLM (project-out and
     alternating): steps minimise a times the appearance term plus (1 - a)
     times the landmark term, each over its noise variance, plus the shape
     prior if prior=True; appearance parameters are the projections of the
     warped image. All stop at the first step that moves the shape by at most
     the tolerance, or at the iteration limit.''',
     ['inputs', 'configurations', 'histories'],
     '''5-6 point models of seven noisy 50x52 images, 1-2 channels, 1-3 scales,
     scale dependent features, windows 3-12 x 3-12, sample offsets, kernel
     covariances 1-40, trimmed and untrimmed shape models, displaced and
     rotated starts, 0-40 iterations per scale''',
     '''No test builds a part-based fitter; wrong steps still end somewhere
     plausible on easy images.''',
     ['menpofit/clm/algorithm/gd.py', 'menpofit/aps/algorithm/gn.py',
      'menpofit/unified_aam_clm/algorithm.py', 'menpofit/clm/fitter.py',
      'menpofit/aps/fitter.py', 'menpofit/unified_aam_clm/fitter.py'],
     [('CLM iterations', 'menpofit/clm/algorithm/gd.py'),
      ('APS iterations', 'menpofit/aps/algorithm/gn.py'),
      ('unified iterations', 'menpofit/unified_aam_clm/algorithm.py')],
     'reference model: every step and APS cost recomputed from the reported '
     'parameters, numeric Jacobians, own gradients and normal equations',
     '''Response maps (P13), precisions and statistics of the models are taken
     from the models. The cost of unified fits is a heuristic blend and not
     judged. Relative tolerance 1e-5; singular systems are discarded.''')

prop('P21', 'Pickled models and wrapped, downloaded fitters work as the originals',
     '''Every model, fitter and fitting result survives pickling (any
     protocol) and deepcopy: fitters built on the restored model (incremented
     after the restoration or not), restored fitters (used before or not) and
     restored results give the same shapes, parameters, costs, errors and
     descriptions as the originals. A PickleWrappedFitter, itself restored
     from a pickled partial, gives for any fitter the result of the wrapped
     fitter on the preprocessed image, with all shapes (initial, reconstructed
     initial, intermediate, final) mapped back to the coordinates of the given
     image for any homogeneous preprocessing transform; it uses the frozen
     keyword arguments of the respective method, overridden by those of the
     call for this call only; ground truth and its errors refer to the given
     image, of which the result keeps a copy; nothing it is given is modified.
     The default preprocessing returns the luminosity image (of images with
     three channels) cropped around the points by the proportion of their
     smaller extent, clipped to the image, and the whole pixel translation
     back. load_fitter downloads a fitter once, byte for byte, loads and
     invokes it, uses the cached file afterwards whatever the server holds,
     and purges files that cannot be loaded, raising the error, so that the
     next call starts afresh.''',
     ['inputs', 'configurations', 'histories'],
     '''all model families and fitters (18 kinds with their algorithms) on 44x46
     images; preprocessing by cropping, rescaling and rotation; histories of up
     to 13 loads, damages, deletions and server changes over file:// URLs in a
     scratch directory; downloads of 0 to 1.3 MB around the chunk size''',
     '''No test pickles or wraps a fitter; the order of loads, damage and
     server changes matters.''',
     ['menpofit/io.py', 'menpofit/fitter.py', 'menpofit/result.py',
      'menpofit/dlib/fitter.py', 'menpofit/modelinstance.py'],
     [('wrapped fitters', 'menpofit/io.py PickleWrappedFitter'),
      ('downloads and purging', 'menpofit/io.py load_fitter, download_file')],
     'round trips; metamorphic comparison with the fitter on the '
     'preprocessed image; stateful model of cache and server',
     '''The scratch cache and server are put in place of the module level
     names menpofit.io.MENPO_URL and menpofit.io.menpofit_src_dir_path.''')

prop('P22', 'Ensembles of regression trees chain dlib over scales faithfully',
     '''A DlibERT with any options equals a cascade of dlib predictors trained
     by hand: the training images are rescaled so that the bounding box of
     their landmarks has the size of the bounding box of the reference shape
     (given, or the mean box brought to the diagonal); every image contributes
     the requested perturbations of each of its bounding boxes (the tightest
     one or all those matching the glob, which are then used themselves too),
     kept inside the image; the predictor of each scale is trained with the
     options of that scale on the boxes around the predictions of the
     previous one, for all boxes of all images (twice for an image given
     twice). Fitting chains the predictors
     from the initial bounding box (that of the initial shape, with a
     warning), and reports one shape per scale in the coordinates of the given
     image. Descriptions list the options in use. DlibWrapper, given a path or
     a model, predicts what dlib predicts, refuses missing files and reports a
     result without initial shape. Points, boxes, detections and options
     travel to and from dlib unchanged up to the truncation to whole pixels,
     images as grey or colour bytes (the first channel of those with neither
     one nor three).''',
     ['inputs', 'configurations'],
     '''2-4 training images of 50x53 pixels, 5 points, 1-3 scales (repeated
     ones included), 1, 3 and 5 channels, no/one/two extra boxes, options as
     single values and lists; images of 1-36 channels and three types for the
     conversions''',
     '''No test touches the dlib module.''',
     ['menpofit/dlib/fitter.py', 'menpofit/dlib/algorithm.py',
      'menpofit/dlib/conversion.py', 'menpofit/builder.py',
      'menpofit/fitter.py'],
     [('training over scales', 'menpofit/dlib/fitter.py DlibERT._train'),
      ('prediction', 'menpofit/dlib/algorithm.py'),
      ('conversions', 'menpofit/dlib/conversion.py')],
     'reference model: own chain of dlib.train_shape_predictor over scales; '
     'differential comparison with plain dlib; round trips',
     '''dlib itself is trusted. Cases in which a coordinate lies within 1e-6 of
     a whole number without being one are discarded, as rounding errors
     decide about their truncation.''')

prop('P23', 'APS graphs, Gaussian random fields, spanning trees and increments',
     '''The models of active pictorial structures are the Gaussian Markov
     random fields of their data on the graphs of each scale: the appearance
     precision sums over the edges of the appearance graph the (truncated)
     inverse covariances of the concatenated patches of both vertices (over
     the vertices of an empty graph), in the requested type; the deformation
     precision those of the relative locations along the deformation graph,
     of aligned shapes iff procrustes is used; the shape model is the
     orthogonalised PCA of the aligned shapes, or of the field on the shape
     graph if one is given. Missing deformation graphs are replaced (scale by
     scale) by a minimum spanning tree, rooted at vertex 0, of the negative
     log-likelihoods of the relative locations. Batches and later increments
     extend all models to all samples seen, each counted once, leaving given
     graphs, images and options alone. Instances lie on the deformation graph
     if asked to, ellipses of the deformation model show the spread of the
     relative locations, unsuitable graphs are refused.''',
     ['inputs', 'configurations', 'histories'],
     '''7-10 (+4-7) images, 3-5 points, 1-3 scales, mixed features, chains,
     stars, cycles, complete, random and empty graphs, trees; batch sizes and
     1-3 increments, lists and generators; float32 and float64''',
     '''No test trains an APS.''',
     ['menpofit/aps/base.py', 'menpofit/builder.py', 'menpofit/checks.py',
      'menpofit/modelinstance.py'],
     [('models and increments', 'menpofit/aps/base.py _train_batch'),
      ('spanning tree', 'menpofit/aps/base.py _compute_minimum_spanning_tree'),
      ('graph checks', 'menpofit/checks.py check_graph')],
     'reference model: own random fields and Kruskal weight from the raw '
     'images; batches against all samples together',
     '''Generalised Procrustes alignment (P17) and OrthoPDM (P01) are trusted.
     Precisions are judged when the inverted covariances have a condition
     below 1e3 (float32) or 1e6; covariances that are singular for lack of
     samples are not generated. A spanning tree is judged by its weight.''')

prop('P24', 'Descriptions and progress reports state the facts',
     '''Printing any model (before or after increments), fitter, cascade,
     shape model, ensemble of experts or result lists, scale by scale and in
     order, what is in use there: features, transforms, sizes of patches,
     contexts and templates, classes, numbers of components (active and
     total), iterations, perturbations, weights, graphs, variances, the
     diagonal of the reference shape, the algorithm and residual by name, the
     errors of a result with ground truth; it prints nothing by itself and
     changes nothing. Verbose training of cascades reports, for every
     iteration of every scale in order, the mean, deviation and median of the
     errors (under the requested measure) of the shapes that this iteration
     ends with, and gives the same fitter as quiet training, which prints
     nothing.''',
     ['inputs', 'configurations'],
     '''all model kinds and algorithms, 1-3 scales, per-scale features, patch
     shapes, limits, active components, iterations; all supervised descent
     algorithms, 3-6 images, 1-4 perturbations (differing per image)''',
     '''No test prints anything.''',
     ['menpofit/aam/base.py', 'menpofit/aam/fitter.py', 'menpofit/atm/base.py',
      'menpofit/clm/base.py', 'menpofit/aps/base.py',
      'menpofit/unified_aam_clm/base.py', 'menpofit/sdm/fitter.py',
      'menpofit/sdm/algorithm/base.py', 'menpofit/lk/fitter.py',
      'menpofit/modelinstance.py', 'menpofit/result.py'],
     [('descriptions', '__str__ of every public class'),
      ('reports', 'menpofit/sdm/algorithm/base.py print_non_parametric_info')],
     'parsing the text back and comparing it with options, public state and '
     'own statistics of the errors of shorter trainings',
     '''Wording and layout are only relied upon where values are attached to
     them. Errors of parametric algorithms are reported for the increments of
     parameters applied to the mean shape and are judged within 25 percent.
     Reference shapes given together with a diagonal are not generated (the
     documentation contradicts itself on whether they are rescaled).''')

prop('P25', 'Warped images and sampling helpers show what fitters compare',
     '''For every fitter that offers it (all AAM fitters, supervised descent
     ones included, ATM, APS, unified and Lucas-Kanade fitters) warped_images
     returns, for each of the given shapes in order, what the fitter's last
     scale compares there: every pixel of the reference (with its size and
     mask) shows the given image at the point the warp onto that shape reaches,
     for patch-based models the normalised patch around each point. Image,
     shapes and later fits are not affected. holistic_sampling_from_step marks
     every step-th pixel of the reference mask of the first scale (the eighth
     by default), holistic_sampling_from_scale the reference pixels nearest to
     those of the reference rescaled by the given scale (.35 by default, all
     for one); positions (among the pixels of the mask, in order) and mask
     image agree, the model is left alone, and a fitter given the positions
     works on exactly these pixels.''',
     ['inputs', 'configurations'],
     '''all kinds of models and algorithms, 1-2 scales (also with a last scale
     other than one), 1-2 channels, patches of 4-9 px of even and odd sizes,
     1-4 shapes at any pose; scales .3-1, steps 1-1000''',
     '''No test calls these functions.''',
     ['menpofit/aam/fitter.py', 'menpofit/aam/algorithm/lk.py',
      'menpofit/atm/fitter.py', 'menpofit/aps/fitter.py',
      'menpofit/aps/algorithm/gn.py', 'menpofit/unified_aam_clm/fitter.py',
      'menpofit/lk/fitter.py', 'menpofit/lk/algorithm.py'],
     [('warped images', 'warped_images methods'),
      ('sampling helpers', 'menpofit/aam/fitter.py')],
     'barycentric, affine and dense warps computed independently on images '
     'that are affine functions of position; own masks',
     '''Shapes handed in can be represented by the model (others are projected
     onto it first). Thin plate warps are taken from the P02-checked
     transform.''')


prop('P26', 'Displays show what their options ask for',
     '''Displays of results, of iterations, of several groups of landmarks, of
     deformation models and of error, displacement, cost and cumulative curves
     draw exactly the shapes, image and curves asked for, in the requested
     order: lines, markers, numbers, image, axes (on or off, limits, ticks,
     fonts, labels), grid and figure size as requested or documented as
     default, one colour or style for all groups or one per group; each
     subplot is titled by its shape, and the legend of an overlay has one
     entry per shape that is drawn, in the style of that shape and with the
     requested layout. Style lists of the wrong length or type are refused,
     and neither what is displayed nor an option handed in is changed.''',
     ['inputs', 'configurations'],
     '''point clouds, graphs and meshes, with and without image of 1-3
     channels, any subset of about seventy options at once, 0-4 groups, runs of
     up to three scales, deformation graphs of any kind''',
     '''No test calls these functions.''',
     ['menpofit/visualize/base.py', 'menpofit/result.py',
      'menpofit/aps/base.py', 'menpofit/aps/result.py'],
     [('groups', 'view_image_multiple_landmarks'),
      ('results', 'view, view_iterations, plot_* of the results'),
      ('models', 'view_deformation_model')],
     'the artists, axes and legends of a figure are compared with those menpo '
     'and matplotlib draw for the same data and options',
     '''What menpo itself draws for a shape, an image or a curve is taken for
     right. The wording of titles of single iterations is left to P07.''')


prop('P27', 'Arbitrary conventions make no difference to fits',
     '''For every fitter (all AAM, ATM, CLM, APS, unified, Lucas-Kanade and
     supervised descent ones, every algorithm, any scales, features, patch
     sizes, from a shape or a bounding box), fits do not depend on conventions
     shared by training and test data. Relabelling the landmarks (and the
     vertices of graphs) relabels every shape of the fit; exchanging the two
     axes of images, landmarks and patch sizes exchanges those of every shape;
     reordering the channels of the images, or mixing them orthogonally where
     squared differences are compared, changes nothing; nor does the kind of
     container the landmarks come in (point cloud, undirected or directed
     graph, labelled graph), nor do other groups of landmarks that images or
     templates carry beside the named one. Multiplying all intensities (and the penalties of
     squared weights accordingly) changes no shape, and costs that are sums of
     squared differences by the square of the factor; an offset of all
     intensities changes nothing away from the borders for AAMs, ATMs, APS,
     Lucas-Kanade and normalised patches. Errors and, but for that factor,
     costs are the same.''',
     ['inputs', 'configurations'],
     '''17 kinds of fitters with all their algorithms, 5-7 training images of
     1-3 channels and different sizes, 4-8 landmarks, one or two scales with
     features and patch shapes of their own, any permutation of landmarks and
     channels, random orthogonal mixes, gains .01-255''',
     '''A sum over the wrong axis, the first landmark or channel treated
     specially, exchanged height and width or a tolerance in absolute units
     all give plausible fits; no test fits anything.''',
     ['menpofit/aam', 'menpofit/atm', 'menpofit/clm', 'menpofit/aps',
      'menpofit/unified_aam_clm', 'menpofit/lk', 'menpofit/sdm',
      'menpofit/builder.py', 'menpofit/fitter.py', 'menpofit/modelinstance.py'],
     [('training', 'constructors of all models'),
      ('fitting', 'fit_from_shape and fit_from_bb')],
     'metamorphic: the same training and fit in both conventions, shapes and '
     'costs compared after conversion',
     '''Where a fit differs by more than 1e-6 pixels, the sensitivity of
     the same fit to relative changes of 1e-9 of the pixels sets the tolerance
     (and discards fits that amplify those beyond 1e-4 pixels). Reference
     frames whose patch masks differ because menpo truncates a coordinate that
     is a whole number up to rounding are discarded.''')

prop('P28', 'Options that are left out mean their published defaults',
     '''For every public constructor, function and method, leaving out any
     optional arguments is the same as passing the defaults published in its
     signature and documentation: models of all families (and their growth
     and instances), fitters, their algorithms and their fits (tolerances,
     numbers of iterations, weights, regularisation), cascades and ensembles
     of trees and their regressions, shape models, warps, filters, error
     measures, statistics, noise, reference frames and results. This holds
     for any combination of options given and left out. SDM and
     RegularizedSDM are supervised descent fitters with their published
     algorithm and ridge.''',
     ['inputs', 'configurations'],
     '''about 60 constructors and functions, every optional argument that can
     be observed left out, given its default or given another value at
     random; small random images and models; interfaces and progress output
     included, displays are with P26''',
     '''Options are passed on through several layers that have defaults of
     their own (a fitter, its algorithm, an interface; a model and its
     ensemble): one that is not passed on, or has another default there, is
     seen only when compared with the explicit call. No test trains or fits
     anything.''',
     ['menpofit/aam', 'menpofit/atm', 'menpofit/clm', 'menpofit/aps',
      'menpofit/unified_aam_clm', 'menpofit/lk', 'menpofit/sdm',
      'menpofit/dlib', 'menpofit/builder.py', 'menpofit/fitter.py',
      'menpofit/modelinstance.py', 'menpofit/math', 'menpofit/error',
      'menpofit/result.py', 'menpofit/transform'],
     [('constructors', 'all public classes'),
      ('functions', 'builder, fitter, error, math, visualize.textutils')],
     'differential: the call with everything explicit (a table of the '
     'published defaults kept by the check) against the call with some '
     'options left out, on the same data and random state',
     '''Options whose effect is not observable (the error measure that
     training prints) are left out. Systems of regressions that are singular
     are discarded.''')

prop('P29', 'Fits are chains: longer ones continue shorter ones',
     '''For every fitter (all kinds of models, all algorithms, any scales and
     features, from a shape or a bounding box), what has been found so far does
     not depend on how long the fit is allowed to go on: with a larger limit
     of iterations at some scale the fit starts with the shapes, parameters
     and costs of the fit with the smaller limit, and is the same as a whole
     if that one had converged. A scale that is given no iterations makes no
     difference to the other scales. Algorithms that keep nothing but the
     shape (all but the alternating, simultaneous and inverse Wiberg ones of
     AAMs, whose appearance parameters are carried along) go on where they
     are interrupted: n iterations and then m more from where they ended are
     n + m iterations, as are n and m iterations at two equal scales (linear
     models apart, which do not reproduce all of their own shapes).
     A scale ends with the first iteration
     that moves the shape (the parameters, for templates) no further than the
     tolerance `eps` of the algorithm, and not before. Cascades trained for
     more iterations at some scale start with those trained for less.''',
     ['histories', 'configurations'],
     '''17 kinds of fitters with all their algorithms, 5-7 training images of
     one or two channels, 4-8 landmarks, one to three scales (repeated ones
     included) with features and patch shapes of their own, limits of 0-9
     iterations per scale, cascades of 1-4 iterations''',
     '''State that survives from an earlier iteration or scale, a schedule
     that depends on the limit, or a step that is skipped at the end of a
     scale changes fits only for some limits; no test runs a fit.''',
     ['menpofit/fitter.py', 'menpofit/aam', 'menpofit/atm', 'menpofit/clm',
      'menpofit/aps', 'menpofit/unified_aam_clm', 'menpofit/lk',
      'menpofit/sdm', 'menpofit/modelinstance.py', 'menpofit/result.py',
      'menpofit/transform'],
     [('fits', 'fit_from_shape and fit_from_bb'),
      ('algorithms', 'run of all algorithms'),
      ('training', 'SupervisedDescentFitter, SupervisedDescentAAMFitter')],
     'metamorphic: the shorter and the longer run from the same start',
     '''Equality of beginnings is exact (1e-9); where runs are interrupted or
     scales left out, rounding differs and the sensitivity of the same fit to
     relative changes of 1e-9 of the pixels sets the tolerance (and discards
     fits that amplify those beyond 1e-4 pixels).''')
