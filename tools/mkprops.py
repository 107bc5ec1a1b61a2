import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
M='pystruct/models/'; L='pystruct/learners/'; I='pystruct/inference/'; U='pystruct/utils/'
p('C01','A model scores a labelling by the inner product with its joint feature',
 "For every model family (unstructured binary/multi-class, multi-label, chain, grid, directional grid, graph, edge-feature graph, latent-variable and multi-type models), every input, every labelling and every weight vector of the right size, the sum of the unary and pairwise potentials that inference maximises equals the inner product of the weights with the joint feature vector, whose length is exactly the model's advertised size. The joint feature of a relaxed labelling is the linear extension of that of integral labellings: on one-hot marginals it equals the joint feature of the labelling. For edge features declared symmetric or antisymmetric the equality is required of weights that have that symmetry, and the pairwise part of the joint feature itself has it.",
 ['inputs','configurations'],'all graph sizes, edge sets, feature values, labellings, weights, numbers of states/features and constructor options',
 'Tests compare the two sides on a handful of fixed toy graphs and two or three states; index packing errors show only for unequal numbers of states and features, duplicate or reversed edges, several edge features, or asymmetric weights.',
 [M+x for x in ['graph_crf.py','edge_feature_graph_crf.py','grid_crf.py','chain_crf.py','multilabel_svm.py','unstructured_svm.py','latent_graph_crf.py','latent_node_crf.py','node_type_edge_feature_graph_crf.py','typed_crf.py']]+['src/utils.pyx',U+'inference.py'],
 [('joint_feature of each model',M),('unary and pairwise potential construction of each model',M)],['joint_feature, size_joint_feature, arguments of the inference backend'])
p('C02','Loss-augmented inference maximises score plus loss',
 "For every model, input, ground truth and weights, the objective that loss-augmented inference hands to the inference backend (or maximises directly in the unstructured models) equals, for every candidate labelling, the model's score of that labelling plus the model's loss between ground truth and candidate, up to a constant independent of the candidate. The unstructured models return a valid label that attains the maximum, also when candidates tie.",
 ['inputs','configurations'],'all inputs, ground truths, weights, class weights, candidate labellings',
 'Tests check a few random problems with uniform class weights and no ties; class-weight indexing (by truth, not by candidate), latent-to-label mapping and boundary scores are not reached.',
 [M+x for x in ['crf.py','base.py','unstructured_svm.py','latent_graph_crf.py','latent_node_crf.py','typed_crf.py']]+['src/utils.pyx'],
 [('in-place loss augmentation of unaries','src/utils.pyx'),('loss_augmented_inference of each model',M)],['arguments of the inference backend; returned labels'])
p('C03','Losses are weighted Hamming losses, bounded and zero exactly on agreement',
 "Every model's loss equals the sum over positions where prediction and truth differ of the class weight of the true label (weight one when no class weights are given; label disagreement, not hidden-state disagreement, for latent models), so it is non-negative, zero when the labellings agree, and never exceeds the model's maximum loss for that truth. The loss of one-hot relaxed marginals equals the loss of the labelling they encode and the relaxed loss is affine in the marginals. A learner's score is one minus the total loss divided by the total maximum loss.",
 ['inputs','configurations'],'all labellings, class weights, relaxed marginals, batch sizes',
 'Tests use two or three labels, mostly without class weights, and compare a few numbers.',
 [M+x for x in ['base.py','unstructured_svm.py','grid_crf.py','latent_graph_crf.py','latent_grid_crf.py','latent_node_crf.py','typed_crf.py']]+[L+'ssvm.py'],
 [('loss / continuous_loss / max_loss',M),('score',L+'ssvm.py')],['loss, continuous_loss, max_loss, score'])
p('C04','Batch and learner-level operations equal the per-sample ones, in order',
 "For every model and every batch, the batch joint feature is the sum of the per-sample joint features (with the class-weight rescaling of the true label where that option is on), and batch loss, batch inference and batch loss-augmented inference return, in sample order, exactly what the per-sample operation returns. Predicting with a learner returns one prediction per sample in order, whatever the number of jobs, with each sample's own constraints when constraints are given.",
 ['inputs','configurations'],'all batch sizes including one sample, all label patterns (classes absent or repeated), class weights, options',
 'Tests compare batches on one dataset with balanced classes; specialised batch code (masking, scatter-accumulation) differs only for particular label patterns.',
 [M+'base.py',M+'unstructured_svm.py','src/utils.pyx',L+'ssvm.py'],
 [('generic batch loops',M+'base.py'),('vectorised batch code',M+'unstructured_svm.py'),('accumulation kernel','src/utils.pyx')],['batch_* methods, predict'])
p('C05','Max-product is exact on chains and forests',
 "For every chain (edges linking consecutive nodes in order) and every forest, with any unary and pairwise potentials (including ties, isolated nodes, no edges, reversed edge orientation), max-product inference returns a labelling whose total score is the maximum over all labellings. Graphs that are not chains are never treated as chains, and a graph is treated as a forest only if it has no cycle.",
 ['inputs'],'all chain lengths and forests, all numbers of states, all potentials',
 'Tests run random potentials on a few chains and one or two trees without ties; they cannot cover all lengths, ties and degenerate graphs.',
 [I+'_viterbi.pyx',I+'maxprod.py',U+'graph_functions.py'],
 [('Viterbi recursion and backtracking',I+'_viterbi.pyx'),('tree message passing',I+'maxprod.py'),('chain / forest tests',I+'maxprod.py, '+U+'graph_functions.py')],['inference_max_product / inference_dispatch results'])
p('C06','The linear program encodes exactly the local polytope and the negated score',
 "For every graph and potentials, the linear program given to the LP solver has as equality constraints exactly: unary marginals of each node sum to one, and pairwise marginals of each edge marginalise to the unary marginals of its end nodes (one redundant constraint per edge may be omitted), with all variables non-negative and nothing else; its objective at any integral labelling is minus the score of that labelling. Unary and pairwise marginals are returned in the same node, edge and state order as the input.",
 ['inputs'],'all numbers of nodes, edges, states; all edge lists (any orientation, repeated edges); all potentials',
 'Tests solve a few toy LPs and compare rounded solutions; wrong rows can be invisible when the optimum is integral.',
 [I+'linear_programming.py',I+'inference_methods.py'],
 [('constraint triples and objective',I+'linear_programming.py'),('sign and reshaping',I+'inference_methods.py')],['arguments of the LP solver; returned marginals'])
p('C07','The inference front end routes, decodes and reports energies faithfully',
 "For every supported method name (plain or with options) the front end passes potentials, edges and options unchanged to that method, the same way whether a single pairwise matrix or one matrix per edge is given, and rejects unknown names; options configured together with the method's name take precedence over those of the call. The models' inference and loss-augmented inference ask it once, for the configured method, with the caller's relaxation and energy flags and constraints. Returned labellings are the per-node argmax of the solver's unary marginals (relaxed marginals are returned in the input's shape when asked for and available), and a returned energy from an LP-type solver is minus the solver's maximised score for both backends consistently. Scoring a labelling with the public energy function gives the sum of the selected unary and pairwise entries.",
 ['inputs','configurations'],'all methods, option dictionaries, flags, potentials, pairwise formats, solver answers',
 'Tests exercise each backend on small problems, with default options; combinations of flags and pairwise formats and fractional solver answers are hardly reached.',
 [I+'inference_methods.py',I+'common.py'],[('dispatch and result decoding',I+'inference_methods.py'),('parameter validation',I+'common.py')],['inference_dispatch, compute_energy'])
p('C08','Model operations never modify their inputs',
 "Computing joint features, losses, inference, loss-augmented inference, latent completion or batch versions of these leaves the caller's input features, edges, edge features, ground-truth labels, candidate labels and weight vector unchanged, for every model and every input. Utility functions on grids, graphs and symmetric matrices likewise leave their arguments unchanged.",
 ['inputs','configurations'],'all inputs, labels, weights and model options',
 'Tests rarely compare inputs before and after; aliasing between a returned or intermediate array and an input appears only for particular layouts (views without copy).',
 [M,I,U,'src/utils.pyx'],[('in-place augmentation works on freshly computed arrays only',M+'crf.py'),('private copies before destructive dynamic programming',I+'maxprod.py')],['arrays passed by the caller'])
p('C09','Constraint generation reports consistent feature difference, loss and slack',
 "For every model, sample and weights, the constraint finder returns a candidate labelling, the difference between the joint features of truth and candidate (negated candidate features alone when the difference is not requested), the model's loss between truth and candidate, and a slack equal to the larger of zero and loss minus the inner product of weights and feature difference; for latent models truth means the completed hidden labelling. The reported primal objective is half the squared weight norm plus C times the sum of those slacks.",
 ['inputs','configurations'],'all models, samples, weights, given or computed candidates, integral or relaxed, C',
 'Tests check the finder indirectly through convergence of toy training runs; latent and relaxed branches with hidden states differing in number are not compared.',
 [U+'inference.py'],[('find_constraint, find_constraint_latent, objective_primal',U+'inference.py')],['return values'])
p('C10','Cutting-plane learners solve the dual of the stated problem',
 "At every iteration of the n-slack and one-slack learners the quadratic program handed to the solver is the dual of the regularised margin problem over the current working set: Gram matrix of the feature differences, negated losses, multipliers non-negative (up to tiny regularisation), and the multipliers of each sample sum to at most C (n-slack), or all multipliers together sum to C times the number of samples (one-slack); weights are then the multiplier-weighted sum of the feature differences, and weights under a sign restriction obey it. The working set only ever holds constraints that were generated for that sample (n-slack) or batch (one-slack), with multipliers and constraints staying aligned when constraints are added or pruned. Constraints given to the n-slack learner are in its first program; the final working set is one a program was solved for; training stops before max_iter only if no sufficiently violated new constraint was found or the objective has converged; the last entries of the curves are the dual and primal objectives of the final weights.",
 ['histories','configurations'],'all working sets, sample counts, C values, restriction sets, pruning histories',
 'Tests only look at final accuracy or constraint counts on a few datasets; a wrong bound, sign or misaligned pruning still classifies toy data well.',
 [L+'n_slack_ssvm.py',L+'one_slack_ssvm.py'],[('QP assembly and recovery of weights',L+'n_slack_ssvm.py, '+L+'one_slack_ssvm.py'),('pruning',L)],['arguments of the QP solver; learner weights'])
p('C11','Subgradient learners take the documented steps and averages',
 "Every update of the subgradient learners moves the weights by the decayed learning rate times the momentum-smoothed gradient: the feature difference between truth and candidate minus the weights divided by C times the number of samples. The feature difference is that of the current sample and its loss-augmented candidate at the current weights (online; for latent learning between the completed truth and the candidate), the mean over the batch (mini-batch, and parallel latent learning), or the sum over the violated samples of the batch (parallel). Candidates are asked for with relaxation. Each pass visits every sample once, in order; there are max_iter passes, fewer only if asked to stop after a pass in which no constraint was violated. With averaging on, the learned weights are the documented average of the iterates (step k weighted by k, or k squared), and the objective curve of the non-latent learner records the primal objective of the learned weights.",
 ['histories','configurations'],'all sequences of samples and slacks, learning-rate schedules, momentum, averaging modes, batch sizes',
 'Tests check accuracy after training; a slightly wrong step, schedule or average still separates the toy data.',
 [L+'subgradient_ssvm.py',L+'subgradient_latent_ssvm.py'],[('_solve_subgradient',L+'subgradient_ssvm.py'),('epoch loops',L)],['weights after each step'])
p('C12','Frank-Wolfe keeps weights, dual variables and step sizes consistent',
 "Throughout Frank-Wolfe training the global weights equal the sum of the per-sample weights and the global loss term equals the sum of the per-sample loss terms, every exact line-search step lies in [0,1] and does not decrease the dual objective, and every default step lies in (0,1] (2n/(k+2n) after k block steps over n samples, 2/(k+2) after k batch steps). The recorded primal, dual and gap values are those of the weights at that time (the final dual value that of the returned weights), the averaged weights are a convex combination of iterates (the iterate after k further ones enters with the share 2/(k+2)), and every fit starts from zero weights and loss terms.",
 ['histories','configurations'],'all sample orders, losses and feature differences, C values, batch and block-coordinate modes, averaging on and off',
 'Tests check final accuracy and decreasing curves on two datasets.',
 [L+'frankwolfe_ssvm.py'],[('block-coordinate and batch updates',L+'frankwolfe_ssvm.py')],['weights, dual and primal curves'])
p('C13','The perceptron update and its average follow the documented rule',
 "For every sequence of samples and predictions, each (online or batch) perceptron update adds the effective learning rate times the feature difference between truth and prediction, nothing when the prediction equals the truth, and the recorded loss curve is the average loss of each pass. With averaging enabled the returned weights are the mean of the weights over the averaged steps.",
 ['histories','configurations'],'all data, predictions, decay exponents, averaging start points, batch/online modes',
 'Tests train on a few separable sets and look at accuracy.',
 [L+'structured_perceptron.py'],[('fit',L+'structured_perceptron.py')],['weights after training; loss curve'])
p('C14','Latent completion is always consistent with the observed labels',
 "For every latent-variable model, input, observed labelling and weights, completing the hidden states yields states whose mapping back to labels is exactly the observed labelling, including when the inference backend returns something inconsistent (where a model refuses such an answer it raises an error and returns nothing); the map from hidden states to labels assigns each label a contiguous block of exactly its declared number of states. The initial hidden labelling has the same property.",
 ['inputs','configurations'],'all inputs, labels, weights, numbers of hidden states per label (equal or not), backend answers',
 'Tests use two labels with equal numbers of states and well-behaved potentials.',
 [M+'latent_graph_crf.py',M+'latent_grid_crf.py',M+'latent_node_crf.py'],[('latent, label_from_latent, init_latent',M)],['latent, init_latent, label_from_latent'])
p('C15','Grid edges enumerate each neighbouring pair exactly once, by direction',
 "For every grid size, the grid edge list contains each horizontally and vertically adjacent pair of cells exactly once (and, for the eight-neighbourhood, each diagonal pair exactly once), no other pair and no self loop, with indices in row-major order; the per-direction lists partition that list in the same order, and the edge features mark exactly each edge's direction. Any other neighbourhood is rejected. Chain edges link exactly the consecutive nodes in order.",
 ['inputs','configurations'],'all grid heights and widths including one, both neighbourhoods; all chain lengths',
 'Tests look at one or two small grids with the four-neighbourhood.',
 [U+'graph.py',M+'grid_crf.py',M+'chain_crf.py'],[('make_grid_edges, edge_list_to_features, make_chain_edges',U+'graph.py, '+M+'chain_crf.py')],['returned edge arrays'])
p('C16','Multi-type graph labels and features are packed consistently',
 "For every multi-type configuration and instance, flattening per-type labels and unflattening them are mutually inverse, flat labels of each type lie in that type's own contiguous range, and type indices and offsets are used consistently between node features, edge features, weights and labels. Instances or configurations with inconsistent numbers of types, features, states, edge features, or label ranges are rejected.",
 ['inputs','configurations'],'all numbers of types, states and features per type, node counts, edge sets',
 'Tests use two or three fixed two-type graphs.',
 [M+'typed_crf.py',M+'node_type_edge_feature_graph_crf.py'],[('flattenY / unflattenY, type offsets, validation',M+'typed_crf.py')],['flattenY, unflattenY, initialize, joint_feature'])
p('C17','Saving a learner never alters it and loads back the same model',
 "Periodic saving of a learner writes at exactly the multiples of the configured period (and at the end), only to the configured file name with the iteration (or 'final') substituted, and loading that file gives back the learner's state at the time of the last write, except for the inference cache, which is not stored. The learner being trained is left exactly as it was, including its inference cache, even if writing fails.",
 ['histories','fault_sequences'],'all iteration numbers, saving periods, file-name patterns, learners with or without caches, write failures',
 'Tests save one small learner; failure paths and file-name patterns at the end of training are not reached.',
 [U+'logging.py'],[('SaveLogger',U+'logging.py')],['files written; learner attributes'])
p('C18','Wrongly sized inputs, weights and configurations are rejected',
 "For every structured model, weights whose size differs from the advertised one, inputs whose number of features (or edge features, or edge-feature rows) differs from the configured one, class weights of the wrong length, and training data whose numbers of features or states contradict explicit configuration raise an error instead of producing a result; data that agree are accepted and set the unset sizes to those of the data.",
 ['inputs','configurations'],'all sizes that disagree or agree',
 'Tests try one wrong size for a few of the models.',
 [M+x for x in ['base.py','crf.py','graph_crf.py','edge_feature_graph_crf.py','chain_crf.py','unstructured_svm.py','multilabel_svm.py','latent_graph_crf.py','typed_crf.py']],[('size checks and initialize',M)],['exceptions; configured sizes after initialize'])
p('C19','The inference cache of the one-slack learner is bounded and truthful',
 "Each sample's cache in the one-slack learner holds only results that inference produced for that sample, each at most once, and at most the configured number of them (when it is full the oldest is dropped), with the features and loss of that result. The constraint built from the cache uses for each sample the cached result with the largest loss-augmented score; it is used only if it is violated by at least the tolerance (cache_tol if a number is given, tol otherwise) more than the current slack and is not already in the working set (with cache_tol='auto' also only while the last gap is not below the adapted tolerance). Otherwise fresh inference is run and its results are cached.",
 ['histories','configurations'],'all cache sizes, candidate sequences, weights, thresholds',
 'Tests count constraints on one dataset.',
 [L+'one_slack_ssvm.py'],[('_update_cache, _constraint_from_cache',L+'one_slack_ssvm.py')],['inference_cache_; constraints'])
p('C20','Packing and unpacking symmetric matrices are inverse and adjoint',
 "For every size, unpacking a packed symmetric matrix gives a symmetric matrix whose packing without symmetrisation is the original vector, packing then unpacking a symmetric matrix returns it, and for any square matrix the inner product of weights with its packed symmetrised form equals the inner product of the unpacked weights with the matrix.",
 ['inputs'],'all matrix sizes and entries',
 'Tests check one or two small random matrices.',
 [U+'inference.py'],[('expand_sym, compress_sym',U+'inference.py')],['return values'])
p('C21','Training reaches the optimum of the stated convex problem',
 "Given exact inference and enough iterations, the cutting-plane, Frank-Wolfe and subgradient learners end with weights whose regularised primal objective is within the requested tolerance of the optimum.",
 ['histories','inputs'],'all training sets and parameters','Tests look at accuracy on toy data.',
 [L],[('training loops',L)])
p('C22','External solvers return optimal or valid solutions',
 "The solutions returned by the external MAP, LP and QP solvers (AD3, QPBO, OpenGM, the interior-point LP and QP) are optimal or valid relaxations of the problem they were given.",
 ['inputs'],'all problems','Tests compare solvers on random toy graphs.',
 [I+'inference_methods.py'],[('external solver calls',I)])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P))
