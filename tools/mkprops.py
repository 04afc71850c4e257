#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b) for a,b in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
M='src/lop/models/'; A='src/lop/active_learning/'; U='src/lop/utilities/'; K='src/lop/kernels/'; B='src/lop/probits/'

prop('C01','Training data keeps the meaning it was given',
 'After any sequence of additions, resets and predictions, a model holds exactly the points given since the last reset, in the order given, and every comparison, rating and score still refers to the point it was given for, with its value unchanged (absolute scores only clamped to [0.001, 0.999]). Nothing the caller does later to an array it passed in changes what the model holds, and an addition never changes the arrays or lists the caller passed.',
 ['histories','inputs'],'Every interleaving of pairwise, ordinal and absolute additions of any batch size and container type, with resets and predictions in between, for the preference GP and the linear preference model (and the plain GP for its own data).',
 'The tests add at most two or three fixed batches and look at a few entries; index shifting and aliasing bugs need particular sequences of types and batch sizes.',
 [M+'PreferenceModel.py',M+'GP.py'],[('index shift of pairs, ordinals and scores by the points already held',M+'PreferenceModel.py add'),('copy of the first batch',M+'PreferenceModel.py add'),('reset',M+'PreferenceModel.py reset')],
 state=[('X_train','points held, in order'),('y_train','labels per kind, indices into X_train')],observe=['model.X_train and model.y_train after each public call'])
prop('C02','A refused addition changes nothing',
 'Labels outside their domain (an ordinal rating below 1, an absolute score outside [0, 1], an unknown kind of label) are never accepted, and an addition that is refused leaves the points, the labels and the predictions exactly as they were, so a corrected retry gives the same model as if the refused call had never happened.',
 ['histories','fault_sequences','inputs'],'Every history of valid additions with invalid ones inserted at any position (also as the first call), any position of the bad value within the batch, each kind.',
 'Tests check only that an exception is raised for one bad value on a new model; they never look at the model afterwards.',
 [M+'PreferenceModel.py'],[('validation before anything is stored',M+'PreferenceModel.py add')],observe=['model.X_train, model.y_train, model.predict'])
prop('C03','Dominance comparisons are exactly those implied, and pruning keeps meaning',
 'When told to use dominance, adding points records, for each newly added point and each held point (older or newer) that it beats strictly in every coordinate, exactly one comparison in favour of the dominating point, and no other comparison beyond the ones given; without the option none is recorded. Removing points without labels (as adding prior points does) removes exactly the points that no comparison, rating or score refers to, keeps the rest in order with every label still attached to its point, and the reported prior points are exactly the surviving ones.',
 ['histories','inputs'],'Every sequence of additions (of all kinds, 1-d and multi-d points, ties and duplicates included), prior additions at any point of the history, prunings and resets.',
 'Tests use one fixed set of 2-d points and one prior call on an empty model.',
 [M+'PreferenceModel.py'],[('dominance pair generation',M+'PreferenceModel.py add'),('remove_without_reference',M+'PreferenceModel.py'),('add_prior / get_prior_pts',M+'PreferenceModel.py')],
 state=[('prior_idx','range of the prior points')],observe=['model.X_train, model.y_train, model.get_prior_pts()'])
prop('C04','Predictions always reflect all current data and nothing else',
 'Whatever sequence of additions, predictions, selections and resets came before, the predictions of a model are those of a new model given the same data: never those of a fit made before the last addition or reset. A model without data predicts its prior (zero mean, or the given mean function) for every point.',
 ['histories'],'Every interleaving of add, predict, reset and refused additions for the preference GP, the linear preference model and the plain GP.',
 'Caching bugs need an add between two predictions of a particular kind or a reset after a fit; tests mostly fit once.',
 [M+'PreferenceGP.py',M+'PreferenceLinear.py',M+'GP.py',M+'PreferenceModel.py'],[('lazy refit flag',M+'PreferenceModel.py add, PreferenceGP.py predict'),('prior prediction',M+'PreferenceGP.py predict, GP.py predict')],
 state=[('optimized','whether the cached fit is for the current data')],observe=['model.predict, model.predict_large, model(X)'])
prop('C05','Equivalent descriptions of the same evidence give the same estimates',
 'The estimates depend only on the evidence: writing a comparison the other way round with the opposite sign, listing comparisons in another order, listing the points in another order with the labels renumbered, or giving the data in several additions instead of one does not change the predicted means or variances. Reversing every comparison negates every mean.',
 ['inputs','histories'],'Every set of comparisons and ratings over small sets of points, each rewritten by the listed equivalences.',
 'A metamorphic relation over all inputs; no test compares two descriptions of the same data.',
 [M+'PreferenceGP.py',M+'PreferenceLinear.py',B+'PreferenceProbit.py'],[('sign convention of comparisons',B+'PreferenceProbit.py z_k and derivatives'),('index handling',M+'PreferenceModel.py add')],observe=['model.predict'])
prop('C06','Better evidence gives a higher estimate',
 'If one point has at least as much evidence in its favour as another everywhere (it beat every rival at least as often, lost to every rival at most as often, was rated no lower) and strictly more somewhere, its estimate is higher; two points with the same evidence get the same estimate. When some weights satisfy every comparison given to the linear preference model, its fitted weights satisfy them too.',
 ['inputs'],'Every small tournament of comparisons and every pair of ratings, over points far enough apart that the prior treats them alike; every set of comparisons some weights satisfy, rank-deficient ones included.',
 'Tests check the order of estimates for a handful of fixed functions; sign or weighting errors in one kind of label or one combination are not reached.',
 [M+'PreferenceGP.py',B+'PreferenceProbit.py',B+'OrdinalProbit.py',B+'AbsBoundProbit.py'],[('likelihood derivatives',B+'*.py'),('posterior mode search',M+'PreferenceGP.py find_mode')],observe=['model.predict at the training points'])
prop('C07','Selection returns exactly the queries asked for',
 'A selection returns exactly the number of points asked for, all different, all among the candidates, none of them previously selected, and takes points outside the preferred set only once every eligible preferred point is taken. When asked to always include the best, the first is an eligible preferred point with the highest estimate (unless something was already selected), the extra list of skipped points never overlaps the selection, and the selection fails with an error exactly when there are not enough eligible points.',
 ['inputs','configurations','histories'],'Every learner, every number of candidates, previously selected set, preferred set (count, list, set, Pareto, none), number asked for and option combination.',
 'Tests use a few fixed calls; the interaction of options (preferred set smaller than the number asked for, pairs, previous selections) is not explored.',
 [A+'ActiveLearner.py',A+'AcquisitionSelection.py',A+'AbsAcquisition.py',A+'MutualInfoLearner.py'],[('select loop',A+'ActiveLearner.py select'),('preferred set',A+'ActiveLearner.py get_prefered_set_of_pts'),('pair choice',A+'ActiveLearner.py pick_pair_from_metric')],observe=['model.select / learner.select results'])
prop('C08','Greedy learners take points in the order of their criterion',
 'The greedy learners pick, among the points eligible at each step, one that is best by their own criterion computed from the model\'s current prediction: highest mean, lowest mean, or highest mean plus the chosen weight times the standard deviation, and the score they report is that point\'s. Raising only a candidate\'s mean never makes it less preferred by the first and last.',
 ['inputs','histories'],'Every assignment of means and variances (ties, negatives, zero variances), weights, candidate subsets and numbers asked for.',
 'Tests check that one obvious maximum comes first; subset indexing errors need preferred or previous sets that are not a prefix.',
 [A+'BestLearner.py',A+'UCBLearner.py',A+'ActiveLearner.py'],[('criterion over the eligible subset',A+'BestLearner.py, UCBLearner.py select_greedy')],observe=['learner.select result and sel_metric'])
prop('C09','Mixed strategies choose the query type by their rule',
 'Each mixed strategy decides between a rating and a comparison by its documented rule (fixed start with ratings, alternation, scheduled probability by call number, or comparing the two scores), starts over when given a new model, asks for exactly one point when it chooses a rating and the number asked for otherwise, and returns what the chosen learner selected for this call. The scores compared are always computed for the current candidates, never left over from an earlier call.',
 ['histories','configurations'],'Every sequence of up to 20 calls with every outcome of the random draws and score comparisons, and re-attachment of a model at any point.',
 'The decision depends on a history of calls; tests call each strategy once or a few times and check only that something is returned.',
 [A+'RateChooseLearner.py',A+'MixedStrategy.py',A+'MixedTypeDecision.py'],[('select of each strategy',A+'RateChooseLearner.py, MixedStrategy.py, MixedTypeDecision.py'),('set_model',A+'*.py')],
 state=[('num_calls','calls since the model was attached'),('state','phase of the decision')],observe=['result of select; calls made on the two sub-learners'])
prop('C10','Asking changes nothing',
 'Predicting, selecting queries and reading hyperparameters never change the training data, labels, prior points or hyperparameters of the model, nor the candidate points, previous selections or preferred points passed in, and a prediction repeated after them gives the same result.',
 ['histories','configurations'],'Every sequence of asking operations after any history of additions, every learner including the mixed ones.',
 'No test compares the model before and after a selection.',
 [A+'ActiveLearner.py',A+'MixedTypeDecision.py',M+'PreferenceGP.py'],[('read-only predictions and selections',A+'*.py, '+M+'*.py'),('restoring the data after partial fits',A+'MixedTypeDecision.py determine_query_type')],observe=['public state before and after; repeated predictions'])
prop('C11','Cross-validation folds partition the data and restrict labels exactly',
 'Splitting into folds puts every point in exactly one fold, with as many folds as asked for (at most half the number of points, or none if that would leave fewer than two) and none larger than the number of points divided by the folds rounded up. Restricting labels to some points keeps exactly the labels whose points are all kept, in order and with their values, renumbered to the positions in the given list, and leaves the originals unchanged.',
 ['inputs'],'Every number of points, number of folds and comparison graph, every subset and order of kept points, each kind of label present or absent, every random choice.',
 'Tests check one random split; graphs that fill a fold early are not covered.',
 [U+'training_utility.py'],[('k_fold_x_y',U+'training_utility.py'),('get_y_with_idx',U+'training_utility.py')],observe=['return values'])
prop('C12','Sampled queries are distinct and the sampler follows its chain',
 'Sampling query sets returns exactly the number asked for, no two with the same members, each made of the asked number of different items from the given set. The Markov chain sampler returns exactly the number of samples asked for after the burn-in, each either the proposal made at that step or the previous state, moving whenever the proposal is at least as likely and never when it is impossible.',
 ['inputs','schedules'],'Every set size, number of sets and set size that is possible, and every sequence of proposals, likelihoods and random draws of the chain.',
 'Tests check shapes and loose statistics only.',
 [U+'sample_utility.py',U+'mcmc_sampling.py'],[('sample_unique_sets',U+'sample_utility.py'),('metropolis_hastings',U+'mcmc_sampling.py')],observe=['return values; calls made to the given functions'])
prop('C13','The Pareto front is exactly the non-dominated points',
 'The front returned for a set of points contains no point that another point beats (at least as good in every coordinate and better in one), every point left out is beaten or equalled by a point in the front, equal points are represented once, and the list and mask forms agree. The input is unchanged.',
 ['inputs'],'Every set of points in one or more dimensions with ties and duplicates.',
 'Tests use a few fixed sets without the tie structures that break the incremental algorithm.',
 [U+'pareto.py'],[('get_pareto',U+'pareto.py')],observe=['return value'])
prop('C14','Hyperparameters round-trip and reach the part they belong to',
 'Reading the hyperparameters and writing them back changes nothing; writing a vector and reading it back gives that vector; and each entry belongs to one fixed part (the likelihoods that have data, in a fixed order, then the kernel when it is included, left before right in combined kernels), so writing it changes that part only. Drawing random hyperparameters gives a vector of the same layout, and leaves parts that are not being optimized alone; searching for hyperparameters leaves the data and other parts alone.',
 ['configurations','histories'],'Every combination of data kinds present, optimisation flags and kernel expression, with writes, reads, additions and random draws in any order.',
 'The layout depends on which data kinds are present; tests use pairwise data only.',
 [M+'PreferenceModel.py',M+'PreferenceGP.py',K+'KernelFunc.py',B+'*.py'],[('get_hyper/set_hyper/randomize_hyper',M+'PreferenceGP.py, PreferenceModel.py'),('combined kernels',K+'KernelFunc.py DualKern')],observe=['get_hyper/set_hyper/get_param and the values of the parts'])
prop('C15','Comparisons generated from values or choices state the right winner',
 'Comparisons generated from a choice, from values or from a ranking name each required pair of different items exactly once (the chosen item against every other; the reference against every other; every unordered pair) with the larger-valued or chosen item as the winner, and a recorded preference always says that its first item is better.',
 ['inputs'],'Every assignment of values (ties, negatives), every choice, every reference and list of items.',
 'Tests cover two or three fixed inputs per generator; ties and repeated or reordered indices are not covered.',
 [U+'preference_pairs.py',U+'synthetic_user.py'],[('get_dk, preference, gen_pairs_from_idx, ranked_pairs_from_fake, generate_fake_pairs, generate_ranking_pairs',U+'preference_pairs.py')],observe=['return values'])
prop('C16','Synthetic users answer within the query and the perfect one is always right',
 'A synthetic user always chooses an item of the query, the comparisons it gives have its choice as winner against every other item, and its ratings lie in [0, 1]. The perfect user\'s choice always has the highest value and its ratings are higher for higher values; the noisy user\'s choice probabilities are a probability distribution over the items of each query, ordered like the values, and depend only on that query; a user tuned to a target accuracy chooses the better of two items with about that average probability and rates the best and worst items at the ends of its range.',
 ['inputs','histories'],'Every query size and value assignment, including very large, very small, equal and negative values, batches of queries, and any noise level.',
 'Tests are statistical on one fixed reward set.',
 [U+'synthetic_user.py',U+'human_choice_model.py',U+'HumanChoiceUser2.py'],[('choose/choose_pairs/rate',U+'synthetic_user.py'),('p_human_choice',U+'human_choice_model.py')],observe=['return values'])
prop('C17','Choice and rating likelihoods are coherent probabilities',
 'The probability that the first of two items is preferred and the probability that the second is add to one, are equal when the items are, and grow with the difference of their values; the probabilities of all ordinal ratings at a value add to one and higher values favour higher ratings; the table of all pairwise probabilities agrees with the single ones, higher values favour higher absolute scores, and a score is as likely at a value as the mirrored score at the mirrored value. The log likelihood of data is a number however far the values are from the labels, and the sum over its labels, also when given along with the derivatives.',
 ['inputs'],'Every pair of values on a grid including extremes, each noise setting, every number of ordinal levels, every list of labels.',
 'Tests compare with a few precomputed numbers.',
 [B+'PreferenceProbit.py',B+'OrdinalProbit.py',B+'AbsBoundProbit.py',M+'PreferenceModel.py'],[('likelihood, likelihood_all_pairs, log_likelihood',B+'*.py'),('log_likelyhood_training',M+'PreferenceModel.py')],observe=['return values'])
prop('C18','Predictions are per point and do not depend on how points are batched',
 'The prediction for a point is the same whichever other points are asked for in the same call and in whichever order, predicting many points at once gives one mean and one non-negative variance per point in the order asked, equal to predicting them separately, and the best candidate reported is one with the highest predicted mean.',
 ['inputs','histories'],'Every number of points (around and beyond the internal chunk size), order, repetition, and model with or without data.',
 'Tests use one batch size below the chunk size.',
 [M+'PreferenceGP.py',M+'PreferenceLinear.py',M+'GP.py',M+'Model.py',K+'RBF_kern.py'],[('chunked prediction',M+'PreferenceGP.py predict_large'),('select_best',M+'Model.py')],observe=['predict, predict_large, call, select_best'])
prop('C19','Kernels compose pointwise and build symmetric covariance matrices',
 'The value of a sum or product of kernels at any two points is the sum or product of the values of its parts, in any nesting; the covariance matrix of two sets of points has at each row and column the kernel value of that pair of points (plus only the noise of the kernel on the diagonal when both sets are the same); values are symmetric, and gradients have one entry per parameter in the order of the parameters.',
 ['inputs','configurations'],'Every kernel expression up to a depth over the provided kernels, every pair of small point sets in one or more dimensions.',
 'Tests compare a few combinations at a few points.',
 [K+'KernelFunc.py',K+'RBF_kern.py',K+'LinearKern.py',K+'PeriodicKern.py',K+'RBF_kern_zeroed.py'],[('DualKern',K+'KernelFunc.py'),('cov',K+'*.py')],observe=['cov, call, gradient, cov_gradient'])
prop('C20','An active learning session loses and invents nothing',
 'In a session that repeatedly selects queries, asks a user and adds the answers, the model ends up holding exactly the points asked about in order and the answers given about them, a rating query adds ratings and a comparison query adds comparisons won by the chosen item, and no query repeats an item within itself.',
 ['histories','configurations'],'Every session length, learner, query size, user and interleaving of rating and comparison queries.',
 'Tests run a session for one seed and check one loose numeric bound at the end.',
 [M+'PreferenceModel.py',A+'ActiveLearner.py',U+'synthetic_user.py'],[('select, choose_pairs, rate, add composed',M+'Model.py select, '+U+'synthetic_user.py choose_pairs')],observe=['the public calls of the loop'])
prop('C21','Synthetic reward functions evaluate each point on its own',
 'A synthetic reward function gives one value per row of a batch (and per row of each query of a batch of queries), equal to its value on that row alone, and gives the same value every time it is asked for the same point; the linear one is a weighted sum with weights fixed at creation, and the weighted-minimum and -maximum ones take the smallest and largest weighted coordinate.',
 ['inputs','histories'],'Every batch size, dimension and order of queries.',
 'Tests look at a few batches only.',
 [U+'FakeFunction.py'],[('calc / __call__',U+'FakeFunction.py')],observe=['return values'])
prop('C22','Numeric derivatives of the likelihoods and kernels are accurate',
 'The first and second derivatives and hyperparameter gradients used in fitting equal the mathematical derivatives of the likelihoods and kernels, to numerical accuracy.',
 ['inputs'],'Every parameter and latent value.',
 'Tests compare numerical differences at a few points.',
 [B+'*.py',K+'*.py'],[('derivatives, grad_hyper, calc_W_dF, cov_gradient',B+'*.py, '+K+'*.py')])
prop('C24','Each kernel has the shape it is named for',
 'The radial kernel depends only on the distance between two points, is sigma squared at zero distance and falls off as exp(-d^2 / 2 l^2); the linear kernel is the stated polynomial of the two points; the periodic kernel repeats with its period; the zeroed radial kernel is zero at its zero point.',
 ['inputs','configurations'],'Every pair of points in one or more dimensions and every parameter value on a grid.',
 'Tests compare a few precomputed numbers at one parameter setting.',
 [K+'RBF_kern.py',K+'LinearKern.py',K+'PeriodicKern.py',K+'RBF_kern_zeroed.py'],[('call / cov of each kernel',K+'*.py')],observe=['kernel(u, v), cov'])
prop('C23','Predictions equal the closed-form Laplace approximation at the mode',
 'After fitting a preference GP, the fitted values are a mode of the posterior (they equal the prior covariance times the slope of the log likelihood), and predicted means, variances and covariances equal the closed-form Laplace approximation there; for the plain GP they equal the exact posterior under its kernel, mean function and training noise, and for the linear preference model the fitted weights are a stationary point of its objective.',
 ['inputs'],'Every data set of any mix of labels, kernel expression, prior mean and set of points asked for.',
 'Tests look at loose bounds at fixed seeds; a wrong posterior still passes them.',
 [M+'PreferenceGP.py',M+'GP.py',M+'PreferenceLinear.py'],[('find_mode / optimize',M+'PreferenceGP.py, PreferenceLinear.py'),('predict',M+'PreferenceGP.py, GP.py')],observe=['model.F, predict (means, variances, cov)'])
prop('C25','Information-driven learners ask what their criterion rates highest',
 'Among the eligible points the information-driven learners pick one that is best by their own criterion computed from the current model and samples, and the score they report is its score: the information gain of the query (mutual information of the answer and the sampled rewards), the mean and spread of the query (generalized variance of its points plus weighted means), the expected alignment of samples that would give the same answer, or how much the answer is expected to tell about which candidate is the best. The information gain of a query is never negative nor more than the logarithm of its size; how well two samples are aligned does not depend on which is named first, and samples that agree are aligned best (fully, by the correlation, distance and rank measures); all scores are numbers, for samples of any size and points that repeat. Representative queries are made of different given points, as many as asked for.',
 ['inputs','configurations'],'Every set of sampled rewards (repeated, equal and very large ones included), alignment measure, candidate set, previous selection and query size.',
 'Tests check only that some points are returned, or compare one criterion on one fixed input.',
 [A+'MutualInfoLearner.py',A+'GV_UCBLearner.py',A+'BayesInfoGain.py',A+'AcquisitionSelection.py',A+'AcquisitionBase.py',A+'AbsAcquisition.py'],[('calc_info_gain, select_greedy',A+'MutualInfoLearner.py'),('select_greedy',A+'GV_UCBLearner.py'),('select_greedy, select_pair',A+'AcquisitionSelection.py'),('select_pair, select_greedy, calc_H_B_Q',A+'BayesInfoGain.py'),('alignment, alignment_between, get_representative_Q',A+'AcquisitionBase.py')],observe=['learner.select result and sel_metric; alignment, calc_info_gain return values'])
prop('C26','The probability of being the best is a distribution that follows the estimates',
 'The probabilities that each of several candidates is the best lie between 0 and 1 and add to one, also before they are normalised when they are computed in full. They follow the candidates when those are listed in another order, do not depend on the zero or the unit of the estimates, are equal for candidates the model does not tell apart, grow with the estimate of the candidate, and are not changed by a candidate that has no chance; of two candidates each has the probability that it exceeds the other. From sampled weights the probability is the share of the samples in which the candidate has the highest value, with weights sampled from the likelihood of the data. The probability that normal variables are all below zero is their product if they are independent (or taken to be), is exact for pairs that depend on each other and on nothing else when pairs are looked at, and stays within the bounds that every joint distribution keeps; the estimates passed in are left as they were.',
 ['inputs','configurations'],'Every set of means and covariances, way of computing the joint probability, order of candidates and set of sampled weights.',
 'The tests have no case for these probabilities (they need a library that is rarely installed).',
 [A+'ActiveLearner.py','src/lop/utilities/probability_utility.py'],[('p_B_pref_gp, p_B_pref_linear',A+'ActiveLearner.py'),('calc_cdf','src/lop/utilities/probability_utility.py')],observe=['return values of p_B_pref_gp, p_B_pref_linear and calc_cdf'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
