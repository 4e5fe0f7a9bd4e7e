"""Writes properties.jsonl. Run by hand when a property changes."""
import json
from pathlib import Path

M = "irtorch/models/base_irt_model.py"
U = "irtorch/utils.py"
IU = "irtorch/_internal_utils.py"
JML, MML, AE, VAE = (f"irtorch/estimation_algorithms/{n}.py" for n in ("jml", "mml", "ae", "vae"))
DS = "irtorch/irt_dataset.py"
LD = "irtorch/load_dataset.py"
EV = "irtorch/evaluator.py"
RS = [f"irtorch/rescale/{n}.py" for n in ("flow", "link_common_items", "rank_cdf", "reverse", "rotate", "bit")]


def prop(i, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    return {
        "id": i, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {
            "files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(observe), "hook_needed": hook,
        },
    }


P = [
    prop(
        "C01", "An interrupted save never destroys or tears a saved model",
        "Whatever interrupts saving a model to a file (death of the process, power loss, a full disk, an I/O error, an interrupt, another process saving to or loading from the same file), the file afterwards loads as one complete model: the one saved there before or the one being saved. "
        "When saving returns normally the file holds exactly the new model, a failure to store it is reported to the caller, and saving again once the trouble is over succeeds. Other files in the folder and the saved model itself are not affected.",
        ["crash_points", "fault_sequences", "schedules", "histories"],
        "every system call of a save as the point of failure, every kind of disk fault there, every history of saves and loads on one or two files, every interleaving of simultaneous saves and loads",
        "The tests save once to a healthy disk and load it back; no test interrupts a save or lets two of them overlap.",
        [M, IU], [("save_model replaces the file only once everything is stored", f"{M}:save_model"), ("write to a temporary file, fsync, rename", f"{IU}:atomic_write")],
        [("model file", "the only durable state of a fitted model", f"{M}:save_model")], ["load_model in a new process", "content of the folder"],
    ),
    prop(
        "C02", "Saving, restarting and loading restores the same fitted model",
        "A model that was saved and is loaded into a model built in the same way, in a new process, answers everything as the saved one did: parameters, fitted algorithm with its latent scores and encoder, scale transformations, probabilities, latent scores and transformed scores are the same, whatever the receiving model held before. "
        "A load that fails (missing, truncated or corrupted file, file of another model, read error, interrupt) raises an error and leaves the receiving model exactly as it was.",
        ["configurations", "histories", "fault_sequences"],
        "every model type, algorithm and stack of scale transformations; every history of the receiving model; every read fault and truncation point",
        "The tests save and load a single unscaled model into a fresh one and never see a damaged file or a failing read.",
        [M], [("one checkpoint holds parameters, algorithm and scales", f"{M}:save_model"), ("load everything or nothing", f"{M}:load_model")],
        [("algorithm, scale", "parts of a fitted model that are not parameters", f"{M}:__init__")], ["latent_scores", "transform_theta", "item_probabilities"],
    ),
    prop(
        "C03", "A failed or interrupted data set download never poisons the cache",
        "Whatever happens to the network, the disk or the process while a downloadable data set is fetched, unpacked, processed and cached, the call either returns exactly the processed data of the served file or raises an error. "
        "After any such history a later call on a healthy machine succeeds and returns exactly that data, and nothing but complete data is ever taken from the cache.",
        ["fault_sequences", "crash_points", "histories"],
        "every network fault, every system call as the point of a crash, power loss or disk error, every sequence of failed and successful calls",
        "The only test of this needs the network and runs the good case once.",
        [LD, IU], [("download into a temporary folder", f"{LD}:big_five"), ("the cache file appears only once it is complete", f"{IU}:atomic_write")],
        [("cache file", "processed data kept between processes", f"{LD}:big_five")], ["return value of the call", "the next call"],
    ),
    prop(
        "C04", "Cached, concurrent and first time data set loads agree",
        "Every process that loads a downloadable data set gets the same data as an independent processing of the served file by the documented recipe, whether it came first, came later, or ran at the same time as others, some of which may fail or die. "
        "Once a call has succeeded, calls need no network. A process that meets no fault itself is never made to fail by what happens to the others.",
        ["schedules", "histories", "fault_sequences"],
        "every interleaving of 2-4 processes at their disk and network operations, with faults in some of them",
        "The test suite has a single process and no network.",
        [LD], [("existence of the cache decides between reading and downloading", f"{LD}:big_five"), ("own temporary folder per call", f"{LD}:big_five")],
        [("cache file", "shared between processes", f"{LD}:big_five")], ["return values", "requests seen by the server"],
    ),
    prop(
        "C05", "Cross-validation results do not depend on how the work is scheduled",
        "Cross-validation returns one row per hyperparameter combination, in the order of the grid, with the hyperparameters as given and the average held out log-likelihood over the requested number of folds of models that were trained from the supplied untrained model on exactly the other folds; every respondent is held out exactly once. "
        "For the same random seed the table is the same with and without multiprocessing, with any number of workers, in whatever order they run and finish.",
        ["schedules", "configurations"],
        "every assignment of tasks to workers and every order of their progress, every number of workers, grids, folds and algorithms",
        "The tests replace the workers by mocks or run one fold combination and look at the shape of the table.",
        [U], [("shuffle and split into folds", f"{U}:_prepare_cross_validation_data"), ("one job per combination with its own seed", f"{U}:_run_multiprocessing"), ("every fold trains a copy", f"{U}:_cv_param_combination")],
        [], ["the returned table", "data the model is trained on and scored on"],
    ),
    prop(
        "C06", "Cross-validation survives worker failures and leaves the caller alone",
        "If starting workers fails or a worker fails or is killed, cross-validation returns the table it would have returned without the failure, and if the failure persists it raises it. "
        "In all cases, failed or not, the supplied model, algorithm, data and hyperparameters, the thread count and the multiprocessing start method of the process are as before, and jumps of the clock change nothing.",
        ["fault_sequences", "schedules"],
        "every worker, task and training step as the point of failure, failures to start workers, jumps of the clock",
        "The tests never make a worker fail.",
        [U, "irtorch/timer.py"], [("fall back to sequential processing", f"{U}:_run_multiprocessing"), ("thread count restored in finally", f"{U}:_run_multiprocessing"), ("jobs work on copies", f"{U}:_run_sequential")],
        [], ["the returned table or the error", "state of the caller's objects and process"],
    ),
    prop(
        "C07", "Fitting several models at once gives each its own independent result",
        "Fitting several models in parallel returns one fitted model per supplied model, in the same order, each as if it had been fitted alone on the same data, for any number of workers and any order in which they progress; for the same random seed the results are the same. "
        "The supplied models, the algorithm, the data and the thread count of the process stay as they were, also when a worker fails or is killed, in which case the failure reaches the caller.",
        ["schedules", "fault_sequences", "configurations"],
        "every assignment and interleaving of jobs, every number of workers, repeated instances in the list, failures in any job at any training step",
        "The test fits two models once with the default schedule and checks types.",
        [U], [("one job per model with its own seed", f"{U}:fit_multiple_models_cpu"), ("the worker trains a copy", f"{U}:_fit_model")],
        [], ["returned models", "state of the caller's objects and process"],
    ),
    prop(
        "C08", "After setting the seed, results repeat whatever ran before",
        "After setting the random seed, any sequence of stochastic operations (building, fitting, scoring, sampling, imputing, splitting, cross-validating, evaluating) gives the same results as the same sequence after setting the same seed at any other point of the same or another process, whatever ran before. "
        "Python's, NumPy's and PyTorch's generators are all covered.",
        ["histories", "programs"],
        "every history before the seed is set and every sequence of operations after it",
        "The test checks one draw from each generator.",
        [U, AE, VAE, JML], [("seeds all generators", f"{U}:set_seed")], [("global generators", "all randomness of the package comes from them", f"{U}:set_seed")], ["results of the operations"],
    ),
    prop(
        "C09", "Training ends with the best recorded state, never with destroyed parameters",
        "After fitting, the parameters of the model, the encoder and the latent scores of the respondents are together those of the evaluation with the lowest recorded loss that left finite parameters, whatever the losses do on the way: spikes, NaN or infinite losses, non-finite gradients at any step. "
        "A loss that is NaN never destroys the parameters of a scale transformation being trained, and fitted models are left in evaluation mode on the CPU. Nothing is claimed when no evaluation left finite parameters.",
        ["fault_sequences", "inputs"],
        "every placement of NaN, infinite, spiking or worsening losses and non-finite gradients over the steps of a fit with every algorithm",
        "The tests fit well behaved data for a few epochs and check that the loss went down.",
        [JML, MML, AE, VAE, RS[0], RS[1], IU], [("best state is kept and restored", f"{JML}:_training_loop"), ("best state is kept and restored", f"{MML}:_training_loop"), ("best state is kept and restored", f"{AE}:_train_step"), ("finiteness guard", f"{IU}:parameters_are_finite")],
        [("best_model_state", "parameters of the best evaluation", f"{AE}:_train_step")], ["state after fit", "training_history"],
    ),
    prop(
        "C10", "An interrupted fit reports the interruption and does not spoil later fits",
        "When an exception interrupts fitting at any point, exactly that exception reaches the caller and the model keeps its structure, its previously fitted algorithm and scale transformations, and can still be evaluated. "
        "Fitting it again with a new algorithm gives the same result as fitting a newly built model that was given the same parameter values, and the data and settings of the caller are unchanged. The same holds for the training of scale transformations, which leaves the linked models as they were.",
        ["crash_points", "histories", "configurations"],
        "every training step (and points within it) of every algorithm and model type as the point of interruption, repeated interruptions",
        "No test interrupts a fit.",
        [M, JML, MML, AE, VAE], [("algorithm is attached after fitting", f"{M}:fit"), ("temporary spline bases are removed in any case", f"{MML}:fit")],
        [("basis", "temporary precomputed basis", "irtorch/models/monotone_b_spline.py:precompute_basis")], ["exception", "second fit"],
    ),
    prop(
        "C11", "Scoring and evaluating never changes the model or the caller's data",
        "Computing latent scores, probabilities, information, gradients, residuals, fit statistics, samples, imputations or transformed scores leaves the parameters, their trainability, the fitted algorithm, the scale transformations and every tensor of the caller as they were. "
        "That is also so when the computation is interrupted or fails, in which case the original error is what the caller sees, or the call returns a valid result.",
        ["histories", "crash_points", "fault_sequences"],
        "every sequence of read-only operations on every fitted model, every model evaluation within them as a point of failure",
        "The tests compare return values and do not look at the model or the arguments afterwards.",
        [M, EV, IU, U], [("trainability restored in finally", f"{M}:_ml_map_theta_scores"), ("arguments are cloned", f"{IU}:one_hot_encode_test_data"), ("arguments are cloned", f"{EV}:residuals")],
        [], ["model, algorithm and argument tensors before and after"],
    ),
    prop(
        "C12", "Every response is used exactly once per epoch, with its own respondent",
        "In every epoch of training every observed response contributes exactly once, paired with the latent score or encoder input of its own respondent, whatever the batch size and shuffling; responses marked missing contribute nothing, however they are marked (only an autoencoder with batch normalization may leave out a last batch of fewer than four respondents). "
        "Fitting data with missing responses coded as -1 and as NaN gives the same result, and neither what stands in place of a missing response nor the number type the responses are stored as matters.",
        ["schedules", "inputs", "configurations"],
        "every order of the shuffled respondents, every batch size including ones that leave a small remainder, every pattern and coding of missing responses",
        "The tests use mocked data loaders or one batch, and data without missing responses.",
        [DS, JML, MML, AE, VAE, M], [("the data set returns the index with the row", f"{DS}:__getitem__"), ("mask computed before imputation", f"{DS}:__init__"), ("missing responses are dropped from the likelihood", f"{M}:log_likelihood")],
        [], ["what is handed to the log-likelihood and forward pass of the model"],
    ),
    prop(
        "C13", "Stacked scale transformations act as their composition",
        "After any history of adding and removing scale transformations, fitting, saving and loading, transforming scores equals applying the attached transformations one after another in the order they were added, undoing it returns the original scores where all of them are invertible, and the reported Jacobian is that of the whole transformation where it is differentiable, from which gradients, information and standard errors on the transformed scale follow. "
        "Scores requested on the original scale are the same with and without transformations attached.",
        ["histories", "configurations"],
        "every sequence of adding, detaching, saving and loading transformations of every kind",
        "The tests attach at most one transformation.",
        [M, *RS], [("applied in order", f"{M}:transform_theta"), ("undone in reverse order", f"{M}:inverse_transform_theta"), ("chain rule", f"{M}:theta_transform_jacobian")],
        [("scale", "list of attached transformations", f"{M}:__init__")], ["transform_theta", "inverse_transform_theta", "theta_transform_jacobian", "latent_scores(rescale=...)"],
    ),
    prop(
        "C14", "Evaluation answers depend on the model, not on earlier questions",
        "Every evaluation of a fitted model gives the answer that an untouched copy of the model gives to the same question with the same random seed, whatever was asked before, in whatever order, with whatever other arguments, also if an earlier question was interrupted, and after the model was fitted anew, loaded or copied, whatever became of the model it was copied from.",
        ["histories", "fault_sequences"],
        "every sequence of evaluation calls with varying arguments, refits, loads, and interruptions in between",
        "The tests ask each question once of a fresh evaluator.",
        [EV, M], [("no answers are cached between questions", f"{EV}"), ("latent density is estimated per question", f"{EV}:sum_score_probabilities")],
        [("latent_density", "density used for integrals", f"{EV}:approximate_latent_density")], ["answers of model.evaluate"],
    ),
    prop(
        "C15", "Training always ends, at the documented limits and not before",
        "Every fit ends after at most the given number of epochs or given number of learning rate reductions, whatever the sequence of losses, including constant, NaN, infinite, oscillating or ever improving ones. "
        "It does not end early while the loss keeps improving, and the recorded history has exactly one entry per evaluation made.",
        ["inputs", "fault_sequences"],
        "every sequence of losses (scripted by the simulator) for every trainer, and every limit",
        "The tests run a handful of epochs with ordinary losses.",
        [JML, MML, AE, VAE, RS[0], RS[1]], [("epoch and learning rate limits", f"{JML}:_training_loop"), ("epoch and learning rate limits", f"{MML}:_training_loop"), ("epoch and learning rate limits", f"{AE}:_training_loop")],
        [], ["number of optimizer steps", "training_history"],
    ),
    prop(
        "C16", "Random draws always yield valid, conserved data",
        "For every sequence of random draws, sampled responses are valid categories of their item that have positive probability, imputation changes exactly the missing responses and fills in values allowed by the chosen method, and splitting data or preparing folds distributes every row exactly once and keeps rows intact.",
        ["inputs", "schedules"],
        "every outcome of the random number generators, including the rarest ones, for every model type and imputation method",
        "The tests draw a few times with one seed and check shapes.",
        [U, M, IU], [("sampling from the model", f"{M}:sample_test_data"), ("imputation", f"{U}:impute_missing"), ("splitting", f"{U}:split_data")],
        [], ["returned data"],
    ),
    prop(
        "C17", "A respondent's score does not depend on who else is scored",
        "Latent scores by expectation or encoder network, transformed scores, log-likelihoods per respondent and expected scores of a respondent are the same whether the respondent is scored alone, in a batch of any size or in any order, and permuting respondents permutes the results. "
        "Splitting the work into chunks that are scored at different times, in any order, with other work in between, gives the same scores.",
        ["schedules", "inputs", "histories"],
        "every split of the respondents into chunks and every order of scoring them, interleaved with other operations on the model",
        "The tests score one fixed batch.",
        [M, EV], [("respondents are independent rows", f"{M}:_eap_theta_scores"), ("encoder in evaluation mode", f"{AE}:fit")],
        [], ["latent_scores", "log_likelihood"],
    ),
    prop(
        "C18", "Models fitted and used side by side do not influence each other",
        "Independent models that are fitted, scored, rescaled, saved and loaded in interleaved fashion in one process end in exactly the state and give exactly the answers they have when each is used alone, also when one of them fails or is interrupted.",
        ["schedules", "histories", "fault_sequences"],
        "every interleaving, at the granularity of optimizer steps and model evaluations, of programs working on 2-3 independent models, with one of them interrupted",
        "The tests use one model at a time.",
        [M, JML, MML, AE, VAE], [("state is kept per instance", f"{M}:__init__"), ("no module level state", JML)],
        [], ["state and answers of every model"],
    ),
    prop(
        "C19", "The constraints of a model hold whatever training does",
        "After every training step, whatever losses, gradients, interrupts, refits, copies, saves and loads came before, and as long as parameters are finite, response probabilities are non-negative and sum to one, categories an item does not have get none, and items do not depend on latent variables they were declared unrelated to. "
        "Expected scores of ordered response models, and the probability of the correct response of monotone multiple choice and nested models, are monotone in every latent variable, in the direction the model reports. "
        "The one parameter model keeps its common slope, guessing probabilities bound the probability of a correct response from below, and nested and mixed models agree with the models they are made of.",
        ["histories", "fault_sequences", "configurations"],
        "every history of fits with any losses and gradients, interrupts, refits, copies and loads, for all options of the models (relationships, separate networks, negative relationships, degrees, layers)",
        "The tests check newly built models with a few set parameter values; constraints that hold at the start but are lost in training pass them.",
        ["irtorch/models", "irtorch/torch_modules/softplus_linear.py", "irtorch/torch_modules/negation_layer.py", "irtorch/torch_modules/monotone_polynomial.py", JML, MML, AE, VAE],
        [("positive weights", "irtorch/torch_modules/softplus_linear.py"), ("masks of related latent variables", "irtorch/models/two_parameter_logistic.py:forward"), ("guessing below one", "irtorch/models/three_parameter_logistic.py:forward"), ("cumulated positive coefficients", "irtorch/models/surprisal_spline.py:forward")],
        [], ["probabilities on grids of scores after every optimizer step"],
    ),
    prop(
        "C20", "A figure shows what the model answers, whenever it is asked for",
        "After any history of fits, refits, loads, rescaling, questions and interrupted plots, every figure shows exactly what the model's evaluation methods return at the plotted latent scores, category by category and item by item: over the requested range of the plotted scale "
        "(or the range of the training scores), with all requested points, and with the latent variables that are not plotted held at the requested values or at the medians of the training scores.",
        ["histories", "fault_sequences", "configurations"],
        "every history of changes, questions and interrupted plots, for all plotting methods, models with 1-3 latent variables and stacked scales",
        "The tests check that a figure with the right labels is returned, mostly from a mocked model.",
        ["irtorch/plotter.py", M], [("grid of latent scores", "irtorch/plotter.py:_get_theta_grid_for_plotting"), ("figures from evaluation results", "irtorch/plotter.py:information")],
        [], ["points of every figure"],
    ),
    prop(
        "C21", "A used algorithm object, model or scale trains like a new one",
        "What a fit ends with depends on the parameter values of the model, the data, the settings and the random seed, not on what the algorithm object, the model object or the scale transformation was used for before: after any fits of other models, data, sizes and settings, "
        "that finished, stopped early, diverged, were interrupted, and after copies and questions, a fit gives the same parameters, recorded history, latent scores, encoder and later scores as new objects with the same parameter values give.",
        ["histories", "fault_sequences", "configurations"],
        "every history of earlier uses of the same objects, including interrupted and diverged ones",
        "The tests fit new objects once.",
        [JML, MML, AE, VAE, "irtorch/rescale/flow.py", "irtorch/rescale/link_common_items.py"],
        [("counters and schedules set at the start of a fit", f"{MML}:fit"), ("encoder built for each fit", f"{AE}:fit"), ("annealing restarts", f"{VAE}:fit"), ("flow built anew", "irtorch/rescale/flow.py:fit")],
        [], ["state after each fit"],
    ),
    prop(
        "P01", "Item response probabilities follow the documented model formulas",
        "For every parameter value and latent score, the response probabilities of an item equal the documented formula of the model.",
        ["inputs"], "every parameter value and latent score", "Tests use a few values.", ["irtorch/models"], [("forward and probabilities", "irtorch/models")],
    ),
    prop(
        "P03", "Information, gradients and Jacobians equal the derivatives they stand for",
        "The reported Fisher information, probability gradients, expected score gradients and transformation Jacobians equal the corresponding derivatives of the reported probabilities, expected scores and transformations.",
        ["inputs"], "every model and latent score", "Tests compare a few fixed numbers.", [M, *RS], [("automatic differentiation", f"{M}:information")],
    ),
    prop(
        "P04", "Numerical integration rules are exact for what they promise",
        "Gauss-Hermite quadrature integrates polynomials up to its order against the given normal distribution, and quantiles, splines, flows and bit scores match their mathematical definition.",
        ["inputs"], "every order, mean, covariance and argument", "Tests compare a few fixed numbers.", [U, "irtorch/quantile_mv_normal.py", "irtorch/torch_modules/rational_quadratic_spline.py", RS[5]], [("quadrature", f"{U}:gauss_hermite")],
    ),
]

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
    out.write_text("".join(json.dumps(p, sort_keys=False) + "\n" for p in P))
