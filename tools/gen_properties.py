#!/usr/bin/env python3
"""Writes properties.jsonl.  The texts live here so that they are easy to review."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))
NS = 'cpnest/NestedSampling.py'; SA = 'cpnest/sampler.py'; CP = 'cpnest/cpnest.py'
PR = 'cpnest/proposal.py'; N2 = 'cpnest/nest2pos.py'; MO = 'cpnest/model.py'; PX = 'cpnest/parameter.pyx'
UT = 'cpnest/utils.py'; PL = 'cpnest/plot.py'
RUNS = 'The two stable tests run one Gaussian model and assert nothing about the result; '

prop('C01', 'Replacement points lie strictly above the current likelihood contour',
 'In every nested-sampling step a proposed point is admitted to the live set only if its log-likelihood is strictly greater than the largest log-likelihood among the points being discarded in that same step, and that value is the contour published to the workers for the step. No path, retry count or option admits a point that was not compared against the contour of the current step.',
 ['inputs', 'schedules', 'histories'], 'every model, every number of workers, every order and timing in which proposals arrive',
 RUNS + 'a contour taken from the wrong discarded point, a stale contour or a skipped comparison still gives a finished run.',
 [NS], [('admission guard in the replacement loop', NS + ':NestedSampler.consume_sample'), ('contour set from the worst points', NS + ':NestedSampler.get_worst_n_live_points')],
 [('logLmin', 'shared contour', NS)], ['live points', 'nested samples'])
prop('C02', 'Live points are conserved and every discarded point is recorded exactly once',
 'Each nested-sampling step removes exactly the n lowest-likelihood live points, where n is the number of workers, records each of them once in the chain of nested samples, and admits exactly n replacements, so the number of live points is the same at every step boundary. When sampling ends every remaining live point is recorded exactly once, in order of increasing likelihood, before any output is written.',
 ['inputs', 'schedules', 'histories'], 'every sequence of accepted and refused proposals, every worker count and live-point count',
 RUNS + 'they never count live points or nested samples.',
 [NS], [('record, replace and remove in one step', NS + ':NestedSampler.consume_sample'), ('final adjustment', NS + ':NestedSampler.nested_sampling_loop')],
 [('params', 'live points', NS), ('nested_samples', 'chain', NS)], ['nested samples', 'chain file'])
prop('C03', 'The live-point collection stays sorted, with its search keys in step',
 'After any sequence of insertions and removals the collection of live points is ordered by increasing log-likelihood and holds one search key per entry, equal to the key of that entry, at the same position. A new entry is placed at the position found by searching those keys with its own key, and that position is what is reported to the caller.',
 ['histories', 'inputs'], 'every sequence of insert and remove operations on the collection, ties included',
 'No test looks at the collection; keys that drift from entries only misplace later points.',
 [NS], [('KeyOrderedList.add/search/__init__', NS), ('OrderedLivePoints.remove_n_worst_points', NS)],
 [('_keys', 'search keys parallel to the list', NS)], ['live points'])
prop('C04', 'Prior volume and evidence are accumulated consistently',
 'Each step multiplies the enclosed prior volume by exp(-(points replaced)/(live points)), adds to the evidence the likelihood of the highest discarded point times the shell between the volumes before and after that step, and appends exactly one likelihood and one volume to the history. At the end of sampling the remaining live points are added one at a time with a live-point count that starts at the full number and drops by one per point, and the reported evidence is the trapezoidal integral of the whole likelihood history over the whole volume history.',
 ['inputs', 'histories'], 'every sequence of likelihood values, worker count and live-point count',
 RUNS + 'an evidence off by one shell or one live point passes.',
 [NS, N2], [('_NSintegralState.increment/finalise', NS), ('call sites with nreplace and nlive', NS + ':consume_sample, nested_sampling_loop'), ('log_integrate_log_trap', N2)],
 [('logw', 'log prior volume', NS), ('logLs/log_vols', 'parallel histories', NS)], ['logZ', 'evidence file'])
prop('C05', 'Sampling stops exactly when the remaining evidence falls below tolerance',
 'Sampling continues as long as, and only as long as, the estimated change of the log-evidence from the remaining prior volume exceeds the stopping tolerance given to the nested sampler. That estimate is recomputed in every step from the current evidence, the maximum log-likelihood seen so far and the number of points replaced so far divided by the number of live points.',
 ['inputs', 'histories'], 'every model, tolerance and history of likelihood values',
 RUNS + 'a run that stops too early or too late still passes.',
 [NS], [('condition update', NS + ':NestedSampler.consume_sample'), ('loop guard', NS + ':NestedSampler.nested_sampling_loop')],
 [('condition', 'estimated remaining change of logZ', NS), ('tolerance', 'stopping threshold', NS)], ['end of run'])
prop('C06', 'Master and workers exchange balanced requests and replies',
 'The master waits for a reply only from a worker that has an unanswered request: in each step it first sends one point to every worker, and after refusing a proposal (while filling the initial live set or while replacing points) it sends another point to the same worker before waiting on it again. A worker sends exactly one reply for each point it receives and none otherwise, and the reply has the layout the master unpacks.',
 ['schedules', 'inputs', 'histories'], 'every interleaving and every pattern of refused proposals, including models that return -inf on part of the prior',
 'A missing request shows up only as a hang for particular refusal patterns, which the tested Gaussian never produces while filling.',
 [NS, SA], [('send/recv in consume_sample and reset', NS), ('poll/recv/send in the worker loop', SA + ':Sampler._produce_sample')],
 [('consumer_pipes/producer_pipe', 'message channels', CP)], ['run() returns'])
prop('C07', 'Every finished run stops and joins all of its workers',
 'When sampling ends, normally or in prior-sampling mode, the master tells every worker to stop by publishing an infinite contour and by sending a stop message to each of them, and the run waits for every worker process it started before it returns. A worker that reads the stop message or the infinite contour leaves its loop without using the message as a point and without sampling against the infinite contour.',
 ['schedules', 'configurations'], 'every worker kind and count, every moment at which the end of the run is published',
 'The tests use one worker kind; a worker that is missed, or that samples against the final infinite contour, hangs only in particular interleavings.',
 [NS, SA, CP], [('stop broadcast', NS + ':NestedSampler.nested_sampling_loop'), ('loop exits', SA + ':Sampler._produce_sample'), ('join', CP + ':CPNest.run')],
 [('logLmin', 'infinite when the run is over', CP)], ['run() returns', 'no worker process left'])
prop('C08', 'A handled termination signal checkpoints everyone and exits with 130',
 'In a resumable run every handled signal makes the nested sampler save its own state, send a checkpoint request to every worker and exit with status 130; when the interruption surfaces elsewhere while the run samples or waits for its workers, a checkpoint flag that all worker processes can see is raised before exiting with status 130. A worker that gets the request, sees the flag, or receives the signal itself saves its own state before it leaves.',
 ['crash_points', 'schedules', 'fault_sequences'], 'every signal the run handles and every point of the run at which it arrives',
 'No test sends a signal or resumes a run.',
 [CP, NS, SA], [('sighandler and signal.signal calls', CP), ('except CheckPoint', NS + ', ' + CP + ', ' + SA), ('checkpoint message and flag', SA + ':Sampler._produce_sample')],
 [('checkpoint_flag', 'shared flag', CP)], ['resume files', 'exit status'])
prop('C09', 'Values shared between processes are updated safely',
 'The shared maximum log-likelihood never decreases under any interleaving: every update made while workers run is made while holding the lock of that value, from the value read under the same lock. The likelihood contour is written only by the master, worker connection slots are handed out under a lock so that no two workers share one, and no process replaces a shared value by a private object.',
 ['schedules'], 'every interleaving of the master and any number of workers of any kind',
 'A lost update needs two workers to interleave between a read and a write; tests neither force nor observe it.',
 [SA, CP, NS], [('get_lock around updates', SA + ', ' + CP)], [('logLmax', 'shared maximum', CP), ('nconnected', 'next free slot', CP)], ['logLmax in the evidence file'])
prop('C10', 'Stored likelihood and prior values belong to the stored coordinates',
 'Whenever a sampler accepts a move, or draws a point for its initial pool, the log-likelihood and log-prior carried by the point it stores, yields or sends to the master are the values the model returns for exactly the coordinates that point holds.',
 ['inputs', 'histories'], 'every model, sampler kind and sequence of accepted and refused moves',
 RUNS + 'a stale value (kept from before the last move of the coordinates) is a plausible number.',
 [SA, PR], [('evaluation after the last coordinate change', SA + ':yield_sample, reset'), ('check_constraint on every trajectory point', PR + ':ConstrainedLeapFrog')],
 [('logL/logP', 'values carried by a point', PX)], ['nested samples', 'mcmc chains'])
prop('C11', 'Sampler chains move only to points that pass both acceptance tests',
 'A Metropolis chain moves if, and only if, log-prior(new) - log-prior(current) + log-Jacobian of the proposal exceeds the log of a fresh uniform draw and log-likelihood(new) is strictly above the contour; a slice chain moves only to a point whose log-prior exceeds the slice level drawn below the current log-prior and whose log-likelihood is strictly above the contour; a Hamiltonian chain moves if, and only if, the log-Jacobian exceeds the log of a fresh uniform draw and the log-likelihood is strictly above the contour. Otherwise the chain keeps its current point.',
 ['inputs', 'histories'], 'every model, contour value and random draw',
 'Wrong acceptance biases samples without failing; tests assert nothing about the samples.',
 [SA], [('acceptance conditions', SA + ':*.yield_sample')], [], ['chain of samples'])
prop('C12', 'Ensemble jumps are reversible or report their Jacobian',
 'Every built-in ensemble jump used by the default Metropolis cycle is either symmetric (the displacement is odd under a sign-symmetric draw or under the exchange of two equally likely ensemble members, and the reported log-Jacobian is zero) or rescales the current point by a factor whose logarithm is drawn symmetrically and reports dimension times the log of that factor. A cycle of jumps reports, after each jump, the log-Jacobian of the jump it actually used.',
 ['inputs', 'histories'], 'every ensemble, current point, dimension and random draw',
 'A lost or wrong Jacobian biases the chain only statistically.',
 [PR], [('log_J', PR), ('get_sample of each jump', PR), ('ProposalCycle.get_sample', PR)], [], ['Metropolis acceptance'])
prop('C13', 'Points that have been handed over are never modified in place',
 'Once a point has been stored in a worker pool, chain, live set, nested-sample list or ensemble, neither its coordinates nor its log-likelihood or log-prior is modified in place: samplers give jumps a private copy, and jumps change only the copy or a point they created.',
 ['inputs', 'histories'], 'every sampler kind, jump and history',
 'Aliasing corrupts other stored points silently and depends on which points were drawn.',
 [SA, PR, NS, PX], [('copy() before get_sample', SA), ('copies inside jumps', PR)], [], ['stored points'])
prop('C14', 'Restoring a checkpoint gives back the state that was saved',
 'For the nested sampler, its evidence integrator and every sampler, restoring from a checkpoint file gives every persistent quantity the value it had when it was saved, including the current contour and the maximum log-likelihood. Live resources that are not saved (shared values, message channel, manager, model, loggers) are re-attached to those of the new run, and nothing read after resuming is left unset.',
 ['crash_points', 'histories'], 'every state at which a checkpoint is taken, every resumed run',
 'No test resumes a run.',
 [NS, SA, CP], [('__getstate__/__setstate__/resume', NS + ', ' + SA)], [('llmin/llmax', 'saved contour and maximum', NS)], ['resumed run'])
prop('C15', 'A crash while checkpointing never destroys the previous checkpoint',
 'A checkpoint file is replaced in one atomic step by a completely written new one: at no point while saving the nested sampler or a sampler does the file of that name hold partial content or lose the previous checkpoint.',
 ['crash_points', 'fault_sequences'], 'every point during a save at which the process dies or serialisation fails',
 'Tests do not kill a process while it saves.',
 [NS, SA], [('checkpoint()', NS + ', ' + SA)], [('resume_file', 'checkpoint path', NS + ', ' + SA)], ['resume files'])
prop('C16', 'Nested-sampler checkpoints are taken at step boundaries',
 'A checkpoint of the nested sampler records the state between two steps, never the middle of one, so that a resumed run neither repeats nor loses a discarded point, a replacement or an evidence increment. Both the periodic checkpoints and the one taken on interruption obey this.',
 ['crash_points', 'schedules'], 'every moment at which a checkpoint is triggered by the clock or by a signal',
 'No test interrupts or resumes a run.',
 [NS], [('checkpoint calls in the main loop', NS + ':NestedSampler.nested_sampling_loop')], [], ['resumed run'])
prop('C17', 'Everything reachable from a checkpointed object can be serialised',
 'At the time of a checkpoint no attribute kept in the saved state of the nested sampler, a sampler or its proposals is, or holds, a process-bound or unserialisable object: a generator, lambda or local function, lock, pipe end, shared value, manager, open file, process, or the user model, which may not be serialisable.',
 ['configurations', 'crash_points'], 'every sampler kind and every built-in proposal',
 'No test takes a checkpoint.',
 [NS, SA, PR], [('__getstate__ removals', NS + ', ' + SA)], [], ['resume files'])
prop('C18', 'Every worker has its own seed, checkpoint file and random stream',
 'For every mix of Metropolis, Hamiltonian and slice workers, all workers of a run have pairwise different seeds derived from the user seed and pairwise different checkpoint files inside the output folder, and a resumed run gives each worker the file it wrote. Each worker process seeds its numpy random generator before its first draw, in a fresh run and in a resumed one, so no two workers follow the same stream.',
 ['configurations', 'histories'], 'every split of the workers over the three kinds, fresh and resumed runs',
 'Tests use a single kind of worker and never resume.',
 [CP, SA], [('sampler construction loops', CP + ':CPNest.__init__'), ('seeding', SA + ':Sampler.reset, _produce_sample')], [], ['sampler_*.pkl'])
prop('C19', 'A run writes and deletes only its own files in the output folder',
 'Every file that a run creates, overwrites or deletes lies in the output folder chosen by the user, under a name fixed by the package or passed by the caller. Files are deleted only if they are the per-worker sample files the run itself wrote there, and no path is ever passed to a command shell.',
 ['configurations', 'inputs'], 'every output path (blanks and shell characters included), verbosity and sampling mode',
 'Tests run with the default output folder only.',
 [CP, NS, SA, PL, UT, PR], [('os.path.join(output, ...)', CP + ', ' + NS + ', ' + SA), ('removal of per-worker files', CP)], [], ['file system'])
prop('C20', 'Column headers match the columns of every table written',
 'Every table a run writes (chain file, evidence file, nested, posterior, prior and mcmc samples) names its columns in a header whose fields correspond one to one and in order to the values of each row; for tables of samples these are the model parameters in model order, then the log-likelihood and, for array tables, the log-prior.',
 ['inputs', 'configurations'], 'every model (any parameter names and number), every table and verbosity',
 'Tests never read a written table.',
 [MO, NS, CP, SA, PX], [('header/strsample', MO), ('savetxt with dtype names', CP + ', ' + SA), ('asnparray', PX)], [], ['output tables'])
prop('C21', 'Samples that were collected are returned and saved, never lost',
 'Each accessor for nested, posterior, prior and mcmc samples writes to its file exactly the table it returns. The per-worker raw sample files are deleted only after their content has been read into that table, and a run that collected prior or mcmc samples makes them available afterwards instead of replacing them by an empty result.',
 ['configurations', 'histories'], 'every verbosity level and sampling mode, every order of accessor calls',
 'The verbosity test only checks that the run ends.',
 [CP], [('get_nested_samples, get_posterior_samples, get_prior_samples, get_mcmc_samples', CP)], [('prior_samples/mcmc_samples', 'collected samples', CP)], ['returned arrays', 'output tables'])
prop('C22', 'Every name, attribute and call on every code path resolves',
 'No operation of the package, however rarely taken its branch, fails because it refers to a variable, attribute, method or module that does not exist, or calls a package function with arguments it does not accept.',
 ['inputs', 'configurations', 'histories'], 'every function and branch of the package',
 'Most branches (resume, prior sampling, slice and Hamiltonian sampling, post-processing) are never executed by the stable tests.',
 ['cpnest/__init__.py', CP, NS, SA, PR, N2, MO, PX, PL, UT], [('all references', 'package')], [], ['NameError/AttributeError/TypeError'])
prop('C23', 'Live-point arithmetic, copying and pickling are exact and independent',
 'Sums, differences and scalings of points act on each coordinate with the operation the operator names and return a new point without changing their operands, while the in-place forms change only their left operand. A copy and a pickle round trip carry the names, coordinates, log-likelihood and log-prior of the original, and a copy shares no coordinate storage with it; access by name reads and writes the coordinate of that name.',
 ['inputs'], 'every pair of points of equal dimension and every scalar',
 'No test exercises the point type directly.',
 [PX], [('operators, copy, __getstate__/__setstate__, __reduce__', PX)], [('values', 'coordinate storage', PX)], ['LivePoint'])
prop('C24', 'Posterior weights line up with the samples they belong to',
 'The weights computed for a chain of nested samples have one entry per sample, and entry i is built from the likelihood of sample i and the prior-volume shell of sample i, normalised by the evidence of that same chain, with the live-point count of the run that produced it. Posterior draws only return members of the chain, selected by the weight of that member relative to the largest weight, or in proportion to the weights over their whole total; when several runs are combined, each contributes by its evidence (per sample of its chain when drawing without repetition).',
 ['inputs'], 'every chain length, live-point count and likelihood sequence',
 'A shift by one entry gives a plausible posterior; tests assert nothing about it.',
 [N2, CP], [('compute_weights, draw_posterior, draw_N_posterior', N2), ('get_posterior_samples', CP)], [], ['posterior samples'])
prop('C25', 'Bounds, prior support and unit-cube maps agree with each other',
 'A point is in bounds exactly if every coordinate lies strictly between the lower and the upper bound of that coordinate; the default log-prior is zero in bounds and minus infinity elsewhere, and new points are drawn between the bounds of each coordinate and never returned with zero prior. The maps from and to the unit cube are inverses of each other, coordinate by coordinate, and the potential is minus the log-prior.',
 ['inputs'], 'every set of bounds and every point',
 'The unit-cube maps are not tested at all; bounds are only exercised through one Gaussian.',
 [MO], [('in_bounds, log_prior, new_point, from_normalised, to_normalised, potential', MO)], [], ['Model'])
prop('C26', 'The log file is attached while a run works and released afterwards',
 'Everything a run does in its set-up and sampling is done with its log file attached, and on every way out, exceptions and exits included, the log handler is detached from the package logger and its file closed. A log file can be attached again after it was released.',
 ['fault_sequences', 'histories'], 'every exit path of construction and run, any number of runs in a process',
 'Tests never look at logging handlers, and never fail inside a run.',
 [UT, CP], [('LogFile.open/close/__enter__/__exit__', UT), ('with self.log_file', CP)], [('handler', 'attached handler', UT)], ['cpnest.log'])
prop('C27', 'The likelihood is evaluated only where the prior is not zero',
 'While drawing its initial pool and in Metropolis and slice moves, a sampler calls the user likelihood only for a point whose log-prior it has just computed and found not to be minus infinity (directly, or by passing an acceptance test that a zero prior cannot pass).',
 ['inputs', 'histories'], 'every model whose likelihood is undefined outside its prior support',
 'The tested model is defined everywhere.',
 [SA], [('prior test before log_likelihood', SA + ':yield_sample, reset')], [], ['calls of log_likelihood'])
prop('C28', 'Every run option reaches the component it configures',
 'The options given to a run (live points, pool size, output folder, verbosity, seed, maximum chain length, number and kinds of workers, proposals, prior sampling, checkpoint interval, resume) reach, unchanged, the nested sampler, every worker of every kind and the run manager that act on them. A run constructs exactly one worker process per configured worker, and a checkpoint interval that is not given means no periodic checkpoints.',
 ['configurations'], 'every combination of options and worker kinds',
 'Tests set a few options and check none of them.',
 [CP, NS, SA], [('constructor calls', CP + ':CPNest.__init__'), ('constructors', SA + ', ' + NS)], [], ['behaviour of a configured run'])
prop('C29', 'A Metropolis or slice move ends after a bounded number of steps',
 'A request answered by a Metropolis or slice worker takes a bounded number of chain steps: the step counter grows by one in every step, and the walk ends no later than the first step after the configured maximum chain length, whether or not any move was accepted; each inner search loop of the slice sampler makes progress toward its own limit in every pass.',
 ['inputs', 'histories'], 'every model and contour, including contours above which no point can be found',
 'An unbounded walk needs a contour that cannot be beaten, which the tests do not produce.',
 [SA], [('loop exits', SA + ':MetropolisHastingsSampler.yield_sample, SliceSampler.yield_sample')], [], ['worker replies'])
prop('C30', 'Sampler pools are never drained',
 'Every point a sampler takes from its pool to evolve is replaced by exactly one point (itself, or what it evolved into) before a sample is delivered, and acceptance statistics are updated by the accepted and attempted steps of that same move. The pool therefore keeps its size through any number of moves.',
 ['histories', 'inputs'], 'every sampler kind and any number of accepted and refused moves',
 'Losing one point per refused move only empties the pool in long runs.',
 [SA], [('evolution_points pop/append', SA)], [('evolution_points', 'pool', SA)], ['pool size', 'acceptance'])
prop('C31', 'Diagnostic histograms always have at least one bin',
 'Diagnostic plots of a finished run can be made for any number of samples: every histogram is requested with a positive number of bins, however few samples there are.',
 ['inputs', 'configurations'], 'every number of posterior samples and insertion indices, zero included',
 'The tests always produce more than a hundred samples.',
 [PL], [('bins= arguments', PL)], [], ['plots at verbosity 2 and above'])
prop('C32', 'Ensemble statistics follow the current ensemble in every jump',
 'Setting the ensemble of a cycle of jumps gives it to every ensemble jump in the cycle, and a jump that derives statistics from the ensemble (eigenvectors, covariance, masses, normals) recomputes all of them from the new ensemble, each after the statistics it depends on. Samplers set the ensemble once their initial pool is drawn, before their first move.',
 ['histories'], 'every sequence of ensemble updates, every cycle including cycles extended by the user',
 'Stale statistics only change efficiency or correctness statistically; only the default cycle is tested.',
 [PR, SA], [('set_ensemble overrides', PR), ('set_ensemble calls', SA + ':Sampler.reset, _produce_sample')], [], ['jumps'])
prop('C33', 'Completed runs write chain and evidence after the final update',
 'Every run that completes, prior-sampling runs included, writes the chain file and the evidence file, and does so after the last nested sample was recorded and (for evidence runs) after the final evidence was computed; the chain file holds one row for each recorded nested sample. The evidence that is returned, kept on the sampler and written to the file is the same final value.',
 ['configurations', 'histories'], 'every mode and history',
 'Tests never read the files.',
 [NS], [('write_chain_to_file, write_evidence_to_file', NS), ('end of nested_sampling_loop', NS)], [], ['chain file', 'evidence file'])
prop('C34', 'Insertion indices are recorded once per replacement and normalised',
 'Every replacement of a live point records exactly one insertion index: the rank of the new point among the surviving live points, divided by the number of live points it was ranked against, so that it lies between 0 and 1. The rolling check uses the most recent replacements, as many as there are live points, and the final check uses all of them.',
 ['inputs', 'histories'], 'every worker count and sequence of replacements',
 'Tests never look at the indices.',
 [NS], [('insertion_indices', NS + ':NestedSampler.consume_sample, check_insertion_indices')], [], ['insertion indices', 'KS test'])
prop('C35', 'A proposal cycle plays its jumps in the configured proportions',
 'Whatever proposals and weights a proposal cycle is built from, its entries are drawn independently, each proposal with probability proportional to its weight, also after a proposal has been added with a weight of its own. Successive requests use every entry of the cycle in turn, hand the arguments of the caller to the proposal whose turn it is, and return what that proposal produced.',
 ['inputs', 'histories'], 'every set of proposals and weights, every number of requests and additions',
 'The draws are random and no stable test looks at the frequencies.',
 [PR], [('ProposalCycle', PR + ':ProposalCycle, EnsembleSliceProposalCycle')], [], ['proposals used by a sampler'])
prop('C36', 'The length of the chains follows their acceptance and autocorrelation',
 'The number of steps of the next chain follows the documented moving average of 2/acceptance - 1, times the safety factor and limited to maxmcmc, whatever the acceptance of the last chain was, or the longest autocorrelation length over all sampled coordinates when it is measured. The acceptance is the number of moves the chain really made over the number of steps it took, for the last chain and for all of them, and an estimate follows every chain of the initialisation.',
 ['inputs', 'histories'], 'every acceptance, pool size, limit and number of chains',
 'Depends on the history of acceptances, which a test cannot enumerate; a wrong length goes unnoticed in results.',
 [SA], [('estimate_nmcmc_on_the_fly, estimate_nmcmc, reset, yield_sample', SA + ':Sampler and its subclasses')], [('Nmcmc', 'steps of the next chain', SA), ('sub_acceptance', 'acceptance of the last chain', SA)], ['chain lengths'])
prop('C37', 'MCMC chains are resampled from their own rows by the acceptance rule',
 'Resampling an MCMC chain returns rows of that chain only, each at most once: the chain, or its second half when the burn-in is dropped, is thinned by the longest autocorrelation length of its sampled parameters and shuffled, and a row is kept exactly when its log-posterior passes the Metropolis rule against the row before it. The measured autocorrelation length is never below one.',
 ['inputs'], 'every chain, chain length, autocorrelation length and random draw',
 'Random result; no stable test resamples a chain.',
 [N2], [('resample_mcmc_chain, acl', N2)], [], ['get_posterior_samples of the MCMC chains'])
prop('C38', 'Periodic checkpoints are made once per interval',
 'When a checkpoint interval is configured, the nested sampler and every worker checkpoint in the first pass of their main loop after more than that interval has gone by since their last checkpoint (or their start), and never more often; nothing but the time decides. Without an interval no periodic checkpoint is made.',
 ['histories', 'schedules'], 'every interval and every sequence of pass durations',
 'Tests never run long enough for an interval to elapse.',
 [NS, SA], [('last_checkpoint_time', NS + ':NestedSampler.nested_sampling_loop; ' + SA + ':produce_sample of every sampler')], [('last_checkpoint_time', 'time of the last checkpoint', NS + ', ' + SA)], ['checkpoint files'])
prop('C39', 'Slice sampling moves leave the constrained prior invariant',
 'Every slice move places an interval of width one uniformly around the current point along a direction scaled by the current length scale, steps out by whole units only from ends inside the bounds and the slice with the allowed steps shared at random between the sides, draws the level exponentially below the current log-prior, draws candidates uniformly from the interval, shrinks it towards the current point after each refusal, and accepts the first candidate inside the slice and above the contour. The length scale follows the counts of expansions and contractions, and only during tuning.',
 ['inputs', 'histories'], 'every density, bounds, direction, step limit and sequence of random draws', 'The stable tests never run the slice sampler; the outcome is random.',
 [SA], [('SliceSampler.yield_sample', SA)], [('L, R, Ne, Nc', 'interval and counts of a move', SA), ('mu', 'length scale of the directions', SA)], ['positions of the chain', 'length scale'])
prop('C40', 'Hamiltonian trajectories obey the discretised equations of motion',
 'Each position step drifts by dt*p/m and mirrors position and momentum at the prior bounds until it is inside; each momentum step kicks by the force where the contour is respected and mirrors the momentum on the contour normal where it is not. A trajectory runs from the given point forwards and backwards, a point of it is drawn with weight exp(-H) from its interior, the unconstrained integrator is time-reversible and always ends, and the log-Jacobian is the energy lost, at most zero. Mass, momentum distribution and kinetic energy all stem from the covariance of the ensemble; the step size follows the acceptance.',
 ['inputs'], 'every model, position, momentum, bounds, step size and trajectory length', 'The stable tests never run a Hamiltonian sampler; tests sample a few models.',
 [PR], [('HamiltonianProposal, LeapFrog, ConstrainedLeapFrog', PR)], [('dt, L, inverse_mass, momenta_distribution', 'integrator settings', PR)], ['positions and momenta of a trajectory', 'log_J'])
prop('C41', 'Hamiltonian step size and trajectory length adapt as documented',
 'When it sees its first ensemble, a Hamiltonian proposal takes from the widths of the prior ranges a base number of steps, ten plus the integer part of longest/shortest width times d^(1/4), and a base step, shortest/longest width over that number. After every chain each proposal of the cycle gets the overall acceptance and the chain length n of the sampler: the step becomes the base step times a scale whose logarithm moves by the adaptation size times (acceptance - target), and the number of steps becomes the base number plus a whole number drawn uniformly from [n, 5n). For every positive maximum chain length the first chain length is a positive whole number not above it, so this range is never empty.',
 ['inputs', 'histories'], 'every dimension, prior range, acceptance, chain length and maximum chain length',
 'The stable tests never run a Hamiltonian sampler, let alone with unusual prior ranges or chain lengths.',
 [PR, SA], [('update_time_step, update_trajectory_length, set_integration_parameters', PR + ':HamiltonianProposal'), ('adaptation after a chain', SA + ':HamiltonianMonteCarloSampler.yield_sample')], [('dt, L, base_dt, base_L, scale', 'integrator settings', PR), ('Nmcmc', 'steps of the next chain', SA)], ['step and length of trajectories'])
# not applicable
prop('N01', 'The evidence estimate converges to the true marginal likelihood',
 'For every model the reported log-evidence agrees with the true marginal likelihood within the statistical error implied by the information and the number of live points.',
 ['inputs'], 'every model and random seed', 'Statistical tests exist but are not among the stable ones; a sample of models cannot settle all.',
 [NS, SA], [('the whole algorithm', 'package')], [], ['logZ'])
prop('N02', 'Posterior samples are distributed according to the posterior',
 'For every model the posterior samples returned by a run follow the posterior distribution defined by the model prior and likelihood.',
 ['inputs'], 'every model and random seed', 'Distributional; the tests sample a few models.',
 [N2, CP], [('posterior drawing', N2)], [], ['posterior samples'])
prop('N03', 'Chains are long enough to forget their starting point',
 'The adaptive chain length is always long enough for a proposed replacement to be effectively independent of the point it was evolved from.',
 ['inputs', 'histories'], 'every model', 'Depends on measured autocorrelation of runtime chains.',
 [SA, N2], [('estimate_nmcmc, acl', SA + ', ' + N2)], [], ['insertion-index KS test'])
prop('N04', 'Hamiltonian trajectories conserve energy to useful accuracy',
 'For every model the Hamiltonian drifts little enough along a trajectory for proposals to be accepted at a useful rate.',
 ['inputs'], 'every model, step size and trajectory length', 'Numerical behaviour of an integrator.',
 [PR], [('LeapFrog, ConstrainedLeapFrog', PR)], [], ['trajectories'])
prop('N05', 'A worker that dies never leaves the master waiting',
 'If a worker process fails, for instance because the user likelihood raises, the run ends with an error instead of waiting for a reply that cannot come.',
 ['fault_sequences'], 'every fault in a worker at every point', 'No test lets a worker fail.',
 [CP, NS, SA], [('none', 'the package has no failure detection')], [], ['run() returns'])
prop('N06', 'The boundary estimate of Hamiltonian proposals fits every pool',
 'The smoothing and spline fit by which a Hamiltonian proposal estimates the normal of the likelihood contour succeeds for every pool of evolution points.',
 ['inputs'], 'every pool', 'Whether a fit is possible depends on the positions and likelihoods of the pool.',
 [PR], [('update_normal_vector', PR)], [], ['worker does not fail'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P))
