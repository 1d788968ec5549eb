"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))


H = 'egenerator/data/handler/base.py'
M = 'egenerator/data/handler/modular.py'
C = 'egenerator/manager/component.py'
MB = 'egenerator/model/base.py'
MG = 'egenerator/manager/base.py'
SM = 'egenerator/manager/source.py'

prop('P01', 'Single-pass batch generation delivers every event exactly once and ends',
     '''When a batch generator is asked to go over its input files once, the batches it yields contain every event of
     every readable, non-skipped input file exactly as often as the requested number of repetitions, and no other event.
     All batches but the last have exactly the requested batch size and the last one is not empty.
     After the last batch the iteration ends, it never hangs and never stops early, for every relative speed of the
     loading workers, the batching process and the consumer, also when files are missing, skipped, or empty of events,
     when no file matches, and when fewer files exist than are to be mixed together.''',
     ['schedules', 'inputs', 'configurations'],
     '''All interleavings of N loaders, the batcher and the consumer; all numbers and sizes of files (including zero, missing,
     skipped and empty ones), batch sizes, repetitions, additional files, queue capacities and job numbers.''',
     '''The outcome depends on the interleaving of several processes and on which of them observes the end of the file list first; the
     existing tests run one schedule on one file, and are not even collected in this environment.''',
     [H], [('file_loader counts the processed files', H), ('data_queue_iterator builds batches and flushes the leftovers', H),
           ('batch_iterator decides when the iteration is over', H)],
     ['the batches yielded by BaseDataHandler.get_batch_generator', 'whether next() returns, raises StopIteration or blocks'])

prop('P02', 'Every event keeps its own data, unmixed, through batching',
     '''In every batch, the entries of all tensors at one event position stem from one and the same input event, with unchanged values and in the
     tensor's declared data type.
     All vector elements (e.g. pulses) of that event are in the batch, in their original order, each once, and their index rows carry the event's
     position in this batch as batch index and otherwise the original indices.
     This holds across file boundaries, shuffling, repetitions and leftover batches, and non-existing tensors are filled with one default entry per event.''',
     ['inputs', 'schedules', 'configurations'],
     '''Every assignment of pulses to events (also none), every mixture of normal, vector and non-existing tensors and tensor orders, every batch size and schedule.''',
     '''Mixing needs particular pulse multiplicities and batch boundaries; the existing tests look at the shape of batches of one sample file.''',
     [H], [('batch_to_event_structure splits vectors by event', H), ('fill_event_list and data_queue_iterator merge and re-index', H)],
     ['the arrays in each yielded batch', 'results of batch_to_event_structure / event_to_batch_structure'])

prop('P03', 'Endless batch generation keeps yielding full batches within its queue limits',
     '''When asked to pick random files forever, of which at least one can be loaded, the generator yields batches of exactly the requested size for as long as it is consumed and
     never ends or blocks, and all events come from the given files.
     However slowly the consumer reads, the number of loaded-but-unbatched files and of finished-but-unconsumed batches stays within the
     configured capacities (plus what each worker holds in its hands), so that workers wait instead of accumulating data.
     The events of every group of loaded files are each used the requested number of times.''',
     ['schedules', 'configurations'],
     '''All interleavings of loaders, batcher and consumer over histories of arbitrary length, all capacities, job numbers, repetitions and additional files.''',
     '''Back-pressure and progress are statements about all schedules of unbounded runs; a test sees a few batches of one schedule.''',
     [H], [('bounded data_batch_queue and final_batch_queue', H), ('file_loader loop', H), ('data_queue_iterator loop', H)],
     ['yielded batches', 'number of files loaded and batches finished ahead of the consumer'])

prop('P04', 'A data handler combines its modules into one consistent set of events',
     '''For every file, the handler returns its tensors in the declared tensor order with exactly one entry per event that passes the filter,
     in the original event order, and with the values provided by the responsible module for that very event.
     Vector tensors contain exactly the elements of the kept events, with batch indices renumbered to the kept events' new positions.
     If any module asks to skip the file, or no event is left, the file is skipped as a whole, and modules that disagree about the number of events are reported as an error.''',
     ['inputs', 'configurations'],
     '''All combinations of modules that do or do not provide data, all filter masks, event counts and vector multiplicities.''',
     '''The existing tests use one sample file with an all-pass filter, so the re-indexing after filtering and the skip/mismatch paths are not reached.''',
     [M], [('_get_data', M), ('_filter_data', M), ('tensor collection in _configure_derived_class', M)],
     ['results of get_data_from_hdf / get_data_from_frame of ModuleDataHandler'])

prop('P05', 'Components are configured exactly once and record what they were built from',
     '''A component can be used only after it has been configured successfully, and can be configured only once; every attempt to configure it
     again is refused without changing it.
     Its recorded configuration contains the settings it was configured with and the configurations of all components that were passed to it, directly
     or in a list or a dictionary, each under one unique name.
     Later changes to the objects passed in by the caller do not alter a recorded configuration, and name clashes and updates of settings that do not exist are refused.''',
     ['histories', 'inputs'],
     '''All sequences of construct/configure/save/load/use operations on trees of components, with all ways of passing sub components.''',
     '''The statement is about every sequence of operations and every tree shape; the tests check single calls on hand-written cases.''',
     [C], [('BaseComponent.configure', C), ('Configuration.add_sub_components', C), ('assert_configured', C)],
     ['is_configured, configuration.dict, configuration, sub_components', 'raised errors'])

prop('P06', 'A saved component is restored identically, and is never overwritten silently',
     '''A component that is saved and then loaded into a fresh object of the same class, at any depth of nesting of sub components, has the same configuration,
     data and sub components as the one saved.
     Loading into an object of another class, loading into a configured object, saving an unconfigured component, and saving a component with attributes that would not be stored are refused.
     Saving to a place that already holds a saved component is refused and leaves what is stored there unchanged, unless overwriting is requested explicitly.''',
     ['histories', 'inputs'],
     '''All trees of components and all sequences of save (with or without overwrite) and load operations to several locations.''',
     '''The tests save and load one or two fixed objects; round-trip and no-overwrite must hold for all trees and histories.''',
     [C], [('BaseComponent.save', C), ('BaseComponent.load', C)],
     ['directory contents after save', 'configuration/data/sub_components after load', 'raised errors'])

prop('P07', 'Sub components are only exchanged on load if compatible, and then completely',
     '''When replacement sub components are given on load, a replacement is accepted if and only if it is compatible with the saved one (same class, settings, check values and
     compatible non-exempt sub components, regardless of mutable settings) or the owning component explicitly exempts that sub component from the check.
     After a successful load exactly the named sub components, at whatever depth, are the given replacement objects, all other parts are as saved, and the recorded configuration describes the result.
     A replacement that matches nothing or is not compatible makes the load fail.''',
     ['inputs', 'histories', 'configurations'],
     '''All pairs of component trees (saved and replacement) that differ in any field at any depth, and all sets of requested replacements.''',
     '''Compatibility is a relation over all pairs of configurations and nested trees; the tests enumerate a handful of pairs.''',
     [C], [('Configuration.is_compatible', C), ('BaseComponent.load modified_sub_components', C), ('replace_sub_components', C)],
     ['load() result or error, sub_components, configuration', 'Configuration.is_compatible'])

prop('P08', 'Checkpoints are numbered, kept, pruned and restored as requested',
     '''Every saved checkpoint gets the next higher number, and loading restores exactly the weights of the requested number, or of the newest checkpoint if none is requested.
     Protected checkpoints are never deleted; of the unprotected ones exactly the newest ones up to the requested maximum (at least one) are kept, and only those listed in the checkpoint record exist as files.
     An existing checkpoint is never overwritten, and a request for an unknown checkpoint is refused.''',
     ['histories', 'inputs'],
     '''All sequences of save (protected or not, with any retention maximum), change of weights, load of any number, also interleaved with fresh model objects.''',
     '''Retention and numbering are properties of arbitrary histories; the tests perform a few fixed saves.''',
     [MB], [('Model.save_weights', MB), ('Model.load_weights', MB)],
     ['files in the checkpoint directory', 'model_checkpoint.yaml', 'variables after load_weights'])

prop('P09', 'A crash while saving never costs the checkpoints that existed before',
     '''If the process is killed at any point while a model checkpoint, its records or the training records are being written, then afterwards a fresh process can load a complete checkpoint: the newest finished one
     before the interrupted save, or the one being saved.
     Protected checkpoints remain loadable under their numbers.
     Training can be resumed from there, i.e. later saves succeed and never restore or report weights under a wrong checkpoint number.''',
     ['crash_points', 'histories'],
     '''Every file system operation during saving as crash point (including partially written files), after every history of earlier saves, and repeated crashes.''',
     '''No test injects crashes; the guarantee is about each intermediate state on disk.''',
     [MB], [('order of checkpoint write, record update and pruning in save_weights', MB), ('update_num_training_steps', MB)],
     ['directory contents at each crash point', 'load_weights/save_weights in a fresh process'])

prop('P10', 'The training history is recorded completely and in order',
     '''Every start of a training with given settings appends one new entry to the model's training history, with the configuration and components used stored alongside under this entry, and never alters earlier entries.
     The number of training steps reported for the latest entry is that of the most recent checkpoint, and steps of earlier entries remain as recorded.
     Reloading a model from disk neither loses nor changes its history.''',
     ['histories'],
     '''All sequences of starting trainings, checkpointing with step numbers, and reloading.''',
     '''A property of histories; the tests look at one training entry.''',
     [MB], [('Model.save_training_settings', MB), ('Model.update_num_training_steps', MB)],
     ['training_steps.yaml and training/ directory'])

T = 'egenerator/data/trafo.py'
prop('P11', 'Normalisation statistics are those of the whole sample, however it is batched',
     '''The mean and standard deviation the data transformation uses for each tensor are those of all events it was built from (for the configured number of batches), computed after the configured logarithm is applied to the
     configured entries, and are independent of how the events are divided into batches and, for per-event statistics, of their order.
     Entries without variation are normalised with a standard deviation of one.
     Tensors that are not to be transformed do not get statistics and are left alone.''',
     ['inputs', 'configurations'],
     '''All samples, all partitions of a sample into batches of unequal size, and all tensor shapes and trafo axes/log settings.''',
     '''Requires equality over all partitions of all samples; the tests use a few fixed batches of equal size.''',
     [T], [('_update_online_variance_vars', T), ('_perform_update_step', T), ('_configure', T)],
     ['data_trafo.data after configure()'])

prop('P12', 'Data transformation is inverted exactly and agrees for all input kinds',
     '''Transforming any tensor in the model's domain and transforming it back returns the original values within floating-point precision, and the inverse followed by the forward transformation does as well.
     The result does not depend on whether the input is a numpy array or a tensorflow tensor, and entries are transformed individually, each with its own statistics, with no influence from other events or entries.
     Differences and covariances are scaled consistently with this, the input is never modified, and a request for a tensor without a transformation or of another shape is refused.''',
     ['inputs', 'configurations'],
     '''All tensors, shapes, log settings (none, all, per entry), biases, and input kinds, for batches of any size.''',
     '''Quantifies over all configurations of logs, biases and shapes; the tests check a few example values.''',
     [T], [('transform', T), ('inverse_transform', T), ('inverse_transform_cov', T)],
     ['transform() and inverse_transform() results'])

MS = 'egenerator/model/multi_source/base.py'
prop('P13', 'A multi-source model is the exact superposition of its component sources',
     '''The charge a multi-source model predicts at each DOM of each event is the sum, and the likelihood of each pulse the charge-weighted mean, of what its component sources predict, where each source is evaluated by its own base model
     on exactly its own input parameters.
     This holds for every number and mixture of sources and base models and does not depend on the order in which sources are listed.
     Excluded DOMs and time windows change the prediction only as the component sources define it, and parameter names and positions of the combined model translate into each other one-to-one.''',
     ['inputs', 'configurations'],
     '''All configurations of sources mapped to base models, all parameter values, event numbers and pulses.''',
     '''Sources can be mixed up only in configurations with several different base models, which the tests do not evaluate numerically.''',
     [MS, 'egenerator/model/multi_source/independent.py', 'egenerator/model/multi_source/track/stochastic_track.py',
      'egenerator/model/multi_source/muon/default.py', 'egenerator/model/source/base.py'],
     [('get_tensors', MS), ('get_source_parameters', 'egenerator/model/multi_source/independent.py')],
     ['dom_charges, pulse_pdf and further tensors of get_tensors()', 'calls to the base sources'])

L = 'egenerator/loss/default.py'
prop('P14', 'Loss terms treat events, pulses and DOMs independently and ignore exclusions',
     '''Every loss is additive over the events of a batch (unless normalised by the total charge of the batch): adding, removing or changing one event changes no other event's contribution, and the order of events and of pulses does not matter.
     The scalar loss equals the sum of its individual terms, sorting the terms by event and DOM neither loses nor duplicates any contribution.
     Excluded DOMs have no influence at all on the loss.''',
     ['inputs', 'configurations'],
     '''All available loss functions, all batches, pulse assignments, exclusion masks and reduction options.''',
     '''Independence is a relation between pairs of runs over all inputs; no test evaluates the loss functions.''',
     [L], [('unbinned_extended_pulse_llh and the other loss functions', L), ('get_loss', L)],
     ['return value of get_loss()'])

ML = 'egenerator/loss/multi_loss.py'
prop('P15', 'Total losses are exact sums over models and loss components',
     '''A combined loss equals the sum of the losses of its components evaluated on the same inputs, and an ensemble's loss equals the sum of the losses of its members, each evaluated by that member, for scalar as well as for itemised losses,
     where corresponding items are added to each other.
     Evaluating a loss does not modify its inputs and evaluating it again gives the same result.
     All members of an ensemble must agree in their data handling and parameters, otherwise it is refused.''',
     ['inputs', 'configurations'],
     '''All numbers of models and loss components, all term structures and reduction options.''',
     '''No test evaluates combined or ensemble losses.''',
     [ML, MG, SM], [('MultiLossModule.get_loss', ML), ('get_loss', MG), ('parameter_loss_function', SM)],
     ['return value of get_loss() / parameter_loss_function()'])

prop('P16', 'Fits vary exactly the selected parameters and keep all others at their seed',
     '''When only some parameters are fitted, the loss, its gradients and its derivatives are evaluated at the hypothesis in which each selected parameter has the value proposed by the optimizer for it and each other parameter has its seed value.
     The reported result carries the optimizer's values at the selected parameters and the seed values, in original units, at all others.
     This holds for every choice of parameters, in normalised as well as original parameter space, with seeds given by name or value, and for starting points and bounds alike.''',
     ['inputs', 'configurations'],
     '''All subsets of fitted parameters, all seeds and proposals, with and without transformation, one or several events.''',
     '''All 2^n choices of parameters and both spaces have to be consistent at three places; no test calls these functions.''',
     [SM, 'egenerator/manager/reconstruction/modules/utils/trafo.py'],
     [('parameter_loss_function', SM), ('reconstruct_events', SM),
      ('get_reco_result_batch', 'egenerator/manager/reconstruction/modules/utils/trafo.py')],
     ['parameters seen by the model', 'x0/bounds handed to the optimizer', 'result batch'])

RT = 'egenerator/manager/reconstruction/tray.py'
RM = 'egenerator/manager/reconstruction/modules/reconstruction.py'
prop('P17', 'Reconstruction modules run in order and the best reconstruction is selected',
     '''Executing a reconstruction chain runs each added module exactly once, in the order added, gives it the results of all earlier modules, and returns each module's results with its run time under its unique name; executing it again
     starts afresh.
     Adding a second module under an existing name is refused and changes nothing.
     Functions are shared only between modules that request the same function with the same settings, and the selection of the best reconstruction returns the complete, unmodified result with the lowest loss among those listed.''',
     ['histories', 'inputs'],
     '''All sequences of adding modules, executing and caching, and all loss values including ties, NaN and infinities.''',
     '''About all histories of add/execute; the chain has no tests at all.''',
     [RT, RM], [('ReconstructionTray.execute', RT), ('FunctionCache', RT), ('SelectBestReconstruction.execute', RM)],
     ['order and arguments of module calls', 'returned results', 'functions returned by the cache'])

SO = 'egenerator/utils/spherical_opt.py'
prop('P18', 'The global optimizer returns the best point it has evaluated',
     '''The minimum reported by the derivative-free global optimizer is a point it has evaluated, with the function value at that point, and no point it evaluated, including the initial ones, has a lower value.
     Undefined (NaN) function values count as infinite.
     The numbers of iterations and function calls reported are the ones performed, no iteration is started once a limit is reached, and the reason for stopping is reported truthfully.
     All points it evaluates keep their angular coordinates in the valid range of zenith and azimuth.''',
     ['inputs', 'configurations', 'histories'],
     '''All functions, starting points, random sequences, batch sizes, angular coordinates and stopping criteria.''',
     '''Depends on the random sequence and the function; there are no tests of the optimizer.''',
     [SO], [('spherical_opt main loop', SO)],
     ['evaluated points and values', 'returned result'])

LR = 'egenerator/utils/learning_rate.py'
prop('P19', 'Piecewise learning-rate schedules use the right schedule in each step interval',
     '''At every training step a piecewise learning-rate schedule returns the value of the sub-schedule that is responsible for the interval containing this step, evaluated at the number of steps since that interval began.
     The intervals cover all steps without gaps or overlaps, for any number of intervals, and the last one is open-ended.
     Inconsistent numbers of boundaries and schedules are refused.''',
     ['inputs', 'configurations'],
     '''All boundaries, numbers of intervals and step numbers.''',
     '''Mix-ups between intervals show only with three or more intervals and at boundaries; there are no tests.''',
     [LR], [('MultiLearningRateScheduler.__call__', LR)],
     ['returned learning rate'])

ST = 'egenerator/settings/setup_manager.py'
prop('P20', 'Configuration files are merged completely and without silent overrides',
     '''The configuration assembled from several files and settings contains exactly the union of their entries plus the defaults that were not given, except that the entries provided by the program itself (combined name, version of the code) always have its values.
     A top-level entry that is defined twice is refused, regardless of the order of the files, and so is a missing or empty file list.
     References to other entries in texts of settings (but not in lists) are replaced by the final values, and the combined name is determined by the files given.''',
     ['inputs', 'configurations'],
     '''All sets and orders of configuration files and all their contents.''',
     '''Tests use two fixed files; duplicates can occur between any pair and with defaults.''',
     [ST], [('SetupManager._setup_config', ST)],
     ['SetupManager.config / get_config()', 'raised errors'])

PD = 'egenerator/data/modules/data/pulse_data.py'
prop('P21', 'Pulse data are aggregated per event and DOM without loss, mixing or invention',
     '''For every input file, the pulse lists delivered contain each recorded pulse on a regular DOM exactly once, assigned to the event, string and DOM it was recorded for, in the recorded order, and nothing else.
     The charge per DOM is the sum of the charges of all its recorded pulses in the event, and time ranges are derived from the event's own pulses.
     Only if configured, pulses of excluded DOMs are discarded afterwards. DOMs with numbers above 60 are irregular.
     DOM and time-window exclusions are applied to exactly the events and DOMs they were recorded for, also when events have no pulses or exclusions, and a file without the required data is skipped.''',
     ['inputs', 'configurations'],
     '''All pulse maps (events without pulses, several pulses per DOM, irregular DOMs), exclusions, and configuration options.''',
     '''The tests compare one sample file, and fail here because of a changed signature.''',
     [PD], [('get_data_from_hdf', PD), ('get_data_from_frame', PD)],
     ['tensors returned by the module'])

GF = 'egenerator/data/modules/filters/general_filter.py'
SL = 'egenerator/data/modules/misc/seed_loader.py'
prop('P22', 'Filters, seeds and labels refer to the right event',
     '''An event passes the general filter if and only if it fulfils all configured constraints, with the same decision whether it is read from a file or from a frame.
     Seed and label tensors contain for each event the configured quantities of this very event in the configured order, and configured missing values where they are not available.
     Cascade positions are shifted along the direction of flight, with the times and distances adjusted for light, if and only if this is configured, and logarithms, snowstorm parameters and further labels are appended in a fixed order.
     Any number of seeds and constraints can be configured, and a file or frame lacking required entries (a missing column or table, or a vector that is too short for any of its events), or with seeds for different numbers of events, is skipped or reported, never misassigned.''',
     ['inputs', 'configurations'],
     '''All constraint lists, operators, values (including ties and NaN), numbers and orders of seeds and columns.''',
     '''Tests cover the dummy filter only.''',
     [GF, SL, 'egenerator/data/modules/labels/cascades.py',
      'egenerator/data/modules/labels/muons.py',
      'egenerator/data/modules/labels/snowstorm_tracks.py'],
     [('get_event_filter_from_hdf', GF), ('get_data_from_hdf', SL)],
     ['event mask', 'seed tensors', 'label tensors'])

TE = 'egenerator/data/tensor.py'
prop('P23', 'Tensor lists have one canonical order and survive serialisation',
     '''A list of data tensors has the same, name-sorted order no matter in which order its tensors are given, and names, indices and tensors translate into each other consistently, in every list.
     Two lists are equal if and only if all tensors agree in all their properties, and two tensors with the same name in a list are refused.
     Serialising and restoring a list gives an equal list, and inconsistent tensor definitions are refused on creation.''',
     ['inputs', 'histories'],
     '''All lists of tensors, orders, and values of all tensor properties.''',
     '''Order independence and equality are relations over all pairs of lists; the tests compare a handful.''',
     [TE], [('DataTensorList', TE), ('DataTensor', TE)],
     ['names, list, get_index, get_name, [], ==, serialize/deserialize'])

MT = 'egenerator/manager/base.py'
prop('P24', 'Training steps apply the gradients of the current loss to the right weights',
     '''Each training step updates every trainable weight of every model of the ensemble, by the optimizer's rule, with the gradient of the total loss (including regularisation with the configured strengths) with respect to this very weight, also if some weights have no gradient,
     and changes nothing else.
     Evaluating the loss for validation changes no weights.
     Training performs exactly the configured number of iterations, with validation and checkpoints at the iterations that are multiples of the configured frequencies, and a final checkpoint whose recorded step number equals the number of steps performed.
     Validation uses the validation data only, and models can be trained repeatedly, with a fresh optimizer each time.''',
     ['histories', 'configurations'],
     '''All ensembles, sets of weights with and without gradients, gradient options, and iteration/checkpoint/validation frequencies.''',
     '''No test performs a training step.''',
     [MT], [('perform_training_step', MT), ('train', MT)],
     ['weights before and after a step', 'calls to save_weights and get_loss during train()'])

SC = 'egenerator/model/source/cascade/default.py'
SN = 'egenerator/model/source/noise/default.py'
ST = 'egenerator/model/source/track/stochastic_segment.py'
SQ = 'egenerator/model/source/cascade/charge_quantiles.py'
SS = 'egenerator/model/source/cascade/systematic.py'
prop('P25', 'A source predicts one rate of light, time exclusions cut from it exactly',
     '''Every source model (cascades, tracks, noise) stands for an expected rate of light at each DOM as a function of the time since the event, given by the hypothesis of this event alone.
     The likelihood of the time of a pulse integrates to one (time in microseconds for all sources, so that sources can be superposed); the expected charge at a DOM is the integral of the rate over the time that is not excluded (for noise: within the read-out window), and expected charge times pulse likelihood is the same rate outside of the excluded windows, no matter what is excluded.
     In inference, predictions do not depend on the other events of a batch, on pulses and exclusions at other DOMs, on the order of events, pulses and windows, on whether a window is split, on a common shift of all times of an event, or on how a direction is written (azimuth plus 2 pi; opposite zenith on the opposite side).
     Charges scale with energy, relative DOM efficiency and global DOM efficiency as configured (and do not otherwise depend on these switches), the distribution of the charge has the predicted mean and variance, and a superposition of sources has the sum of their rates.''',
     ['inputs', 'configurations'],
     '''All batches of events (hypotheses, times, pulses, excluded windows, read-out windows), all weights of the models, all model settings.''',
     '''No test evaluates a source model; and relations between batches (locality, invariance, additivity) are about all pairs of batches.''',
     [SC, SN, ST, SQ, SS, 'egenerator/utils/basis_functions.py'],
     [('DefaultCascadeModel.get_tensors', SC), ('DefaultNoiseModel.get_tensors', SN), ('StochasticTrackSegmentModel.get_tensors', ST)],
     ['dom_charges, dom_charges_variance, pulse_pdf, dom_charges_log_pdf_values of get_tensors'])

SI = 'egenerator/ic3/simulation.py'
BF = 'egenerator/utils/basis_functions.py'
MS = 'egenerator/manager/source.py'
prop('P26', 'Simulation turns each light source of an event into pulses exactly once',
     '''For any tree of particles, the simulated sources are exactly the topmost particles that can be simulated as cascades, with enough energy and near enough to the detector, each once and in the order of the tree (nothing below a simulated or dropped particle); an event with a particle that deposits light but can not be simulated is refused instead of simulated incompletely.
     Each source is described by its own parameters, by name, with the configured defaults (constants or values of the frame) for all others.
     Each photo electron drawn becomes exactly one pulse at its DOM, with a time drawn from the time distribution of this very source and DOM, after the time of this source; the pulses of a DOM are ordered in time and their charges sum to the number of photo electrons; DOMs without photo electrons have no pulses, and events without sources have none.
     The numbers of photo electrons have the predicted mean and variance, for every expectation however small, and the same seed gives the same pulses.''',
     ['inputs', 'random draws'],
     '''All particle trees, thresholds, defaults, predictions of the model (including DOMs without light), numbers of photo electrons and random numbers.''',
     '''No test covers the simulation; what is drawn is random, and the trees are unbounded.''',
     [SI, BF, MS], [('EventGeneratorSimulation', SI), ('sample_from_negative_binomial', BF), ('asymmetric_gauss_ppf', BF), ('get_model_tensors_function', MS)],
     ['pulse series map in the frame', 'parameter tensor the model is asked with', 'result tensors'])

FQ = 'egenerator/manager/reconstruction/modules/fit_quality.py'
prop('P27', 'The goodness of fit compares the data with complete simulated events',
     '''Each sampled hypothesis (the best fit, or drawn around it with its covariance, in logarithms where the parameters are logarithmic) is simulated to a complete event: its pulses, the DOM and event they belong to, their cumulative charges and the charges at the DOMs all describe the same simulated light, everything else is that of the data, and the data are not changed.
     Each simulated event is reconstructed (if configured) with the same settings and free parameters, with its own hypothesis as seed, and its loss is evaluated at its own result; the loss of the data is evaluated at the best fit.
     The one-sided and two-sided p-values, of the event and of each DOM, are exactly the share of samples that fit no better than the data, and twice the smaller tail of the samples at the data, optionally with losses normalised by charge; bias and covariance of the reconstructions of the samples are exact.
     The same seed gives the same result.''',
     ['inputs', 'configurations', 'random draws'],
     '''All numbers of samples, pulses and losses, settings (fitted parameters, space, quantiles, orders of tensors), hypotheses and covariances.''',
     '''No test covers the goodness of fit, its result is a distribution over random events.''',
     [FQ, BF], [('GoodnessOfFit', FQ)],
     ['results of execute', 'events the loss and fits are evaluated with'])

IR = 'egenerator/ic3/reconstruction.py'
OA = 'egenerator/manager/reconstruction/modules/opening_angle.py'
prop('P28', 'Each frame gets the results of the best fit of its own event',
     '''The reconstruction module for frames loads the models with the settings it is given and fits the event of every frame from every configured seed. The frame then holds, for the first of the fits with the least loss: its hypothesis (fitted parameters from the optimizer, the others from its seed), its loss, the loss of its seed and whether it succeeded, for each of the optimizer interfaces; nothing of another event, fit or frame.
     If asked for, the covariances of all pairs of parameters (named as logarithmic where they are), the goodness of fit with its values per DOM, the circularised uncertainty and a particle with the mapped parameters belong to this hypothesis, and run times are given for each module. Each frame is passed on once; covariances of partial fits are refused.
     The circularised uncertainty evaluates directions at exactly the angles it claims, fits the remaining parameters, and is the width whose coverage is closest to that of the likelihood by the theorem of Wilks with the number of parameters less two (for two the very width of a parabola); it is positive.''',
     ['inputs', 'configurations', 'histories'],
     '''All streams of frames, parameters (logarithmic or not), masks, seeds, optimizer interfaces, spaces and combinations of modules; all directions and widths.''',
     '''Nothing in the tests runs the module for frames: which value belongs to which fit depends on the seed that wins, the mask and the history.''',
     [IR, OA, 'egenerator/utils/angles.py', 'egenerator/manager/reconstruction/modules/covariance.py'],
     [('EventGeneratorReconstruction', IR), ('CircularizedAngularUncertainty', OA)],
     ['objects written to the frame', 'frames passed on', 'result of the uncertainty module'])

prop('P29', 'What was trained is what is exported, loaded and used',
     '''From the configuration files to the models in use: the scripts to create a normalisation, to train, to export and to reconstruct, and the ManagerConfigurator that loads exports. Each command has exactly the effect its files describe: a normalisation is that of the data of its file; a model starts from its own initial weights and normalisation, or continues with weights, steps and normalisation of the stored model if this is to be restored; a model that is made of others starts from new ones with their own weights and normalisations or from copies of stored ones, which it never changes; evaluations are those of the settings and the history of trainings is recorded; an export holds the models of all its files as they were at that time, in their order.
     Whoever loads exports (one or several) or reconstructs gets all their models, in order, with their weights and their normalisation, the loss (the sum of all its modules) of the settings asked for, or of the first file or export, and the seeds, labels and data with exactly the requested changes, whatever the number of models. Models with different parameters, order of parameters, data or normalisations are not combined; missing or incompatible parts are refused.
     Nothing that exists is replaced or deleted without consent, and a command changes files only in the directory it is asked to write.''',
     ['configurations', 'histories'],
     '''All sequences of commands, all sets of configuration files (shared or separate directories of any name, continued or new models, one or several losses, seeds and modules).''',
     '''The tests run one script with one file; mixing of models, losses and modules depends on the number of models and on the history of the directories.''',
     ['egenerator/train_model.py', 'egenerator/create_trafo_model.py', 'egenerator/export_manager.py', 'egenerator/reconstruct_test_data.py', 'egenerator/utils/configurator.py', 'egenerator/utils/build_components.py', 'egenerator/manager/base.py'],
     [('ManagerConfigurator', 'egenerator/utils/configurator.py'), ('build_manager', 'egenerator/utils/build_components.py'), ('_check_model_ensemble_compatibility', 'egenerator/manager/base.py')],
     ['exit of the scripts, questions asked', 'files in all directories', 'models, tensors and losses of the loaded manager'])

prop('P30', 'The table of a test reconstruction has one true row per event',
     '''Reconstructing test events (SourceManager.reconstruct_testdata, events one at a time) writes a table with exactly one row for each event of the test data, in their order, and nothing of one event appears in the row of another.
     A row holds the truth, the best fit and the seed of that fit for each parameter, the losses at these three points for the data of the event, and exactly the columns asked for: uncertainties and correlations are those of the covariance matrices at the best fit, the goodness of fit, sampled uncertainties and biases, circularised uncertainty are those the modules found for the event. Each file of a Markov chain holds the samples of its event, each next to its likelihood, ordered by it; chains without samples have no file.
     All settings reach all modules: parameters to fit by name, seeds, space, optimizer, data. The table works for all optimizer interfaces and all locations, and no other file is written.''',
     ['inputs', 'configurations'],
     '''All lists of events, optimizer results, seeds, parameters to fit, settings and locations of the output.''',
     '''No test reconstructs events; rows depend on the interplay of all modules per event.''',
     ['egenerator/manager/source.py', 'egenerator/manager/reconstruction/tray.py', 'egenerator/manager/reconstruction/modules'],
     [('reconstruct_testdata', 'egenerator/manager/source.py')],
     ['columns and rows of the HDF table', 'files that are written', 'batches and settings given to modules'])

prop('P31', 'Likelihood scans and Markov chains show the likelihood at the points they name',
     '''Markov chains (MarkovChainMonteCarlo) start at the best fit; of every result step after the burn-in steps, the points at which a chain arrived by an accepted step are kept, each exactly once, as hypotheses of all parameters in the space of the user. Each one is listed with the log likelihood of that hypothesis and the data of the event. Parameters that are not fitted have the values of the seed.
     A likelihood scan (Visualize1DLikelihoodScan) draws for each parameter the loss as function of this parameter over one standard deviation of the transformation to both sides of the truth: once with all other parameters from the truth, once with all others from the best fit. Each point of the curve is the loss of that hypothesis and the data of the event; marked are truth, best fit and their losses. There is one figure per parameter and event, in the file named by event number and parameter; figures are closed.
     This holds for each set of fitted parameters, space, seed, number of chains, results, burn-in steps and steps between results, and each kernel. Results of other modules are unchanged.''',
     ['inputs', 'configurations', 'histories'],
     '''All histories of accepted and rejected steps, events, transformations, losses, sets of fitted parameters, spaces and settings of chains.''',
     '''No test runs chains or scans; errors show up as plausible figures and samples.''',
     ['egenerator/manager/reconstruction/modules/mcmc.py', 'egenerator/manager/reconstruction/modules/visualization.py', 'egenerator/manager/source.py'],
     [('execute', 'egenerator/manager/reconstruction/modules/mcmc.py'), ('execute', 'egenerator/manager/reconstruction/modules/visualization.py'), ('run_mcmc_on_events', 'egenerator/manager/source.py')],
     ['samples and log_prob_values', 'curves and lines of figures, names of their files'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
