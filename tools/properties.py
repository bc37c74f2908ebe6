"""The source of properties.jsonl (python tools/properties.py writes it)"""
import json
import os

P = []


def add(id, title, statement, over, text, why, files, mechanism, observe,
        state=()):
    assert len(title) <= 80, title
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'state': [{'name': n, 'meaning': w} for n, w in state],
            'observe_at': observe, 'hook_needed': None}})


RB = 'src/cdtools/reconstructors/base.py'
RA = 'src/cdtools/reconstructors/adam.py'
RS = 'src/cdtools/reconstructors/sgd.py'
RL = 'src/cdtools/reconstructors/lbfgs.py'
MB = 'src/cdtools/models/base.py'

add('P01', 'Background reconstructions equal foreground ones',
    '''With the same starting point and random seed, a reconstruction which is
    computed in a background thread yields exactly the same losses, parameters
    after every epoch, loss history, epoch count and training history (apart
    from durations) as one which is computed in the foreground. This holds no
    matter how the threads are scheduled, how the clocks behave, and what the
    user does with open figures in the meantime. Whenever an epoch has been
    handed to the caller, no computation is running, and in the foreground, there
    never is one in any other thread.''',
    ['schedules', 'configurations'],
    '''every interleaving of the main thread with the computing thread, every
    stall and clock jump, every sequence of user actions on open figures, and
    every kind of model, optimizer, batch size and subset''',
    '''The tests run a few background reconstructions under whatever schedule
    the machine happens to choose, without figures, and never compare them
    with foreground ones.''',
    [RB, MB, RA, RS, RL],
    [('background thread and result queue', RB + ': Reconstructor.optimize'),
     ('one epoch', RB + ': Reconstructor.run_epoch')],
    ['the losses which optimize() yields', 'model.state_dict()',
     'model.loss_history, model.epoch, model.training_history'])

add('P02', 'Interrupted or failing reconstructions stop cleanly',
    '''Whatever goes wrong while a reconstruction runs - Ctrl-C at any moment,
    an exception of any kind in the model, in the reading of data or in a
    plot callback, a thread which does not start - the caller gets that
    exception promptly, and by then no computation is running any more. The
    model then holds the parameters after a whole number of optimizer steps,
    its loss history, epoch count and training history agree with each other
    and contain every epoch which was returned, and at most one more. Going on
    from there gives what a new model with these parameters would give.''',
    ['fault_sequences', 'schedules', 'crash_points'],
    '''every point at which the main or the computing thread can be
    interrupted or fail, every type of exception, every schedule of the two
    threads, with and without background computation''',
    '''The tests contain no interrupted and no failing reconstruction.''',
    [RB, MB],
    [('stop event and join', RB + ': Reconstructor.optimize'),
     ('exceptions travel through the result queue', RB + ': target'),
     ('normalization is only stored after a complete epoch',
      RB + ': Reconstructor.run_epoch')],
    ['the exception which reaches the caller', 'threads which are alive',
     'model.state_dict(), loss_history, epoch, training_history',
     'a second call to optimize()'])

add('P03', 'Every epoch uses each selected pattern exactly once, correctly paired',
    '''In each epoch which completes, the model simulates each pattern of the
    selected subset exactly once (with L-BFGS: once per evaluation of the
    objective) and no other, at the translation of that very pattern, and
    compares it with that very measured pattern under the model's mask. The
    patterns come in a new random order each epoch unless shuffling is off, in
    minibatches of the requested size, and no more than calculation_width of
    them are simulated at once. An error while a pattern is read ends the
    epoch, and never makes that epoch or a later one skip or repeat
    patterns.''',
    ['histories', 'fault_sequences', 'configurations'],
    '''every sequence of calls, subset, batch size, calculation width, data
    loader, shuffling order and read error''',
    '''The tests only look at final losses and parameters, which hardly change
    when a pattern is skipped, repeated or paired with a neighbour.''',
    [RB, RA, RS, RL, 'src/cdtools/datasets/ptycho_2d_dataset.py'],
    [('minibatches and chunks', RB + ': Reconstructor.run_epoch'),
     ('data loader', RB + ': Reconstructor.setup_dataloader'),
     ('inputs and output of an index',
      'src/cdtools/datasets/ptycho_2d_dataset.py: '
      'Ptycho2DDataset._load')],
    ['the arguments of model.interaction() and model.loss()'])

add('P04', 'Reported losses are the documented losses of the epoch',
    '''The loss which is returned and recorded for an epoch is the documented
    metric of all patterns which the epoch used: the mean squared error per
    unmasked pixel of amplitudes or intensities, or the normalized Poisson
    likelihood. The normalization is the one of the first epoch which was
    completed, and neither it nor the reported loss depends on how patterns are
    split into minibatches, on epochs which failed before, or on the model
    having been reloaded from saved results. The training history states the
    same losses, one line for each epoch.''',
    ['histories', 'fault_sequences', 'configurations'],
    '''every history of calls, read errors in any epoch, loss function, mask,
    subset, minibatch size and calculation width''',
    '''The tests compare the loss functions with a formula for one input, and
    never check a loss which a reconstruction reports.''',
    [RB, 'src/cdtools/tools/losses/losses.py'],
    [('normalizers', 'src/cdtools/tools/losses/losses.py: '
      'AmplitudeMSENormalizer, IntensityMSENormalizer, ...'),
     ('accumulation', RB + ': Reconstructor.run_epoch')],
    ['the losses which optimize() yields', 'model.loss_history'],
    [('model.loss_normalizer', 'what the losses are divided by')])

add('P05', 'Optimization histories follow the optimizers as documented',
    '''A history of calls to the optimizers gives the same losses and parameters
    as plain training loops with the corresponding torch optimizers, with the
    hyperparameters, learning rate factors, schedule and regularization of each
    call, and gradients accumulated over whole minibatches. Using a
    reconstructor again continues with the state of its optimizer, but with
    none of the hyperparameters of an earlier call. Parameters which are frozen
    do not change.''',
    ['histories', 'configurations'],
    '''every sequence of calls on one model, with the same and different
    reconstructors, any hyperparameters, in the foreground or background, and
    parameters which are frozen or changed in between''',
    '''The tests run single calls with one setting each, and look at whether the
    result is good enough, which it also is with a wrong learning rate.''',
    [RB, RA, RS, RL, MB],
    [('hyperparameters', RA + ': adjust_optimizer, and likewise in sgd.py and '
      'lbfgs.py'),
     ('gradient accumulation', RB + ': Reconstructor.run_epoch'),
     ('convenience methods', MB + ': Adam_optimize, LBFGS_optimize, '
      'SGD_optimize')],
    ['the losses which optimize() yields', 'model.state_dict()'])


add('P06', 'Chains of checkpointed jobs equal one uninterrupted job',
    '''A script which is run again and again, which stops at its next
    checkpoint each time and seeds its random numbers after each of them, ends
    with the same parameters, losses, loss history and training history as the
    same script run in one go - whatever optimizer and learning rate schedule
    it uses. Each job computes
    exactly the epochs after the checkpoint it starts from: none twice, none
    left out, and the script sees the same epoch numbers. A job which crashes
    at any point, or is started again, changes nothing about that, and a missing or damaged checkpoint makes the job fail
    instead of yielding other results.''',
    ['crash_points', 'histories', 'configurations'],
    '''every script made of one or more calls with any models and optimizers,
    and checkpoints anywhere within them, or between them where no earlier
    reconstructor is used again, every crash point of every
    job, jobs which are started again, and lost or truncated checkpoint
    files''',
    '''No test uses checkpoints of a reconstruction at all.''',
    [MB, RB],
    [('checkpoints', MB + ': use_checkpoints, checkpoint, save_checkpoint, '
      'load_checkpoint'),
     ('skipped epochs', RB + ': Reconstructor.optimize; ' + MB
      + ': skip_computation')],
    ['the losses which optimize() yields in each job', 'model.state_dict()',
     'how each job ends', 'the checkpoint files'],
    [('model.current_checkpoint_id', 'how many checkpoints were passed'),
     ('model.current_optimizer', 'the optimizer a checkpoint contains')])

add('P07', 'Results are saved however a script ends',
    '''With save_on_exit, the current results are in the file when the block is
    left, and with save_on_exception, they are if and only if it is left
    through an exception - a failure of the reconstruction, of the script
    itself, or Ctrl-C at any moment. The file contains exactly the parameters
    and records which the model has at the end, no other file is touched, and
    the exception goes on to the caller unchanged. If saving fails, this is
    never silent.''',
    ['crash_points', 'schedules', 'fault_sequences'],
    '''every point of a reconstruction at which it can be interrupted or fail,
    every type of exception, every schedule of the threads, existing files, and
    disks which cannot be written to''',
    '''The tests raise one exception in an otherwise idle block.''',
    [MB, 'src/cdtools/tools/data/data.py'],
    [('context managers', MB + ': save_on_exit, save_on_exception'),
     ('saving', MB + ': save_to_h5, save_results')],
    ['the files, read back', 'the exception which leaves the block'])

add('P08', 'A reloaded model continues exactly like the original',
    '''A model which is restored from its saved results, in memory or through a
    file, at any point of its life and any number of times, has the same
    parameters, constants, records and settings as the model which was saved.
    Everything which is done with it from then on - further reconstruction,
    simulated patterns, figures, saving it again - gives the same results as
    with the original.''',
    ['histories', 'configurations'],
    '''every kind and configuration of the models, every sequence of
    optimizations, reloads, and other operations''',
    '''The tests save and load freshly made models of one configuration each,
    and look at a few of their entries.''',
    [MB, 'src/cdtools/models/fancy_ptycho.py',
     'src/cdtools/models/bragg_2d_ptycho.py', 'src/cdtools/models/rpi.py',
     'src/cdtools/models/multislice_ptycho.py',
     'src/cdtools/models/simple_ptycho.py'],
    [('saving and loading', MB + ': save_results, from_results_dict, '
      'save_to_h5, from_results_h5'),
     ('what each model needs to be made again', 'src/cdtools/models/*.py: '
      '__init__, save_results')],
    ['model.state_dict()', 'model.forward()', 'losses of later epochs',
     'the figures of inspect()', 'model.save_results()'])

add('P09', 'Datasets, models and saved results are independent of each other',
    '''Reconstructing, inspecting, comparing, saving, loading, splitting,
    simulating or analysing never changes a dataset, another model, or results
    which were saved before, nor any array which is given to the tools: what was
    once saved stays as it was. A model restored from
    results does not change with them, nor do simulated or split datasets with
    their source. Only the object an operation is applied to changes, and
    operations which merely read change nothing, even when they fail.''',
    ['histories', 'fault_sequences', 'configurations'],
    '''every sequence of operations on any number of datasets, models, saved
    results and copies of them, with read errors, and with saved results or
    loaded parameters which are overwritten in place''',
    '''The tests look at the object which an operation returns, not at all the
    others, and shared memory only shows after a later operation.''',
    [MB, 'src/cdtools/models/fancy_ptycho.py',
     'src/cdtools/datasets/ptycho_2d_dataset.py',
     'src/cdtools/tools/analysis/analysis.py'],
    [('snapshots', MB + ': save_results, from_results_dict'),
     ('split, pad, downsample', 'src/cdtools/datasets/ptycho_2d_dataset.py'),
     ('copies at creation', 'from_dataset of each model')],
    ['all arrays of all datasets, models and results after each operation'])


DD = 'src/cdtools/tools/data/data.py'
DP = 'src/cdtools/datasets/ptycho_2d_dataset.py'
DB = 'src/cdtools/datasets/base.py'

add('P10', 'Datasets survive .cxi files, and the files follow the format',
    '''A dataset which is saved to a .cxi file - by name, path or open file - and
    loaded by a later program is the same dataset: every pattern, position,
    intensity, mask, background, efficiency, geometry, time and description,
    for any number of generations, apart from single precision and negative
    counts being cut off on request. The files contain what the format
    prescribes, in all places it prescribes, and files of other programs are
    read correctly whichever of the allowed forms they use. Reading changes no
    file, leaves out the patterns only if that was requested, and saving changes
    no dataset.''',
    ['inputs', 'histories', 'fault_sequences'],
    '''every dataset (shape, type, optional parts, metadata, units and
    conventions of the geometry), every form of file another program may have
    written, every sequence of saving and loading, and disk errors in between''',
    '''The tests write and read single fields, with well-behaved values, and
    compare two or three example files.''',
    [DD, DB, DP],
    [('reading the format', DD + ': get_*'),
     ('writing the format', DD + ': create_cxi, add_*'),
     ('datasets', DP + ': from_cxi, to_cxi; ' + DB + ': from_cxi, to_cxi')],
    ['attributes of the loaded dataset', 'the content of the file, read '
     'without cdtools'])

add('P11', 'Dataset operations keep patterns, positions and detector together',
    '''Whatever sequence of padding, binning, cropping, removing, splitting,
    converting, saving and loading is applied to a dataset, each remaining
    pattern stays with its own position and intensity, and is exactly what
    these operations are documented to make of the measured one. Mask,
    efficiency, background and pixel size follow the patterns; splitting loses
    and duplicates nothing. What a dataset hands out by index, slice or through
    a data loader agrees with that in content and type, and a refused operation
    changes nothing.''',
    ['histories', 'crash_points', 'inputs'],
    '''every dataset and every sequence of operations on it and on its parts
    and copies, with restarts, crashes and disk errors in between''',
    '''The tests apply one operation each to one or two example datasets, mostly
    without optional parts.''',
    [DP, DB],
    [('operations', DP + ': pad, downsample, split, '
      'remove_translations_mask, crop_translations'),
     ('types', DB + ': to, get_as, __getitem__')],
    ['attributes of the dataset', 'dataset[index], DataLoader(dataset)'])

add('P12', 'Disk errors and crashes never corrupt data silently',
    '''If a dataset, saved results, a checkpoint or a dictionary is saved without
    an error, the file is complete and correct, whatever went wrong on the
    disk. If one is loaded without an error, it is complete and correct, too:
    unreadable or missing parts, truncated files, and files which were only
    written in part because the program was killed yield errors, not
    incomplete content. A failed save or load leaves the objects in memory as
    they were, and loading works again once the disk does.''',
    ['fault_sequences', 'crash_points', 'inputs'],
    '''every dataset, model, optimizer state and dictionary, every position of a
    failing, full or lost disk operation while it is saved or loaded, every
    moment at which the program is killed, and every length of a truncated
    file''',
    '''The tests only use a disk which works.''',
    [DD, DB, DP, MB],
    [('datasets', DP + ': from_cxi, to_cxi; ' + DD + ': get_*, add_*'),
     ('results', MB + ': save_to_h5, from_results_h5; ' + DD
      + ': nested_dict_to_h5, h5_to_nested_dict'),
     ('checkpoints', MB + ': save_checkpoint, load_checkpoint')],
    ['exceptions', 'the loaded objects', 'the files'])


add('P13', 'Inspection figures stay up to date',
    '''The first inspection opens one figure for each plot, or panel of plots,
    that applies to the model and is within the requested level; every later
    one redraws exactly those which are still open, while figures closed by
    the user stay closed until all of them are requested, and other figures
    are never touched. Redrawn figures show the same as new ones, a plot which
    fails in a figure of its own does not keep the others from being drawn, and
    saving the figures
    writes each of them to a file of its own, named by its title. An update is
    skipped if and only if less than the requested interval has passed since
    the last one, whatever happens to the clock, and inspecting neither changes
    the model nor waits forever.''',
    ['histories', 'schedules', 'configurations'],
    '''every sequence of epochs, inspections, waiting times, clock jumps,
    closed, selected and additional figures, failing plots, changed settings
    and reloads, for the plots of every model and for user-defined ones, with
    interactive and other backends''',
    '''The tests call inspect() once or twice, and nobody looks at the
    figures.''',
    [MB, 'src/cdtools/models/fancy_ptycho.py',
     'src/cdtools/tools/plotting/plotting.py'],
    [('updating figures', MB + ': inspect, _inspect_panel, '
      '_inspect_individual_figures, save_figures'),
     ('the plots', 'plot_list and plot_panel_list of the models')],
    ['the open figures of matplotlib and their content', 'model.figs',
     'the calls of the plot functions', 'the saved files'])

add('P14', 'Interactive viewers show the data which they say they show',
    '''After any sequence of keys, scrolling, slider movements, clicks, zooming
    and toolbar navigation, each viewer (measured against simulated patterns,
    patterns and the probe of each exposure on the scan map, images with extra
    dimensions) shows the data of exactly the position which its sliders display, with color limits that
    match: keys step through all positions and wrap around, sliders and clicks
    select the position they point at. Moving to a position shows the current
    model and dataset; drawing into an existing figure again shows the new data
    at the selected position if the shape is the same and starts over if the
    figure was cleared or the shape differs. A viewer never moves or changes
    other viewers, other figures, the model, the dataset or a running
    reconstruction, and continues to work after data could not be read.''',
    ['histories', 'schedules', 'fault_sequences'],
    '''every sequence of user events in one or several open viewers, in between
    and during epochs, with read errors, changed data, closed, cleared and
    reused figures''',
    '''The tests open viewers, and never send an event to one.''',
    [MB, 'src/cdtools/datasets/ptycho_2d_dataset.py',
     'src/cdtools/tools/plotting/plotting.py'],
    [('comparing patterns', MB + ': compare'),
     ('perusing data', 'src/cdtools/datasets/ptycho_2d_dataset.py: inspect; '
      'src/cdtools/tools/plotting/plotting.py: plot_nanomap_with_images'),
     ('images with extra dimensions',
      'src/cdtools/tools/plotting/plotting.py: plot_image and its variants')],
    ['the images, sliders, texts and color limits in the figures',
     'redraw requests', 'the state of the model and the dataset'])


add('P15', 'Tidying up the probes never changes what a model predicts',
    '''Tidying up the probe modes - between epochs, repeatedly, on reloaded
    models, with any number of modes, with fixed or shot-to-shot weights, and
    even with empty, dependent or very weak modes - leaves the patterns which
    the model predicts for every position, the illumination of every position,
    and everything else about the model as they were. Afterwards, the modes are
    orthogonal and sorted by power, as are those of each position where the
    weights allow it, and then they have the mean power of all positions;
    reconstructions go on with the same parameters. If tidying up fails, the
    predictions are unchanged, too, and the caller gets the error.''',
    ['histories', 'fault_sequences', 'inputs'],
    '''every history of optimizations, tidying up, reloading and inspecting, with
    failing decompositions, and every state of the probes and weights''',
    '''The tests compare the tidied probes of one state, they do not compare
    predictions, nor tidy up degenerate or continued reconstructions.''',
    ['src/cdtools/models/fancy_ptycho.py',
     'src/cdtools/models/multislice_ptycho.py',
     'src/cdtools/tools/analysis/analysis.py'],
    [('tidying up', 'src/cdtools/models/fancy_ptycho.py, '
      'src/cdtools/models/multislice_ptycho.py: tidy_probes'),
     ('orthogonalization', 'src/cdtools/tools/analysis/analysis.py: '
      'orthogonalize_probes, product_svd')],
    ['predicted patterns', 'probes and weights', 'the other parameters and '
     'records'])


add('P16', 'A reconstruction does not depend on what else the program does',
    '''A reconstruction with a given seed yields the same numbers, bit for bit,
    when it runs on its own as when the program interleaves it, epoch by epoch,
    with other reconstructions and simulations, with ones which fail, are
    interrupted or are abandoned, and with reading operations on itself:
    showing and comparing results, reporting, saving, predicting, copying.
    Reading operations use no random numbers and change neither the model, the
    dataset nor what they return to others. Nothing which cdtools does leaves
    settings of the interpreter (of numpy, torch, matplotlib, threads, signals,
    the default generators' state without a request) changed afterwards.''',
    ['schedules', 'fault_sequences', 'histories'],
    '''every interleaving of independent jobs at the epochs where they hand over
    control, every failing or abandoned piece of work in between, and every
    reading operation at any such point''',
    '''The tests run one reconstruction at a time, and none of them looks at the
    state which one leaves behind for others.''',
    ['src/cdtools/models/base.py', 'src/cdtools/reconstructors/base.py',
     'src/cdtools/reconstructors/adam.py', 'src/cdtools/datasets/base.py',
     'src/cdtools/tools/plotting/plotting.py'],
    [('optimization loops', 'src/cdtools/models/base.py, '
      'src/cdtools/reconstructors/base.py: optimize'),
     ('reading operations', 'src/cdtools/models/base.py: inspect, compare, '
      'save_results; src/cdtools/datasets/base.py'),
     ('copies and splits', 'src/cdtools/datasets/ptycho_2d_dataset.py: split, '
      'copy')],
    ['losses and results of each job', 'random generators\' states',
     'interpreter-wide settings'])


add('P17', 'Simulated experiments contain what the model predicts',
    '''An experiment which is simulated with a model - in chunks of any size, at
    any positions, in any order, at any point of a reconstruction - is a dataset
    which contains, for each position, the pattern that the model predicts for
    this position alone, with the geometry, wavelength and mask of the model,
    and the corrected positions of a model are those it simulates.
    Nothing else changes, no random numbers are used, and a simulation which
    fails gives an error and leaves no traces. Saved and loaded by a
    later program, it is the same experiment: the model which it comes from
    fits it without any error, and a new model for it has the same geometry.''',
    ['histories', 'configurations', 'fault_sequences'],
    '''every history of a model, every selection and order of positions, every
    size of chunks, failures at any chunk, and disk errors''',
    '''The tests simulate nothing, or compare with a model which uses the same
    code for the same batch.''',
    ['src/cdtools/models/fancy_ptycho.py',
     'src/cdtools/models/multislice_ptycho.py',
     'src/cdtools/models/bragg_2d_ptycho.py', MB, DP],
    [('simulations', 'src/cdtools/models/*.py: sim_to_dataset'),
     ('geometry', MB + ': store_detector_geometry, get_detector_geometry'),
     ('predictions', 'src/cdtools/models/*.py: interaction, measurement')],
    ['the simulated datasets and files', 'losses of the true model',
     'geometry of new models'])

add('P18', 'Saved results describe the reconstruction',
    '''At any point of a reconstruction - between epochs, after an interruption
    or failure, when leaving a context which saves, after restarts - the saved
    results (object, probe, weights, background, translations, bases) are those
    of the model at that moment, in physical terms: whoever calculates the
    patterns from them and the given positions, without the model, gets what the
    model predicts for the dataset which they were saved with.
    Losses, epochs, and the history of the model which are saved with them are
    the current ones, and saving neither changes the model nor uses random
    numbers.''',
    ['histories', 'configurations', 'fault_sequences'],
    '''every history of a model, every combination of its options, every point at
    which it is saved, and failures and disk errors anywhere''',
    '''The tests check that some keys are there, or compare values to those which
    the same code has computed.''',
    ['src/cdtools/models/fancy_ptycho.py',
     'src/cdtools/models/simple_ptycho.py',
     'src/cdtools/models/multislice_ptycho.py',
     'src/cdtools/models/bragg_2d_ptycho.py',
     'src/cdtools/models/rpi.py', MB],
    [('saving', 'src/cdtools/models/*.py: save_results'),
     ('contexts', MB + ': save_to_h5, save_on_exit, save_on_exception'),
     ('predictions', 'src/cdtools/models/*.py: interaction, forward_propagator, '
      'measurement')],
    ['the saved dictionaries and files', 'predictions of the model'])


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')


if __name__ == '__main__':
    main()
