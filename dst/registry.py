"""What is checked, how much of it, and what is real in it. Plain data: this
is read by the runner, which does not import the code under test."""

REAL = ['all of cdtools', 'torch (CPU, one thread)', 'numpy', 'matplotlib '
        '(Agg backend)', 'real Python threads, run one at a time']
STUBS = ['clocks and time.sleep (simulated time)', 'thread scheduling, locks, '
         'events and queues (simulated scheduler)', 'the event loop of the '
         'window system (FigureCanvasBase.flush_events delivers scripted user '
         'actions)']
ASSUME = ['the scheduler switches threads only at lines of cdtools and at '
          'calls which block or read a clock; the bodies of torch, numpy and '
          'matplotlib calls are atomic',
          'CPU, one torch thread; no GPU']

PLAN = ['plan.ctrl_c', 'plan.pre', 'plan.stalls', 'plan.jumps', 'plan.ui']

PROPS = {}
NOT_APPLICABLE = {}

NOTE = ('Seeded search over simulated executions of the real code: evidence, '
        'not proof. Trusts the simulator (dst/sim.py), the oracle of the '
        'property module, and torch, numpy, h5py and matplotlib.')


def prop(pid, quick, thorough, technique, rule, **kw):
    PROPS[pid] = dict({'quick': quick, 'thorough': thorough, 'rule': rule,
                       'technique': technique, 'level_note': NOTE,
                       'real': REAL, 'stubs': STUBS, 'assumptions': ASSUME},
                      **kw)


prop('P01', 1000, 30000, 'random schedules of the computing thread, compared '
     'with a foreground run',
     'a random model, dataset, optimizer and call, run once in the foreground '
     'and once in the background under a random schedule (preemptions at '
     'source lines, stalls, clock jumps, user actions in figures); '
     'non-trivial: more than 3 context switches happened; distinct by the '
     'hash of the complete event log',
     shrink=PLAN + ['body'],
     simplify={'call.iterations': [1, 2], 'figures': [0, 1],
               'call.calculation_width': [10], 'system.data.n': [4]})

prop('P02', 1400, 30000, 'injected interrupts and exceptions under random '
     'schedules, compared with undisturbed runs',
     'a random reconstruction with one or two random faults (Ctrl-C at a '
     'source line, an exception of any kind in the model or while reading '
     'data, a failing callback of a figure, a thread which cannot be started, '
     'a consumer which stops) under a random schedule; non-trivial: a fault '
     'fired; distinct by the hash of the complete event log',
     shrink=PLAN + ['raise', 'plan.thread_fail'],
     simplify={'call.iterations': [1, 2], 'figures': [0, 1], 'before': [0],
               'call.calculation_width': [10], 'system.data.n': [4]})

prop('P03', 1500, 40000, 'recorded histories of what the model was shown, '
     'with read errors, checked against the selection',
     'one to three random calls with random optimizers, batch sizes, subsets, '
     'data loaders and read errors; every evaluation of the model is recorded '
     'and checked; distinct by the hash of the complete event log',
     shrink=['calls'], simplify={'system.data.n': [5]})

prop('P04', 1500, 40000, 'reported losses recomputed from the recorded '
     'simulated patterns, over histories with read errors and reloads',
     'a history of up to four calls with random losses, masks, minibatches, '
     'subsets, read errors in the middle of an epoch, and reloads; distinct '
     'by the hash of the complete event log',
     shrink=['ops'], simplify={'system.data.n': [4]})

prop('P05', 1200, 40000, 'random histories of calls, compared with a plain '
     'training loop',
     'a history of up to five calls on one model: several reconstructors, '
     'used again or not, random hyperparameters, learning rate factors, '
     'schedules, regularizers, and parameters which get frozen or changed in '
     'between; distinct by the hash of the complete event log',
     shrink=['ops'], simplify={'system.data.n': [4]})

DISK = ['h5py.File, torch.save and torch.load open Python file objects which '
        'keep the content in scratch files and fail on demand']

prop('P06', 600, 20000, 'chains of jobs with crashes, lost and torn '
     'checkpoints, compared with one uninterrupted job',
     'a random script with one to three calls and checkpoints at random '
     'places, run as a chain of jobs, some of which crash, are started again, '
     'or find their checkpoint missing or truncated; non-trivial: there is at '
     'least one checkpoint; distinct by the hash of the complete event log',
     shrink=['trouble', 'calls'], simplify={'system.data.n': [4]})

prop('P07', 700, 25000, 'injected interrupts, exceptions and disk errors under '
     'random schedules, with the saved files compared to the model',
     'a random reconstruction within one of the context managers, with a '
     'Ctrl-C at a random source line, an exception in the data or the script, '
     'or a disk error, under a random schedule; non-trivial: a fault fired; '
     'distinct by the hash of the complete event log',
     shrink=PLAN + ['raise', 'disk', 'calls'], stubs=STUBS + DISK,
     simplify={'system.data.n': [4]})

prop('P08', 700, 25000, 'random histories with reloads, compared with a model '
     'which is never reloaded',
     'a history of two to six operations on a random model in a random '
     'configuration, with reloads through memory, files and checkpoints in '
     'between; distinct by the hash of the complete event log',
     shrink=['ops'], stubs=STUBS + DISK, simplify={'system.data.n': [4]})

prop('P09', 800, 25000, 'random histories over all objects of a user, with '
     'every array of every object compared after each operation',
     'a history of three to nine operations (optimizations, failing ones, '
     'saving, loading, splitting, simulating, overwriting in place, ...) on '
     'a growing set of datasets, models and results; distinct by the hash of '
     'the complete event log',
     shrink=['ops'], stubs=STUBS + DISK, simplify={'system.data.n': [4]})

prop('P10', 3000, 100000, 'generations of saving and loading, checked against '
     'an independent reader and writer of the format',
     'a history of two to six operations on random datasets: saving and '
     'loading by name, path or file, and reading what an independent writer '
     'of the format wrote; distinct by the hash of the complete event log',
     shrink=['ops'], stubs=STUBS + DISK)

prop('P11', 3000, 100000, 'random histories of operations with restarts, '
     'compared with a reference model of the dataset',
     'a history of two to nine operations on a random dataset, its parts and '
     'copies, including restarts through a file and refused operations; '
     'distinct by the hash of the complete event log',
     shrink=['ops'], stubs=STUBS + DISK)

prop('P12', 1200, 40000, 'injected disk errors, kills, lost and torn writes, '
     'compared with undisturbed saving and loading',
     'a random dataset, model, checkpoint or dictionary is saved and loaded '
     'with two to four faults at random disk operations: an error once or '
     'from then on, the process killed with or without loss of the last '
     'writes, a truncated file; non-trivial: a fault fired; distinct by the '
     'hash of the complete event log',
     shrink=['faults'], stubs=STUBS + DISK)

prop('P13', 700, 30000, 'random histories of inspections with clock jumps and '
     'user actions, compared with a reference model of the figures',
     'a history of three to nine operations (inspections, epochs, waiting '
     'times, clock jumps, closed figures, failing plots, changed settings, '
     '...) with user actions at random points; non-trivial: something is '
     'inspected; distinct by the hash of the complete event log',
     shrink=['plan.ui', 'ops', 'panels', 'plots'],
     stubs=STUBS + ['the GUI backend: figures of the Agg backend which claim '
                    'to be interactive'])

prop('P14', 900, 40000, 'random sequences of keyboard and mouse events with '
     'read errors and epochs, compared with a reference model of the viewers',
     'one to three viewers, and five to 25 random operations (events of the '
     'keyboard, the mouse and the toolbar, foreground and background epochs, '
     'read errors, changed data, closed, cleared and reused figures); '
     'non-trivial: a viewer moved; distinct by the hash of the complete event '
     'log',
     shrink=['ops', 'viewers'],
     stubs=STUBS + ['the window system: keyboard and mouse events are made by '
                    'the simulator, redraw requests are recorded'])

prop('P15', 900, 40000, 'random histories of tidying up between epochs, with '
     'failing decompositions, checked against the illumination before',
     'a history of two to seven operations (tidying up, epochs with tidying '
     'in between, failing decompositions, other forms of the same probes, '
     'restarts, inspections); non-trivial: probes were tidied up; distinct '
     'by the hash of the complete event log',
     shrink=['ops'], stubs=STUBS + DISK, simplify={'system.data.n': [4]})

prop('P16', 700, 30000, 'random interleavings of independent jobs with each '
     'other and with failing ones, compared with each job on its own',
     'one to three jobs (setting up, optimizing in the foreground or '
     'background, tidying up, restarting) are interleaved epoch by epoch with '
     'reading operations and with other, failing work; non-trivial: the '
     'program did something else in between; distinct by the hash of the '
     'complete event log',
     shrink=['order', 'jobs.0.ops'], stubs=STUBS + DISK)

prop('P17', 600, 25000, 'random histories of models, each of which simulates '
     'an experiment, saves and loads it, and fits it again, with failing '
     'simulations and disk errors',
     'a history of two to seven operations (reconstructing, simulating between '
     'or after epochs, tidying up, centering, restarts); non-trivial: always, '
     'each one simulates; distinct by the hash of the complete event log',
     shrink=['ops'], stubs=STUBS + DISK, simplify={'system.data.n': [4]})

prop('P18', 700, 25000, 'random histories of models with failing '
     'reconstructions and disk errors, in which an independent reference '
     'calculates the patterns from what was saved',
     'a history of three to seven operations (reconstructing with failures, '
     'saving to memory or a file, within contexts or not, with the dataset of '
     'the reconstruction or another one, tidying up, centering, restarts); '
     'non-trivial: always, each one saves; distinct by the hash of the '
     'complete event log',
     shrink=PLAN + ['ops'], stubs=STUBS + DISK,
     simplify={'system.data.n': [3]})
