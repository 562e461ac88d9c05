"""Which specification, drivers and bounds decide which property."""

CHECKS = {}


def check(pid):
    def deco(fn):
        CHECKS[pid] = fn
        return fn
    return deco


@check('C01')
def c01(c):
    cases = c.model('FlattenMC', 'Flatten.cfg', cases='flatten.ndjson')
    tr = c.drive('flatten', cases=cases)
    c.validate('FlattenTrace', tr)


# property -> (specification, what assurance the check gives and what it trusts)
NOTES = {
    'C01': ('Flatten.tla', 'Exhaustive over the layouts of the bounded model (3-4 entries, 2 blocks, 2 keys, 2 shapes), each replayed into the real code, plus seeded random larger dictionaries; trusts TLC and the event recorder.'),
}
NOT_APPLICABLE = {}


@check('C02')
def c02(c):
    cases = c.model('DictsMC', 'Dicts.cfg', cases='dicts.ndjson')
    c.validate('DictsTrace', c.drive('dicts', cases=cases))
NOTES['C02'] = ('Dicts.tla', 'Exhaustive over bounded collections (3 names, 2 keys, ranks 1-5, every dimension, block sizes 1-3), each replayed into the code, plus seeded random collections with misfits.')


@check('C16')
def c16(c):
    cases = c.model('StridingMC', 'Striding.cfg', cases='striding.ndjson')
    c.validate('StridingTrace', c.drive('striding', cases=cases))
NOTES['C16'] = ('Striding.tla', 'Exhaustive over lengths 1-7 (thorough 9), strides 1-4, one or two strided dimensions in either order and data with or without an extra leading dimension, plus seeded random dictionaries of rank 3-5.')


def shooting(c):
    cases = c.model('ShootingMC', 'Shooting.cfg', cases='shooting.ndjson')
    c.validate('ShootingTrace', c.drive('shooting', cases=cases, shards=4, env={'VERIF_PID': c.pid}), chunk=350)


for _p, _n in (('C03', 'state, costate and data equations'), ('C04', 'parameters'), ('C05', 'analytic against autodiff evaluation and the common equations')):
    check(_p)(shooting)
    NOTES[_p] = ('Shooting.tla', 'Equations of every model in exact integer arithmetic (identity, relu) or fixed point (tanh, sigmoid, softmax); TLC proves the formulas stationary and adjoint on all small integer configurations; ' + _n + ' of the code are recorded for every model, nonlinearity, weight, size and number of blocks and judged by the specification.')


@check('C09')
def c09(c):
    cases = c.model('CheckpointMC', 'Checkpoint.cfg', cases='checkpoint.ndjson')
    c.validate('CheckpointTrace', c.drive('checkpoint', cases=cases), chunk=600)
NOTES['C09'] = ('Checkpoint.tla', 'Partition machine and piecewise Euler solution exhaustive over all requested-time lists within 4 (thorough 6) ticks in both directions and all checkpoint settings of the bounded model; each replayed into the code, with exact integer values and gradients; plus seeded random times (float noise), nonlinear functions, other solvers and shooting blocks against unchecked integration.')


@check('C10')
def c10(c):
    cases = c.model('IntegratorsMC', 'Integrators.cfg', cases='integrators.ndjson')
    c.validate('IntegratorsTrace', c.drive('integrators', cases=cases), chunk=700)
NOTES['C10'] = ('Integrators.tla', 'All pairs of integrators made from shared or own option objects (4 methods, 3 defaults, 3 option contents), used in random order; the evaluation times of the real solver must be those of the specified steps; other methods, tolerances and adjoint integration are compared with the solver library called directly.')


@check('C06')
def c06(c):
    cases = c.model('NonlinMC', 'Nonlin.cfg', cases='nonlin.ndjson')
    c.validate('NonlinTrace', c.drive('nonlin', cases=cases), chunk=700)
NOTES['C06'] = ('Nonlin.tla', 'Fixed-point tables of all five functions and derivatives on the multiples of 1/8 in [-12,12], proved consistent by TLC (Simpson, identities); the real functions must give them on the whole grid in both precisions, all ranks and spellings, asymptotically beyond it, and off the grid by difference quotients. The kink of relu is excluded.')


@check('C07')
def c07(c):
    cases = c.model('FlowMC', 'Flow.cfg', cases='flow.ndjson')
    c.validate('FlowTrace', c.drive('flow', cases=cases, shards=4))
    cases = c.model('ShootingMC', 'Shooting.cfg', cases='shooting.ndjson')
    c.validate('ShootingTrace', c.drive('shooting', cases=cases, shards=4, env={'VERIF_PID': c.pid}), chunk=350)
NOTES['C07'] = ('Flow.tla, Shooting.tla', 'Specification of joint transport checked by TLC on all small batches; forward passes of real blocks (every model and mode) with the same samples in different batches, repeated, permuted, and coinciding with particles, are validated statefully; data derivatives are judged by the equations of Shooting.tla at every recorded evaluation.')


@check('C08')
def c08(c):
    cases = c.model('TimesMC', 'Times.cfg', cases='times.ndjson')
    c.validate('TimesTrace', c.drive('times', cases=cases, shards=6))
NOTES['C08'] = ('Times.tla', 'All sequences of up to four settings and conversions (3 end times, 5 vectors incl. shifted and descending ones, 3 conversions) in the model; all of length 1-2 and a seeded sample (thorough: all) of length 3 are replayed on real blocks of six models, with forward passes in between; values are held to one solution function of elapsed time.')


@check('C11')
def c11(c):
    cases = c.model('LookupMC', 'Lookup.cfg', cases='lookup.ndjson')
    c.validate('LookupTrace', c.drive('lookup', cases=cases), chunk=700)
NOTES['C11'] = ('Lookup.tla', 'Cached search machine proved equal to the piece function for all histories of three questions on up to five pieces; all histories for two and four pieces are replayed into the real lookup (directly and through blocks of five models, also during integration), plus seeded random longer histories on up to twelve pieces.')


@check('C12')
def c12(c):
    cases = c.model('FrozenMC', 'Frozen.cfg', cases='frozen.ndjson')
    c.validate('FrozenTrace', c.drive('frozen', cases=cases, shards=6), chunk=500)
NOTES['C12'] = ('Frozen.tla', 'Parameter-source machine (frozen cache, own sets per piece, training, aborted passes) exhaustive for histories of five operations; all histories of two and a sample (thorough: all) of three of seven operations are replayed on real blocks of every model in the frozen, analytic frozen and both particle-free modes, with the parameters of every evaluation recorded.')


@check('C13')
def c13(c):
    cases = c.model('NormMC', 'Norm.cfg', cases='norm.ndjson')
    c.validate('NormTrace', c.drive('norm', cases=cases, shards=8), chunk=500)
NOTES['C13'] = ('Norm.tla', 'Penalty machine exhaustive over small values, weights, start times and histories of five operations; histories replayed on real blocks of every model and mode, the penalty judged by the integer kinetic energy of NormOps.tla (exact for identity models), and its gradient by difference quotients for every parameter tensor.')


@check('C14')
def c14(c):
    cases = c.model('LifecycleMC', 'Lifecycle.cfg', cases='life.ndjson')
    c.validate('LifecycleTrace', c.drive('lifecycle', cases=cases, shards=8), chunk=500)
NOTES['C14'] = ('Lifecycle.tla', 'Registration machine exhaustive over 108 configurations and histories of five operations; every model and mode (particles, kept at zero, frozen, particle-free, chained, enlarged, pass-through, predicted initial conditions) is run through histories of lists, passes, training, conversion and reloading, and the recorded lists are judged statefully.')


@check('C15')
def c15(c):
    cases = c.model('EnlargeMC', 'Enlarge.cfg', cases='enlarge.ndjson')
    c.validate('EnlargeTrace', c.drive('enlarge', cases=cases, shards=4), chunk=400)
NOTES['C15'] = ('Enlarge.tla', 'Dimension-by-dimension growth proved to be the central embedding with every parameter used once, for all pairs of shapes up to 3x2x4 and 2x2x3x3; all combinations of own size 1-3 (thorough 1-4) and size differences are replayed into real convolutional blocks with one to three pass-through blocks, every entry of every enlarged tensor identified by number.')


@check('C17')
def c17(c):
    cases = c.model('ChainMC', 'Chain.cfg', cases='chain.ndjson')
    c.validate('ChainTrace', c.drive('chain', cases=cases, shards=6), chunk=300)
NOTES['C17'] = ('Chain.tla', 'Chain machine exhaustive for four blocks, three names, two sizes; all starts with one further block and a sample (thorough: all) with two are replayed on real blocks of every model with numbered entries over a vanishing time and validated tensor by tensor; joint integration is compared with one block holding all channels, pass-through chains with one longer integration (values and gradients); refusals.')


@check('C18')
def c18(c):
    cases = c.model('ResNetMC', 'ResNet.cfg', cases='resnet.ndjson')
    c.validate('ResNetTrace', c.drive('resnet', cases=cases, shards=8), chunk=400)
NOTES['C18'] = ('ResNet.tla', 'Network machine exhaustive over 10 channel lists, 17 block lists, 12 image sizes and 3 strides; a seeded sample of the matching configurations (thorough: 900) is built and run for real with all three convolution models, the data of every block validated against the machine entry by entry, the scores recomputed in fixed point from the last data, and the dependence on every block, image and parameter observed.')


@check('C19')
def c19(c):
    cases = c.model('HooksMC', 'Hooks.cfg', cases='hooks.ndjson')
    c.validate('HooksTrace', c.drive('hooks', cases=cases, shards=8), chunk=400)
NOTES['C19'] = ('Hooks.tla', 'Hook registry machine exhaustive for histories of seven operations; a seeded sample (thorough: all) of histories of three or four operations is replayed on real integrands of every model in ten modes, every call of every hook compared with what the solver asked and got; results and gradients with, without and after hooks; the recording hook entry by entry.')


@check('C20')
def c20(c):
    cases = c.model('LayersMC', 'Layers.cfg', cases='layers.ndjson')
    c.validate('LayersTrace', c.drive('layers', cases=cases, shards=4), chunk=400)
NOTES['C20'] = ('Layers.tla', 'Layer machine exhaustive for histories of four operations; linear, damped, convolution (kernel, stride, padding, dilation, groups, four padding modes) and group normalisation specified on integer tensors in LayerOps.tla; a seeded sample (thorough: all) of 1152 convolution geometries and 880 histories is replayed on the real layers, outputs, gradients, weights and types judged exactly.')


@check('C21')
def c21(c):
    cases = c.model('InitsMC', 'Inits.cfg', cases='inits.ndjson')
    c.validate('InitsTrace', c.drive('inits', cases=cases, shards=2), chunk=900)
NOTES['C21'] = ('Inits.tla', 'Random-stream machine exhaustive for histories of five requests and seedings; a seeded sample (thorough: all) of the 3456 histories of three requests is replayed twice from the same seed on all four initialisers with different magnitudes; distribution (deviation, mean, independence of calls) by statistics of 8000 entries with bounds of more than five standard errors; particles of real blocks of every model.')


@check('C22')
def c22(c):
    cases = c.model('FreezeMC', 'Freeze.cfg', cases='freeze.ndjson')
    c.validate('FreezeTrace', c.drive('freeze', cases=cases, shards=4), chunk=5000)
NOTES['C22'] = ('Freeze.tla', 'All histories of up to three freeze/unfreeze calls over all subsets of three parameters (thorough: two calls over four), on modules with scalar, empty, nested and tied parameters and on real blocks in all modes; flags, values, identity, counts and which parameters receive gradients are validated statefully.')


@check('C23')
def c23(c):
    cases = c.model('PlateauMC', 'Plateau.cfg', cases='plateau.ndjson', workers=8)
    c.validate('PlateauTrace', c.drive('plateau', cases=cases, shards=4), chunk=1500)
NOTES['C23'] = ('Plateau.tla', 'The step rule is proved by TLC to be the documented one (stated on the history) for all configurations of the bounded model and all metric sequences of length 5 (thorough 6); the real scheduler is run on all 864 configurations with random sequences and on all 243 short sequences of some, saved and restored at random points, with rates compared exactly.')


@check('C24')
def c24(c):
    cases = c.model('SweepMC', 'Sweep.cfg', cases='sweep.ndjson')
    c.validate('SweepTrace', c.drive('sweep', cases=cases), chunk=500)
NOTES['C24'] = ('Sweep.tla', 'Odometer machine proved complete, duplicate-free, lexicographic and terminating for all tables of up to three (thorough four) keys with up to three values; every one is swept for real with values of many types, plus seeded sequences of sweeps whose results and tables are changed in place in between.')


@check('C25')
def c25(c):
    cases = c.model('ExperimentMC', 'Experiment.cfg', cases='experiment.ndjson', workers=8)
    c.validate('ExperimentTrace', c.drive('experiment', cases=cases, shards=8), chunk=600)
NOTES['C25'] = ('Experiment.tla', 'Sweep machine with failures, kills at any moment and results removed, exhaustive for two seeds, two combinations and two (thorough three) sweeps; all single sweeps and a seeded sample of histories of up to five (overlapping seed ranges and tables, forced or not, killed by SIGKILL during the first or second run, results placed and removed by the user) are run for real against a recording stand-in for the interpreter; every command, its arguments, directory, GPU, interpreter and log are judged statefully.')


@check('C26')
def c26(c):
    cases = c.model('MeasuresMC', 'Measures.cfg', cases='measures.ndjson')
    c.validate('MeasuresTrace', c.drive('measures', cases=cases), chunk=300)
NOTES['C26'] = ('Measures.tla', 'Deciding whether a number is the squared spectral or nuclear norm by Sylvester minors and the symmetric functions of the singular values, proved by TLC to agree with Rayleigh quotients, duality and the order of the norms on all 2x2 (entries up to 2), 2x3 and 3x3 (entries up to 1) matrices; the code is given all of the 2x2 and 2x3 ones, larger ones with known singular values, and records along real solutions; the complexity machine is proved to be the integral of the whole record, and all records of up to three entries and random ones with restarts are measured for real.')


@check('C27')
def c27(c):
    cases = c.model('TextMC', 'Text.cfg', cases='text.ndjson')
    c.validate('TextTrace', c.drive('text', cases=cases), chunk=3000)
NOTES['C27'] = ('Text.tla', 'Escaping as a transducer and configuration strings as a growing sequence of items, proved reversible for all texts of up to three (thorough four) characters over all special characters, a letter and a blank, and all sequences of up to three items; all these texts and seeded random ones (other scripts, blanks, quotes) go through the real code, as do dictionaries, configuration histories, commands executed for real against a recording stand-in, and outputs shown.')


@check('C28')
def c28(c):
    cases = c.model('GradMC', 'Grad.cfg', cases='grad.ndjson')
    c.validate('GradTrace', c.drive('gradients', cases=cases, shards=8), chunk=600)
NOTES['C28'] = ('Grad.tla', 'Backward sweep proved equal to the forward derivative in every direction for all small integer configurations of a one-layer model in three modes; each replayed exactly into real blocks (values and gradients as integers, direct and checkpointed, with and without analytic equations); all other models, modes, solvers, chains and networks by difference quotients of the recorded forward passes.')


@check('C30')
def c30(c):
    cases = c.model('CopiesMC', 'Copies.cfg', cases='copies.ndjson')
    c.validate('CopiesTrace', c.drive('copies', cases=cases, shards=8), chunk=600)
NOTES['C30'] = ('Copies.tla', 'Heap machine (cells, files, state dictionaries) exhaustive for five operations on two models; all histories of two and a sample (thorough: all) of those of three operations replayed on blocks of every model and mode, chains with enlargement and networks; results, gradients and penalties are learnt per parameter history and compared.')


@check('C29')
def c29(c):
    cases = c.model('SeedingMC', 'Seeding.cfg', cases='seeding.ndjson')
    c.validate('SeedingTrace', c.drive('seeding', cases=cases, shards=8), chunk=800)
NOTES['C29'] = ('Seeding.tla', 'Generator machine exhaustive for histories of five operations; seed/draw/seed histories over ten kinds of draws (all pairs sampled) replayed with the library function, values compared statefully, also across processes with other hash seeds.')


@check('C31')
def c31(c):
    cases = c.model('SymmetryMC', 'Symmetry.cfg', cases='symmetry.ndjson')
    c.validate('SymmetryTrace', c.drive('symmetry', cases=cases, shards=8), chunk=600)
NOTES['C31'] = ('Symmetry.tla', 'For all small integer configurations of all models TLC proves that the derivative of the energy along the flow is zero and that a step commutes with every symmetry of the list; every model, law and nonlinearity is replayed with seeded random systems through whole forward passes of blocks with own or passed particles, in all modes. Laws of the exact flow are judged where halving the step changes the end by less than 3e-6.')


@check('C32')
def c32(c):
    cases = c.model('LoaderMC', 'Loader.cfg', cases='loader.ndjson')
    c.validate('LoaderTrace', c.drive('loader', cases=cases, shards=8), chunk=600)
NOTES['C32'] = ('Loader.tla', 'Loader machine exhaustive for two interleaved iterators over small splits; sequences of opening, advancing and exhausting iterators of the three real loaders replayed with stand-ins for the data sets whose samples are recognised by content, plus unknown names.')


@check('C33')
def c33(c):
    cases = c.model('FiguresMC', 'Figures.cfg', cases='figures.ndjson')
    c.validate('FiguresTrace', c.drive('figures', cases=cases, shards=8), chunk=400)
NOTES['C33'] = ('Figures.tla', 'Drawing machine exhaustive for two calls and three quantities; all single calls and sampled pairs of calls of the three drawing functions in all modes replayed over recorded passes, figures compared with the record at the moment they are shown or written.')


@check('C34')
def c34(c):
    cases = c.model('WindowsMC', 'Windows.cfg', cases='windows.ndjson')
    c.validate('WindowsTrace', c.drive('windows', cases=cases, shards=8), chunk=400)
NOTES['C34'] = ('Windows.tla', 'Piecewise prediction exhaustive for up to 14 times and all lengths of pieces, with termination; all small chunkings, predictions with real blocks, windows, data sets, losses, masks and rings of the demonstrations replayed, values recognised by content.')
