# Registry: property -> jobs (harness, parameters, engine mode), bounds and assumptions.
COMMON_ASSUMPTIONS = []
CHECKS = {}
def q(tier, a, b): return a if tier == 'quick' else b
def conv(tier):
    J = [dict(h='conv', P=dict(kw=k, mode=0), reach=['forward', 'backward']) for k in (1, 2, 3)]
    J += [dict(h='conv', P=dict(mode=1, S=1, H=2), reach=['forward']), dict(h='conv', P=dict(mode=2, W=3, H=2), reach=['backward']), dict(h='conv', P=dict(mode=3, W=3, H=2, S=1), reach=['second batch']), dict(h='conv', P=dict(mode=0, W=1, H=2, KH=3), reach=['rejected', 'backward'])]
    J += [dict(h='conv', P=dict(W=7, H=2, S=1, kw=2, SW=3, KH=1, G=1), reach=['forward', 'backward']), dict(h='conv', P=dict(W=2, H=5, S=1, kw=1, KH=2, SH=3, G=1), reach=['backward']), dict(h='conv', P=dict(W=2, H=2, S=1, kw=3, PAD=3, G=1, I=1), reach=['backward']), dict(h='conv', P=dict(W=2, H=1, kw=1, KH=1, PAD=0, G0=3, G=4, O=3), reach=['backward']), dict(h='conv', P=dict(W=6, H=1, S=1, kw=5, KH=1, G=1, SH=1), reach=['backward', 'forward']), dict(h='conv', P=dict(W=2, H=5, S=1, kw=1, KH=5, G=1, I=1), reach=['backward']), dict(h='conv', P=dict(W=2, H=2, S=3, kw=2, KH=2, I=1, SW=1, SH=1), reach=['backward'])]
    if tier != 'quick': J += [dict(h='conv', P=dict(W=6, H=4, kw=k), reach=['backward']) for k in (1, 2, 3, 4)]
    return J
CHECKS['P01'] = dict(bounds='images up to 4x3 (2 samples), kernels up to 3x3, strides 1-2, padding 0-1, 1-2 groups with 1-2 maps per group on either side; all data values are integers in [-4,4] kept symbolic (sums and products exact); test-time scaling with fraction 0.25; two consecutive batches at 3x2', jobs=conv)
def math(tier):
    return [dict(h='math', P=dict(op=0, D=3), reach=['gemm']), dict(h='math', P=dict(op=1), reach=['gemv']), dict(h='math', P=dict(op=2, mode=0, S=2), reach=['im2col']), dict(h='math', P=dict(op=2, mode=1, S=2), reach=['col2im']), dict(h='math', P=dict(op=2, mode=0, S=1, W=3, H=6, SH=3, KH=4), reach=['im2col']), dict(h='math', P=dict(op=2, mode=1, S=1, W=3, H=6, SH=3, KH=4), reach=['col2im']), dict(h='math', P=dict(op=3, WX=4, HX=3), reach=['setsample', 'sms', 'down', 'up', 'add'])]
CHECKS['P02'] = dict(bounds='matrix products up to 3x3x3 with symbolic entries, alpha, beta, all transpositions, strides and samples; matrix-vector up to 3x3 with increments 1-2; unfolding of 4x3 and 3x6 images, kernels up to 3x4, strides up to 3x3, padding up to 2; other primitives on up to 3 samples of 4x3x3', jobs=math)
def pool(tier):
    J = [dict(h='pool', P=dict(adv=0, W=4, H=2)), dict(h='pool', P=dict(adv=0, W=2, H=2, S=2, RW=2, RL=1)), dict(h='pool', P=dict(adv=0, W=2, H=2, M=2, RW=2, RL=1)), dict(h='pool', P=dict(adv=0, W=2, H=1, M=2, S=2, RW=2, RH=1)), dict(h='pool', P=dict(adv=0, W=2, H=3, RH=3, RW=2)),
         dict(h='pool', P=dict(adv=1, W=3, H=2)), dict(h='pool', P=dict(adv=1, W=2, H=3, RH=3, RW=2, SH=3, SW=2)), dict(h='pool', P=dict(adv=1, W=5, H=1, RH=1, SH=1, RL=1)), dict(h='pool', P=dict(adv=1, W=1, H=5, RH=4, SH=4, RW=1, SW=1, RL=1)), dict(h='pool', P=dict(adv=1, W=3, H=1, S=2, M=2, RL=1, RW=2, SW=2, RH=1, SH=1)),
         dict(h='pool', P=dict(adv=0, str=1, W=2, H=2)), dict(h='pool', P=dict(adv=1, str=1, W=3, H=1, RH=1, SH=1)),
         dict(h='pool', P=dict(adv=0, W=2, H=1, RL=1, RW=2, RH=1, rounds=2)), dict(h='pool', P=dict(adv=1, W=3, H=1, RL=1, RW=2, SW=2, RH=1, SH=1, rounds=2))]
    if True: J += [dict(h='pool', P=dict(adv=0, W=6, H=2)), dict(h='pool', P=dict(adv=0, W=3, H=4, RH=4)), dict(h='pool', P=dict(adv=1, W=3, H=3, RW=2, RH=2, SW=2, SH=2, RL=1)), dict(h='pool', P=dict(adv=1, W=4, H=2, RL=1)), dict(h='pool', P=dict(adv=0, W=2, H=2, S=2, M=2, RW=2, RL=1))]
    return [dict(j, reach=['pooled']) for j in J]
CHECKS['P03'] = dict(bounds='simple pooling on images up to 6x2 and 3x4, windows 0-3; overlapping pooling on images up to 5x1, 3x3, windows and strides 0-4; two batches in a row on 2x1 and 3x1; values are quarters in [-24.75,24.75] kept symbolic, so every order and tie is covered', jobs=pool)
JR = {0: ['upscale'], 1: ['down', 'down rejected'], 2: ['resize'], 3: ['sum', 'pair rejected'], 4: ['concatenation', 'pair rejected'], 5: ['accumulate'], 6: ['prior']}
def joint(*ops):
    return lambda tier: [dict(h='joint', P=dict(op=o, X=q(tier, 3, 4), WX=4, HX=3, MX=3, B=3), reach=JR[o]) for o in ops]
CHECKS['P04'] = dict(bounds='images up to 4x3 with 3 maps and 3 (thorough 4) samples, regions 0-3, borders 0-3, symbolic integer values in [-9,9]', jobs=joint(0, 1, 2))
CHECKS['P05'] = dict(bounds='inputs up to 4x3 with 1-3 maps and 3 (thorough 4) samples, every pair of sizes in that range, fan-out 0-3, symbolic integer values in [-9,9]', jobs=joint(3, 4, 5, 6))
CHECKS['P06'] = dict(bounds='tensors up to 3 samples of 4x3x3, symbolic quarter-integers in [-2,2] (exp is an uninterpreted function shared with the specification), h-max with mu 0.5 and 2, regularisation weight 0', jobs=lambda tier: [dict(h='act', P=dict(op=0, big=1), reach=['activation']), dict(h='act', P=dict(op=1, big=1), reach=['hmax'])])
CHECKS['P07'] = dict(bounds='up to 8 elements (2 samples, images up to 5x5 or up to 6 maps), windows 1-6, beta 0.25-1.5, symbolic alpha, values and gradients (square roots as constrained reals)', jobs=lambda tier: [dict(h='act', P=dict(op=2, across=a, beta=b), reach=['normalisation']) for a in (0, 1) for b in (1, 2, 3, 4, 6)] + [dict(h='act', P=dict(op=2, across=a, beta=3, max=q(tier, 4, 5), rounds=2), reach=['normalisation']) for a in (0, 1)] + [dict(h='act', P=dict(op=2, across=a, beta=3, max=q(tier, 8, 10), big=1), reach=['normalisation']) for a in (0, 1)])
CHECKS['P08'] = dict(bounds='up to 3 samples of 3x3x3 and each single shape mismatch, symbolic values, labels, weights and loss weight', jobs=lambda tier: [dict(h='act', P=dict(op=3, big=1), reach=['rejected', 'loss'])])

def tensor(tier):
    N = q(tier, 3, 4)
    return [dict(h='tensor', P=dict(op=0, N=N, first=f), reach=['history']) for f in range(10)] + [dict(h='tensor', P=dict(op=2), reach=['copy']), dict(h='tensor', P=dict(op=3, max=q(tier, 3, 4)), reach=['maximum'])]
CHECKS['P09'] = dict(bounds='histories of 3 (thorough 4) operations on two tensors over 10 kinds of operation, shapes of 2-4 elements, a stored tensor that crosses a page boundary, every 32-bit pattern as value; copies between 2-sample tensors up to 3x3x2; maxima over up to 3 (thorough 4) elements per sample', jobs=tensor)

CHECKS['P10'] = dict(bounds='up to two consecutive tensors of up to 12 (thorough 16) elements with every bit pattern, stream, file and mapped reading around a page boundary; byte conversion of tensors up to 2 samples of 2x2x4 with one symbolic value at a time', jobs=lambda tier: [dict(h='io', P=dict(op=0, n=q(tier, 12, 16)), reach=['stream', 'file']), dict(h='io', P=dict(op=1), reach=['bytes'])])
CHECKS['P11'] = dict(bounds='1-2 (thorough 3) values of every bit pattern, and runs of length 253-255 (thorough 252-507) of one value without escape bytes, with and without a leading value; decompression directly, into memory, from a file and from a mapped file', jobs=lambda tier: [dict(h='io', P=dict(op=2, n=n), reach=['packed']) for n in q(tier, (1, 2), (1, 2, 3))] + [dict(h='io', P=dict(op=2, form=1, runs=q(tier, 3, 8)), reach=['packed']), dict(h='io', P=dict(op=2, form=2, n=2, reuse=1), reach=['packed'])])
CHECKS['P12'] = dict(bounds='0-2 stored tensors of up to 2 samples of 2x1x2 with symbolic contents, every valid and one invalid request; lists with 1-3 classes of any colours and images up to 2x1', jobs=lambda tier: [dict(h='io', P=dict(op=3, kind=0), reach=['copied']), dict(h='io', P=dict(op=3, kind=1), reach=['copied']), dict(h='io', P=dict(op=4), reach=['list'])])

CHECKS['P13'] = dict(bounds='1-4 images up to 4x3, patches up to 3x2, 1-2 maps and classes, symbolic pixels, labels and class weights; extraction from images up to 3x3 with patches up to 4x3', jobs=lambda tier: [dict(h='data', P=dict(op=2), reach=['patches']), dict(h='data', P=dict(op=3, patch=1), reach=['patches']), dict(h='data', P=dict(op=4, max=q(tier, 36, 80)), reach=['segmented'])])
CHECKS['P14'] = dict(bounds='1-2 images of up to 2x2 (and one 66 wide) with 1-2 maps and classes and symbolic contents; image extents around multiples of 64 up to 192; configurations over all load selections, colour notations and optional sections; the KITTI error map for every column and the rows at and around its limits on images of 613x185, 100x37 and 7x5 (thorough also 1226x370)', jobs=lambda tier: [dict(h='data', P=dict(op=0), reach=['sample', 'no such sample']), dict(h='data', P=dict(op=0, big=1), reach=['sample']), dict(h='data', P=dict(op=1), reach=['size']), dict(h='data', P=dict(op=3), reach=['configured'])] + [dict(h='image', P=dict(op=6, size=z), reach=['error']) for z in q(tier, (1, 2, 3), (0, 1, 2, 3))])
CHECKS['P15'] = dict(bounds='1-3 training and 0-2 testing samples, batches of 1-2, 3 (thorough 4) batches in every order of modes, every draw of the random generator; loss sampling on images up to 14x13 with every sixteenth as probability', jobs=lambda tier: [dict(h='data', P=dict(op=5, min=m, steps=q(tier, 3, 4)), reach=['batches']) for m in (1, 2, 3)] + [dict(h='data', P=dict(op=5, fcn=1, steps=2), reach=['batches']), dict(h='data', P=dict(op=6), reach=['sampled', 'all kept', 'all dropped', 'zero']), dict(h='data', P=dict(op=7), reach=['empty'])])

def net(tier):
    J = [dict(h='net', P=dict(op=0, N=3), reach=['graph']), dict(h='net', P=dict(op=0, N=3, extra=1, two=0), reach=['graph']), dict(h='net', P=dict(op=1), reach=['subset']), dict(h='net', P=dict(op=2), reach=['checked'])]
    J += [dict(h='net', P=dict(op=3), known=True, name='split', reach=['split'])]
    J += [dict(h='net', P=dict(op=0, N=4), reach=['graph']), dict(h='net', P=dict(op=0, N=3, extra=1), reach=['graph'])]
    return J
CHECKS['P16'] = dict(bounds='every acyclic graph of an input node and 3 or 4 layers with 1-2 inputs each, optionally a second loss and a statistic, in 3 node orders, two passes, symbolic coefficients and parameters; chosen-node passes over 5 nodes; 7 kinds of completeness fault', jobs=net)
def train(tier):
    return [dict(h='train', P=dict(op=0, shape=0, n=1, epochs=2, iterations=2), reach=['trained']), dict(h='train', P=dict(op=0, shape=1, epochs=2), reach=['trained']), dict(h='train', P=dict(op=0, shape=0, n=1, epochs=1, nonlinear=1), reach=['trained']), dict(h='train', P=dict(op=0, shape=0, n=1, epochs=2, restart=1), reach=['trained']), dict(h='train', P=dict(op=0, shape=0, n=1, epochs=2, iterations=3, ratio=1, sbatch=1), reach=['trained']), dict(h='train', P=dict(op=0, shape=0, n=1, epochs=1, iterations=13, sbatch=1, history=3), reach=['trained']), dict(h='train', P=dict(op=0, shape=1, epochs=q(tier, 3, 4), sbatch=1), reach=['trained']), dict(h='train', P=dict(op=0, shape=0, n=1, epochs=2, sbatch=3), reach=['trained'])]
def qprop(tier):
    return [dict(h='train', P=dict(op=0, quickprop=1, n=1, epochs=e, sbatch=b, history=h), reach=['trained']) for e, b, h in ((2, 2, 1), (3, 1, 1), (2, 1, 2))] + [dict(h='train', P=dict(op=0, quickprop=1, n=2, epochs=2, sbatch=1, history=1, restart=1), reach=['trained'])]
CHECKS['P19'] = dict(bounds='1-4 weights in 1-2 layers, 2 epochs of 1-2 iterations of 1-2 batches of 1-2 samples; symbolic weights and gradients (eighths in [-8,8]) with chosen settings, or one epoch with symbolic settings; reset and restart between epochs', jobs=train)
CHECKS['P20'] = dict(bounds='1-2 weights, 2-3 iterations of 1-2 batches; last gradients symbolic eighths in [-8,8], with earlier gradients symbolic or any of -1, 0, 1/2, 4', jobs=qprop)
CHECKS['P21'] = dict(bounds='symbolic rate and gamma with exponents 0-2 in quarters at iterations 0, 1, 1000; testing sets of 0-4 samples, batches of 1-2, shares 0, 1/2, 1, 1-2 losses with symbolic values', jobs=lambda t: [dict(h='train', P=dict(op=1), reach=['rate']), dict(h='train', P=dict(op=2), reach=['tested']), dict(h='train', P=dict(op=2, train=0, losses=1), reach=['tested']), dict(h='train', P=dict(op=2, recording=0, losses=1), reach=['tested']), dict(h='train', P=dict(op=3), reach=['constructed'])])
CHECKS['P18'] = dict(bounds='nets of 2-3 layers with 0-2 parameters of 1-3 elements (all bit patterns), files cut at every record boundary, every choice of last layer', jobs=lambda t: [dict(h='train', P=dict(op=4), reach=['stored'])])
CHECKS['P22'] = dict(bounds='sequences of 4 (thorough 5) operations, or 4 (thorough 5) once recording has started, after registering 0-2 statistics and 1-2 sinks; CSV files with 0-2 statistics whose names hold arbitrary characters, 0-2 rows, 1-2 experiments', jobs=lambda t: [dict(h='stats', P=dict(op=0, N=q(t, 4, 5), first=f), reach=['history']) for f in (0, 1, 4, 6, 7)] + [dict(h='stats', P=dict(op=0, N=q(t, 6, 7), started=1, first=f), reach=['history']) for f in (2, 3, 4, 5, 6, 7)] + [dict(h='stats', P=dict(op=1), reach=['written'])])
CHECKS['P23'] = dict(bounds='up to 2 (thorough 3) outputs, 1-3 thresholds, 1-2 batches, symbolic outputs and labels, weights 0 or 2 (0, 2, 4)', jobs=lambda t: [dict(h='stats', P=dict(op=2, n=2, batches=1), reach=['binary']), dict(h='stats', P=dict(op=2, n=1, batches=2), reach=['binary']), dict(h='stats', P=dict(op=2, n=1, off=1), reach=['binary']), dict(h='stats', P=dict(op=3), reach=['binary shape'])] + q(t, [], [dict(h='stats', P=dict(op=2, n=3, batches=1, w=2), reach=['binary']), dict(h='stats', P=dict(op=2, n=2, batches=2), reach=['binary'])]))
CHECKS['P24'] = dict(bounds='2-3 classes, up to 2 samples of 2 pixels, 1-2 batches, symbolic outputs, every label, weights 0, 1/4 or 2, initialised before or after connecting', jobs=lambda t: [dict(h='stats', P=dict(op=4, batches=2), reach=['confusion']), dict(h='stats', P=dict(op=4, W=2, C=2, S=2, batches=1), reach=['confusion']), dict(h='stats', P=dict(op=4, W=2, C=3, batches=1), reach=['confusion']), dict(h='stats', P=dict(op=4, C=2, off=1), reach=['confusion']), dict(h='stats', P=dict(op=5), reach=['confusion shape'])] + q(t, [], [dict(h='stats', P=dict(op=4, W=1, C=2, S=2, batches=2), reach=['confusion'])]))
def conf25(t): return [dict(h='conf', P=dict(op=0), reach=['parameter']), dict(h='conf', P=dict(op=1), reach=['setting']), dict(h='conf', P=dict(op=2, max=q(t, 6, 7)), reach=['descriptor', 'valid']), dict(h='conf', P=dict(op=3), reach=['injected']), dict(h='conf', P=dict(op=5), reach=['unknown'])] + [dict(h='conf', P=dict(op=4, type=k), reach=['constructed']) for k in range(9)] + [dict(h='conf', P=dict(op=4, type=0, seeded=1), known=True, name='seeded', reach=['constructed'])]
CHECKS['P25'] = dict(bounds='one parameter or setting among up to two others with symbolic digits (1-4) or letters; every descriptor of up to 6 (thorough 7) ASCII characters, and of that many after a(b=1; seeds of 1-3 symbolic digits with 0-2 other parameters; 9 layer types with extents up to 3, given and default settings in two orders', jobs=conf25)
def conf26(t): return [dict(h='conf', P=dict(op=6), reach=['field'])] + [dict(h='conf', P=dict(op=6, N=n, first=k), reach=['field'], name='field%d-%d' % (n, k)) for n in q(t, (2,), (2, 3)) for k in range(6)] + [dict(h='conf', P=dict(op=7), reach=['built']), dict(h='conf', P=dict(op=9, N=q(t, 2, 3)), reach=['settings']), dict(h='conf', P=dict(op=10), reach=['seeded']), dict(h='conf', P=dict(op=8, N=2), reach=['structure'])] + [dict(h='conf', P=dict(op=11, kind=k), reach=['item']) for k in range(11)] + [dict(h='conf', P=dict(op=8, N=q(t, 4, 5), stacks=1), reach=['structure', 'underflow'])] + q(t, [], [dict(h='conf', P=dict(op=8, N=3, first=k), reach=['structure']) for k in range(24)])
CHECKS['P26'] = dict(bounds='receptive fields of 0-2 (thorough 3) layers of 6 kinds with symbolic kernel sizes and paddings and strides up to 3; networks of 0-2 layers on inputs of 1-2 steps in each direction; every list of 2 (thorough 3) of 24 configuration items and every list of 4 (thorough 5) of 9 stack items; 2 (thorough 3) training settings', jobs=conf26)
def img(t): return [dict(h='image', P=dict(op=0), reach=['decoded', 'refused']), dict(h='image', P=dict(op=1), reach=['written', 'refused']), dict(h='image', P=dict(op=2), reach=['leak']), dict(h='image', P=dict(op=3), reach=['decoded', 'written', 'refused']), dict(h='image', P=dict(op=4), reach=['same'])] + [dict(h='image', P=dict(op=5, C=c, max=q(t, 2, 4)), reach=['painted']) for c in (1, 2, 3)] + []
CHECKS['P27'] = dict(bounds='pictures up to 3x2 with 1-4 channels of 8 or 16 symbolic bits, refused depths, palettes and broken signatures; one symbolic pixel value in [0,1] among others when writing, and every byte value through reading and writing in single precision; 1-3 classes with any colours, up to 2 (thorough 4) pixels with symbolic scores; libpng and libjpeg are modelled by their interface (lossless)', jobs=img)

def omp(tier):
    T = q(tier, (3,), (2, 3, 4)); J = []
    for t in T:
        J += [dict(h='conv', P=dict(kw=2, mode=0, W=3, H=2), reach=['forward', 'backward']), dict(h='math', P=dict(op=2, mode=0), reach=['im2col']), dict(h='math', P=dict(op=2, mode=1), reach=['col2im']), dict(h='math', P=dict(op=3), reach=['down', 'up']),
              dict(h='pool', P=dict(adv=0, W=2, H=2, S=2, RW=2, RL=1), reach=['pooled']), dict(h='pool', P=dict(adv=0, W=2, H=1, M=2, S=2, RW=2, RH=1), reach=['pooled']), dict(h='pool', P=dict(adv=1, W=3, H=1, S=2, M=2, RL=1, RW=2, SW=2, RH=1, SH=1), reach=['pooled'])]
        J += [dict(h='joint', P=dict(op=o), reach=JR[o]) for o in range(7)] + [dict(h='act', P=dict(op=o), reach=[r]) for o, r in ((0, 'activation'), (1, 'hmax'), (3, 'loss'))] + [dict(h='act', P=dict(op=2, across=a, max=6), reach=['normalisation']) for a in (0, 1)]
        J += [dict(h='stats', P=dict(op=2, n=1, batches=1), reach=['binary']), dict(h='data', P=dict(op=0), reach=['sample'])]
        for j in J: j.setdefault('omp', t); j.setdefault('variant', 'omp')
    return J
CHECKS['P28'] = dict(bounds='3 (thorough 2-4) threads with the static division of the iterations; layers, primitives, statistics and data sets within the sizes of P01-P08, P14 and P23 or smaller (2 samples, images up to 3x2)', outside='Other schedules (dynamic, guided), more threads, and races inside the OpenMP runtime. Threads are executed in one order; since no two of them touch the same byte without one being ordered after the other, every other order gives the same result.', jobs=omp)

CHECKS['P17'] = dict(bounds='15 nets of 2-9 layers (chains, shared buffers with 2-3 consumers, skip connections, two losses, pooling, up- and down-sampling, rectifier, tanh, sigmoid) on images of 2x2 or 4x2, 1-2 samples, input maps and output maps, two passes in a row, every parameter, input, label and error weight symbolic (integers in [-2,2], error weights in [0,4])', outside='Deeper nets, dropout, h-max and response normalisation inside nets, and inputs at which a maximum is not unique (the derivative does not exist there).', assumptions=['the exponential function is uninterpreted and shared by code and specification'],
    jobs=lambda t: [dict(h='whole', P=dict(net=k, **p), reach=['differentiated']) for p in q(t, (dict(), dict(C=2), dict(S=2, rounds=1), dict(W=4, rounds=1), dict(M=2, rounds=1)), (dict(), dict(C=2), dict(S=2), dict(W=4), dict(M=2), dict(S=2, C=2, rounds=1))) for k in range(15) if not (k == 14 and p.get("C"))])

def blas(tier):
    J = [dict(h='math', P=dict(op=0, D=q(tier, 2, 3), colmajor=1), reach=['gemm']), dict(h='math', P=dict(op=1, colmajor=1, D=2), reach=['gemv'])] + [dict(h='conv', P=dict(kw=k, mode=m, W=3, H=2), reach=['forward'] + (['backward'] if m != 1 else [])) for k in (1, 2) for m in (0, 1, 2)] + [dict(h='conv', P=dict(mode=3, W=3, H=2, S=1), reach=['second batch'])]
    return [dict(j, variant='blas') for j in J]
CHECKS['P29'] = dict(bounds='matrix products up to 2x2x2 (thorough 3x3x3) stored by rows or columns with symbolic entries, alpha and beta, all transpositions, strides and samples; matrix-vector products up to 2x2; convolution on images up to 3x2 with 2 samples, kernels up to 2x2, strides, padding and groups as in P01', outside='The BLAS library itself: sgemm and sgemv are modelled from their definition including the argument contract; the witnesses are replayed against the installed ATLAS.', assumptions=['the BLAS library implements the definition of sgemm and sgemv'], jobs=blas)

def tools(t): return [dict(h='tools', P=dict(op=0, pack=k, n=n, **c), reach=['made']) for k in (0, 1) for n in (1, 2) for c in (dict(C=1, rgb=1), dict(C=1), dict(C=2), dict(C=3))] + [dict(h='tools', P=dict(op=1, W=q(t, 1, 2)), reach=['compressed']), dict(h='tools', P=dict(op=2), reach=['cut']), dict(h='tools', P=dict(op=3, N=q(t, 3, 4)), reach=['edited']), dict(h='tools', P=dict(op=4), reach=['usage']), dict(h='tools', P=dict(op=6), reach=['exported'])]
def classify(t): return [dict(h='tools', P=dict(op=5, net=n, C=c, W=w, H=h, v=v), reach=['classified']) for n, c, v in ((0, 3, 0), (0, 2, 1), (0, 1, 2), (1, 3, 3), (1, 1, 4), (2, 3, 5), (2, 2, 6), (3, 2, 7)) for w, h in q(t, ((1, 1), (3, 2), (2, 9)), ((1, 1), (1, 2), (3, 2), (2, 9), (9, 2), (8, 1), (5, 7)))]
CHECKS['P31'] = dict(bounds='pictures of 1x1, 3x2 and 2x9 (thorough also 1x2, 9x2, 8x1, 5x7) with 1 or 3 channels; 1-3 classes; nets without hidden layer, with spatial prior, and with 3x3 convolution, 2x2 pooling and rectifier, one fixed asymmetric set of parameters each; all bytes of one pixel at any position symbolic (3 values per byte with one class, 2 pictures with the hidden layer), other pixels fixed', outside='Other nets and parameters, and scores closer than 0.0001 (rounding).', assumptions=['the exponential function is uninterpreted but strictly increasing', 'libpng is modelled by its interface'], jobs=classify)
CHECKS['P30'] = dict(bounds='1-2 pictures up to 2x2 with symbolic bytes (2 values per byte when compressed), labels with the colours of up to 3 classes, colours one bit away and others, grey labels, direct colours, mismatching sizes and list endings; streams of 1-3 tensors of up to 4 values with every bit pattern, up to 4 kept; 3 (thorough 4) editing commands on 3 shapes; patches up to 3x2 of 4 shapes with values in [-1,1]; every tool with too few arguments', outside='Larger pictures and streams.', assumptions=['libpng is modelled by its interface'], jobs=tools)
def script(t):
    J = [dict(h='script', P=dict(op=0, patch=p, sym=s), reach=['harmless']) for p in (0, 1) for s in (0, 1)] + [dict(h='script', P=dict(op=0, patch=1, N=q(t, 2, 3)), reach=['harmless'])] + [dict(h='script', P=dict(op=1, patch=p, N=q(t, 2, 3), first=f), reach=['commands']) for p in (0, 1) for f in range(6)] + [dict(h='script', P=dict(op=1, patch=p, N=q(t, 2, 3), sym=1), reach=['commands']) for p in (0, 1)] + [dict(h='script', P=dict(op=2, patch=p, C=c), reach=['report']) for p in (0, 1) for c in (1, 2)] + [dict(h='script', P=dict(op=3), reach=['usage'])] + [dict(h='script', P=dict(op=4, patch=p, C=c), reach=['check']) for p in (0, 1) for c in (1, 2)]
    J += [dict(h='script', P=dict(op=0, patch=p, stdin=1), reach=['harmless']) for p in (0, 1)] + [dict(h='script', P=dict(op=1, patch=p, N=1, stdin=1), reach=['commands']) for p in (0, 1)]
    for j in J: j['pathsteps'] = 1000000000
    return J
CHECKS['P32'] = dict(bounds='nets of one or two 1x1-convolution layers with a nonlinearity for 1 and 2 classes; two training pictures and one testing picture of 2x1 pixels; patch and whole-picture training, one or two iterations per epoch; momentum 0.5, L2 0.25, decaying rate; up to 2 (thorough 3) harmless commands of 18 before, between and after two training runs; every sequence of 2 (thorough 3) of 6 changing commands with options; from a file or typed in; one label value symbolic (a real in [0,4]) in separate jobs', jobs=script)
CHECKS['P33'] = dict(bounds='nets with one or two test layers of 1 to 4 parameters in one or two tensors, at most one parameter without influence on the loss, one derivative wrong by one of 7 factors (1, -6, +12, -25, +50 percent, zero, opposite); quadratic loss; parameters in [-8,8], slopes in [1,8] of either sign (symbolic reals), 0 to 2 skipped weights; single layers with 1 to 14 parameters and up to 3 wrong derivatives', jobs=lambda t: [dict(h='gcheck', P=dict(op=0, shape=k), reach=['graph']) for k in range(4)] + [dict(h='gcheck', P=dict(op=1), reach=['layer'])])

CHECKS['P34'] = dict(bounds='15 nets of up to three convolutions with pooling, resampling, joining, splitting and activation layers between them, nodes in two orders, layers made from numbers or text; 1 or 2 classes, inputs of 1 or 2 maps and up to 4x2 pixels; every draw of the generator (16 values of its range, symbolic); repeated initialisation; one layer with up to 3 consumers', jobs=lambda t: [dict(h='whole', P=dict(net=k, initial=1, **p), reach=['initial']) for p in (dict(), dict(C=2), dict(W=4, M=2)) for k in range(15)] + [dict(h='whole', P=dict(initial=2), reach=['consumers'])])
CHECKS['P35'] = dict(bounds='1-2 pictures of up to 3x1 and 1x2 pixels with labels of 2 or 3 classes (any class at one place), with and without a testing stream; class weights absent, 2, 0.5 and 3, or one of them zero', jobs=lambda t: [dict(h='tools', P=dict(op=7), reach=['counted']), dict(h='tools', P=dict(op=7, weights=1), reach=['counted']), dict(h='tools', P=dict(op=7, weights=2), known=True, name='zero', reach=['counted'])])
def report(t): return [dict(h='train', P=dict(op=0, shape=0, n=1, epochs=2, iterations=2, report=1), reach=['trained']), dict(h='train', P=dict(op=0, shape=1, epochs=2, report=1, sbatch=1), reach=['trained']), dict(h='train', P=dict(op=0, shape=0, n=1, epochs=2, iterations=3, ratio=1, sbatch=1, report=1), reach=['trained'])] + [dict(h='train', P=dict(op=0, quickprop=1, n=n, epochs=e, sbatch=b, history=1, report=1), reach=['trained']) for n, e, b in ((1, 2, 2), (2, 2, 1), (1, 3, 1)) + q(t, (), ((1, 4, 1),))]
CHECKS['P36'] = dict(bounds='2-3 (thorough 4) epochs of 0-3 iterations of 1-2 batches, recorded from the first or a later epoch, with a snapshot after each epoch or only at the end; 1-4 weights; symbolic losses, weights and gradients (QuickProp: earlier gradients any of -1, 0, 1/2, 4)', jobs=report)
