# Property texts; vf/gen.py turns them into properties.jsonl and MANIFEST.json
PROPS = []
NA = []
def P(id, title, statement, over, text, why, files, mech, state=None, level_note='', technique='symbolic execution of the LLVM IR of the real code with z3: exact real/bit-vector encoding, every path within the bounds'):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level_note=level_note, technique=technique))
P('P01', 'Convolution layers compute the exact convolution and its exact gradients',
  'For every accepted input size, kernel size, stride, padding and group count, the output of a convolution layer equals the grouped, zero-padded, strided cross-correlation of its input with its kernels plus bias (scaled by one minus the dropout fraction when testing). The backward pass yields exactly the derivatives of that function with respect to input, kernels and bias, for every output gradient, without changing inputs, parameters or outputs. An input is accepted if and only if at least one kernel position fits into the padded input.',
  ['inputs', 'configurations'], 'every input, kernel, bias and gradient value, and every size, stride, padding and grouping within the stated bounds',
  'The gradient sanity test runs one net on random values with a loose numeric tolerance and small sizes; it cannot cover all shape combinations, and an error confined to padded borders, strides or groups stays inside its tolerance.',
  ['src/net/ConvolutionLayer.cpp', 'src/math/TensorMath.cpp', 'include/cn24/net/ConvolutionLayer.h'],
  [('forward pass: unfold, multiply, reorder', 'src/net/ConvolutionLayer.cpp'), ('unfolding and folding of patches', 'src/math/TensorMath.cpp'), ('matrix product', 'src/math/TensorMath.cpp')])
SMALL = 'the existing tests run a handful of nets on random values with a loose numeric tolerance'
P('P02', 'Math primitives compute their textbook definitions and write nothing else',
  'Matrix product and matrix-vector product, for every transposition, stride, sample selection and scaling, equal their definitions, ignore the previous target when it is scaled by zero, and leave factors and all target elements outside the result untouched. Unfolding an image into patches places each pixel or zero padding exactly where the definition says and folding is its exact adjoint. Sample setting, sample/map swapping, region down-sampling, replication up-sampling and addition equal their element-wise definitions, also when source and target coincide where that is allowed.',
  ['inputs', 'configurations'], 'every operand value and every size, stride, padding, transposition and sample selection within the stated bounds',
  'No test calls these primitives directly; ' + SMALL + ', so wrong strides, borders or untouched targets go unseen.',
  ['src/math/TensorMath.cpp', 'include/cn24/math/TensorMath.h'],
  [('matrix products', 'src/math/TensorMath.cpp'), ('patch unfolding and folding', 'src/math/TensorMath.cpp'), ('element-wise and sampling kernels', 'src/math/TensorMath.cpp')])
P('P03', 'Max-pooling outputs the window maximum and routes gradients to it',
  'Each output element of either max-pooling layer is the maximum of its input window, for every window size and stride, and an input is accepted exactly if the (non-empty) windows fit. The backward pass gives each window\'s gradient to one of its maximising pixels, adds up overlapping windows, and sums to the total output gradient; without ties it is exactly the derivative. Neither pass changes inputs or outputs.',
  ['inputs', 'configurations'], 'every input and gradient value, including ties and negative values, for every window and stride within the stated bounds',
  'The gradient test uses random inputs without ties and one or two window sizes; border windows, overlapping windows, ties and all-negative windows are not covered.',
  ['src/net/MaxPoolingLayer.cpp', 'src/net/AdvancedMaxPoolingLayer.cpp'],
  [('window maximum', 'src/net/MaxPoolingLayer.cpp'), ('overlapping windows', 'src/net/AdvancedMaxPoolingLayer.cpp')])
P('P04', 'Resampling and resizing layers compute their definition and its gradient',
  'Upscaling replicates every pixel over its block and its gradient is the sum over that block; input down-sampling outputs the mean of every block and accepts exactly the inputs divisible by the region; resizing centres the image in a zero border and its gradient is the inner part. Output shapes follow from the configuration, and inputs are not changed. Gradients are not written when backpropagation is off.',
  ['inputs', 'configurations'], 'every pixel and gradient value and every region, border and image size within the stated bounds',
  SMALL + '; down-sampling and resizing have no test of their values at all.',
  ['src/net/UpscaleLayer.cpp', 'src/net/InputDownSamplingLayer.cpp', 'src/net/ResizeLayer.cpp'],
  [('upscaling', 'src/net/UpscaleLayer.cpp'), ('down-sampling', 'src/net/InputDownSamplingLayer.cpp'), ('border resizing', 'src/net/ResizeLayer.cpp')])
P('P05', 'Joining and splitting layers move every element and its gradient correctly',
  'Summation adds its two inputs element by element, concatenation stacks their maps, and both hand each input its own part of the output gradient; they accept exactly inputs of compatible size. Gradient accumulation copies its input to every output and its input gradient is the sum of all output gradients, on every repetition. The spatial prior appends relative column and row maps in front of the unchanged input maps and passes the gradient through.',
  ['inputs', 'configurations'], 'every value and every combination of sizes, maps, samples and fan-out within the stated bounds',
  SMALL + ' and only compatible inputs of one size; mismatched inputs and larger fan-out are never tried.',
  ['src/net/SumLayer.cpp', 'src/net/ConcatenationLayer.cpp', 'src/net/GradientAccumulationLayer.cpp', 'src/net/SpatialPriorLayer.cpp'],
  [('sum', 'src/net/SumLayer.cpp'), ('concatenation', 'src/net/ConcatenationLayer.cpp'), ('fan-out', 'src/net/GradientAccumulationLayer.cpp'), ('position maps', 'src/net/SpatialPriorLayer.cpp')])
P('P06', 'Activation functions and their gradients equal their closed forms',
  'Sigmoid, tanh, rectifier, soft-max and the h-max function output their closed form for every input, element by element. Their backward passes output the derivative times the output gradient (soft-max passes the gradient through, as its loss expects), and h-max additionally yields the exact derivative with respect to slope and offset. Inputs, outputs and output gradients are left unchanged.',
  ['inputs', 'configurations'], 'every input, weight and gradient value and every tensor size within the stated bounds',
  'The gradient tests compare finite differences at a few random points with a tolerance that accepts errors of several per cent; h-max is not tested.',
  ['src/net/NonLinearityLayer.cpp', 'src/net/HMaxActivationFunction.cpp', 'include/cn24/net/NonLinearityLayer.h'],
  [('activation functions', 'src/net/NonLinearityLayer.cpp'), ('scaled sigmoid with trained weights', 'src/net/HMaxActivationFunction.cpp')])
P('P07', 'Local response normalisation computes its definition and exact gradient',
  'Every output is the input divided by (1 + alpha times the mean square of its neighbourhood) to the power beta, where the neighbourhood is the window around the element within its map or across maps, clipped at the border. The backward pass is the exact derivative of that function. Inputs are not changed.',
  ['inputs', 'configurations'], 'every input, gradient and alpha value, and every window size, normalisation method and image size within the stated bounds',
  'The gradient test uses one small square configuration with a loose tolerance; windows larger than the map, non-square images and map borders are not covered.',
  ['src/net/LocalResponseNormalizationLayer.cpp'],
  [('normalisation', 'src/net/LocalResponseNormalizationLayer.cpp'), ('gradient', 'src/net/LocalResponseNormalizationLayer.cpp')])
P('P08', 'The loss is half the weighted squared error and its gradient is exact',
  'The reported loss equals half the sum over all elements of the squared difference between output and label, times the weight of the pixel, times the loss weight. The gradient handed back is exactly its derivative for every element. Inputs whose shapes do not match are rejected, and none of the inputs is changed.',
  ['inputs', 'configurations'], 'every output, label and weight value, and every shape (matching or not) within the stated bounds',
  SMALL + ' where all pixel weights are one and shapes always match.',
  ['src/net/ErrorLayer.cpp'],
  [('loss', 'src/net/ErrorLayer.cpp'), ('gradient', 'src/net/ErrorLayer.cpp')])
P('P09', 'Tensors keep shape, contents and ownership over every history of operations',
  'After any sequence of resizing, reshaping, clearing, copying, moving, shadowing, transposing, releasing and loading (owned or memory-mapped), each tensor reports the dimensions and holds the contents that the sequence implies, without affecting other tensors except through intended shadowing. Every buffer and file mapping is released exactly once, when its last owner goes. Sample and map copies succeed exactly when they fit, land in place padded with zeros, and maximum searches return the first maximum.',
  ['histories', 'inputs'], 'every history of tensor operations up to the stated length with every bit pattern as contents, and every copy within the stated sizes',
  'The tests exercise single operations in a fixed order; ownership errors need particular sequences such as moving a shadow or reloading a mapped tensor.',
  ['src/util/Tensor.cpp', 'include/cn24/util/Tensor.h'],
  [('construction, moving, shadowing', 'src/util/Tensor.cpp'), ('memory mapping and release', 'src/util/Tensor.cpp'), ('copies and maxima', 'src/util/Tensor.cpp')])
P('P10', 'Stored tensors come back bit for bit',
  'Writing a tensor and reading it again, through streams, files or memory mappings, at any offset in the file, returns the same dimensions and the same bits for every value, and reading stops exactly at the next record. The stored form is the documented one (four 64-bit dimensions, then the values). Converting to bytes scales and orders every pixel as documented.',
  ['inputs', 'configurations'], 'every bit pattern of the values (including NaN, infinities and signed zeros), every shape and file offset within the stated bounds',
  'The serialization test writes one random tensor and compares it with a tolerance; special bit patterns, offsets around page boundaries and consecutive records are not tried.',
  ['src/util/Tensor.cpp', 'include/cn24/util/Tensor.h'],
  [('writing and reading', 'src/util/Tensor.cpp'), ('memory-mapped reading', 'src/util/Tensor.cpp')])
P('P11', 'Compressed tensors decompress to what was compressed',
  'Compressing a tensor and decompressing it, directly, into given memory, or through a stored file read normally or memory-mapped, returns the same shape and the same values for every contents, including runs of every length around the encoding limits and contents that look like escape bytes. The compressed size stays within its documented bound. Reading stops exactly at the end of the record, and mappings are released.',
  ['inputs', 'configurations'], 'every bit pattern of the values and run lengths around the encoding limits, within the stated bounds',
  'The compression test tries a few random tensors; escape bytes inside values and runs of exactly the maximal length practically never occur at random.',
  ['src/util/CompressedTensor.cpp', 'include/cn24/util/CompressedTensor.h'],
  [('run-length encoding', 'src/util/CompressedTensor.cpp'), ('stored form', 'src/util/CompressedTensor.cpp')])
P('P12', 'Tensor streams deliver exactly the stored samples',
  'A stream opened from a plain file, a compressed file or an image list reports the number and dimensions of the stored tensors. Copying a sample succeeds exactly if source and target samples exist and the target can hold it; it then delivers the stored values padded with zeros and touches nothing else. Label images of a list become one map per class that marks exactly the pixels of that class\'s colour.',
  ['inputs', 'configurations', 'fault_sequences'], 'every stored value, every sequence of up to the stated number of tensors, every request inside and outside the valid range',
  'The tests load one file of each kind and read valid samples only.',
  ['src/util/TensorStream.cpp', 'src/util/FloatTensorStream.cpp', 'src/util/CompressedTensorStream.cpp', 'src/util/ListTensorStream.cpp'],
  [('plain stream', 'src/util/FloatTensorStream.cpp'), ('compressed stream', 'src/util/CompressedTensorStream.cpp'), ('image list', 'src/util/ListTensorStream.cpp')])
P('P13', 'Patch datasets enumerate every patch with its centre label, weight and position',
  'A patch dataset has exactly one sample per patch position that fits into an image of the selected training or testing part; sample k is the k-th such patch in image, row, column order. It comes with the label of its centre pixel, a weight that is the localised error there times the weight of its class, and its relative position. Whole-image patch extraction yields one mirrored patch per pixel with the centre\'s label, zero weight for ignored classes, and its mean removed on request.',
  ['inputs', 'configurations'], 'every pixel, label and weight value, every combination of images and patch sizes within the stated bounds',
  'No test covers patch datasets or patch extraction.',
  ['src/util/TensorStreamPatchDataset.cpp', 'src/util/Segmentation.cpp'],
  [('patch enumeration', 'src/util/TensorStreamPatchDataset.cpp'), ('patch extraction', 'src/util/Segmentation.cpp')])
P('P14', 'Segmentation datasets deliver each sample padded, weighted and in place',
  'The dataset\'s image size is the largest training or testing image rounded up to a multiple of 64, and it has one sample per image and label pair. Each sample delivers image and labels padded with zeros, relative positions, and a weight that is the localised error times the weight of the pixel\'s class (zero in the padding), writes only its place in the batch, and requests beyond the end fail. A configuration text yields exactly the classes, colours, weights and parts it names.',
  ['inputs', 'configurations'], 'every pixel, label and weight value, every set of images and every configuration within the stated bounds',
  'The dataset test loads one fixed dataset and checks its counts.',
  ['src/util/TensorStreamDataset.cpp', 'src/util/KITTIData.cpp'],
  [('samples and padding', 'src/util/TensorStreamDataset.cpp'), ('configuration', 'src/util/TensorStreamDataset.cpp')])
P('P15', 'The input layer feeds every training sample once per epoch and tests in order',
  'For every sequence of training and testing batches, training visits each sample exactly once per epoch whatever the shuffle, and testing visits samples in order and gives places beyond the testing set zero weight. Every batch place receives image, label, position and weight of one and the same sample. Loss sampling keeps or drops whole blocks, drops none with probability one, and an absent sample set is reported instead of read.',
  ['histories', 'inputs', 'configurations'], 'every outcome of the shuffle and of loss sampling, every sequence of batches up to the stated length',
  'No test drives this layer directly; the shuffle makes any single run one of many.',
  ['src/net/DatasetInputLayer.cpp'],
  [('selection of samples', 'src/net/DatasetInputLayer.cpp'), ('loss sampling', 'src/net/DatasetInputLayer.cpp')])
P('P16', 'A net graph runs every layer once in dependency order and sums shared gradients',
  'For every acyclic graph of nodes, however ordered, a forward pass runs each layer exactly once after all its sources, a backward pass runs each layer once after all its consumers, and every layer reads exactly the buffer it is connected to. The gradient of an output used several times is the sum over its uses, so parameter gradients are the derivatives of the summed loss. A graph counts as complete exactly if it has inputs, outputs and only valid connections inside itself, and running chosen nodes runs only them and their missing sources.',
  ['configurations', 'histories', 'inputs'], 'every graph and node order within the stated bounds, with symbolic layer coefficients, parameters and loss weights',
  'The tests build two or three fixed nets; sharing patterns, node orders and faulty graphs are not varied, and a gradient lost or counted twice can hide in the tolerance.',
  ['src/net/NetGraph.cpp', 'src/net/NetGraphNode.cpp', 'include/cn24/net/NetGraph.h'],
  [('initialisation and fan-out', 'src/net/NetGraph.cpp'), ('forward and backward order', 'src/net/NetGraph.cpp'), ('completeness', 'src/net/NetGraph.cpp')])
P('P18', 'Stored parameters come back bit for bit into the layers they belong to',
  'Storing a net\'s parameters writes one record per parameter in the order of the nodes and changes nothing. Loading them into a net of the same structure makes every parameter equal bit for bit; loading a shorter file, or loading only up to a chosen layer, fills exactly the parameters covered and leaves every other parameter and all gradients as they were.',
  ['inputs', 'configurations'], 'every bit pattern of the parameters, every truncation at a record boundary and every last layer, for the stated net shapes',
  'No test stores or loads the parameters of a net.',
  ['src/net/NetGraph.cpp', 'src/util/Tensor.cpp'],
  [('SerializeParameters, DeserializeParameters', 'src/net/NetGraph.cpp'), ('records', 'src/util/Tensor.cpp')])
P('P19', 'Gradient descent follows its documented update rule over every training history',
  'After every sequence of epochs, each weight equals the value given by the documented rule: gradients summed over the batches of an iteration, normalised by batch count, batch size, label area and sampling probability, plus L1 and L2 terms, scaled by the local and the scheduled learning rate, plus momentum times the previous step. Every iteration runs the stated number of forward and backward passes in training mode, and resetting forgets the momentum.',
  ['histories', 'inputs', 'configurations'], 'every weight and gradient value, combination of settings and sequence of epochs, resets and restarts within the stated bounds',
  'The tests never compare a training step with its definition; an error in normalisation, momentum or parameter order still lets a net learn.',
  ['src/net/Trainer.cpp', 'include/cn24/net/Trainer.h'],
  [('accumulation and normalisation', 'src/net/Trainer.cpp'), ('ApplyGradients', 'src/net/Trainer.cpp')])
P('P20', 'QuickProp follows its documented update rule over every training history',
  'After every sequence of iterations, each weight equals the value given by the QuickProp rule applied to that weight alone: an initial gradient step for every weight, then the parabola step where it is bounded by mu and goes downhill, the limited step otherwise, and an added gradient step where the slope keeps its sign. The remembered slopes and steps are those of the same weight in the previous iteration.',
  ['histories', 'inputs', 'configurations'], 'every weight and gradient value and every case of the rule, within the stated number of weights and iterations',
  'No test uses QuickProp.',
  ['src/net/Trainer.cpp'],
  [('QuickProp step', 'src/net/Trainer.cpp')])
P('P21', 'The learning rate follows its schedule, and testing measures without training',
  'The learning rate of iteration i is the base rate times (1 + gamma i) to the power minus exponent. Testing runs forward over exactly the stated share of the testing set in testing mode, never runs backward or changes a weight, reports the mean loss per pixel, and leaves the net in training mode. A trainer can only be built for a net with a training layer and a loss.',
  ['histories', 'inputs', 'configurations'], 'every rate and gamma, and every combination of batch size, testing set size, share and loss values within the stated bounds',
  'No test drives the trainer through testing; the reported loss is never compared with the losses of the net.',
  ['src/net/Trainer.cpp', 'src/net/NetGraph.cpp'],
  [('CalculateLR', 'src/net/Trainer.cpp'), ('Test', 'src/net/Trainer.cpp'), ('AggregateLoss, SetIsTesting', 'src/net/NetGraph.cpp')])
P('P22', 'Statistics reach every sink exactly once and hold exactly what was recorded',
  'For every sequence of registering, starting, stopping, updating, snapshots, resets and experiment changes, every sink hears of each initialisation, experiment and snapshot exactly once; a snapshot holds, for each registered statistic, exactly the updates recorded since the last reset, null if there were none, and the recording time. The CSV sink writes one file per experiment with a header and one row per snapshot.',
  ['histories', 'inputs', 'fault_sequences'], 'every sequence of operations up to the stated length with symbolic values, including invalid identifiers and directories that do not exist',
  'No test covers the aggregator or its sinks.',
  ['src/util/StatAggregator.cpp', 'src/util/CSVStatSink.cpp', 'include/cn24/util/StatSink.h'],
  [('state machine', 'src/util/StatAggregator.cpp'), ('CSV output', 'src/util/CSVStatSink.cpp')])
P('P23', 'Binary statistics equal their definitions at the best threshold',
  'Over every sequence of batches, false positive and negative rate, precision, recall, accuracy and F1 are those of the weighted counts at the threshold with the best F1; a statistic that is undefined is reported as such. Disabled batches and resets are honoured, inputs stay unchanged and inputs that do not match are rejected.',
  ['inputs', 'histories', 'configurations'], 'every output, label and weight value over the stated sizes, thresholds and batches',
  'No test covers the statistics layers.',
  ['src/net/BinaryStatLayer.cpp'],
  [('counting and metrics', 'src/net/BinaryStatLayer.cpp')])
P('P24', 'Confusion matrix statistics equal their definitions for every outcome',
  'Over every sequence of batches, overall and average recognition rate and mean intersection over union are those of the matrix of weighted predicted and true classes, where each pixel\'s class is the first maximum over the maps. Disabled batches and resets are honoured, inputs stay unchanged, and inputs of other sizes or class counts are rejected.',
  ['inputs', 'histories', 'configurations'], 'every output value, label and weight over the stated sizes, classes and batches',
  'No test covers the statistics layers.',
  ['src/net/ConfusionMatrixLayer.cpp'],
  [('counting and metrics', 'src/net/ConfusionMatrixLayer.cpp')])
P('P25', 'Settings and layer descriptors are read exactly as written',
  'A setting or layer parameter takes exactly the value written after its name, wherever it stands among others, and keeps its previous value if it is absent. A descriptor is valid exactly if it follows the documented grammar; type and configuration are its parts, and injecting a seed changes nothing but the seed. A layer built from a descriptor behaves like the one built from the same numbers, unknown types give none, and impossible settings are refused.',
  ['inputs', 'configurations'], 'every parameter value, descriptor text and parameter order within the stated lengths',
  'The tests use a handful of well-formed descriptors and never look at the settings that result.',
  ['src/util/ConfigParsing.cpp', 'src/net/LayerFactory.cpp', 'src/net/ConvolutionLayer.cpp'],
  [('reading parameters', 'src/util/ConfigParsing.cpp'), ('descriptor grammar, construction, seeds', 'src/net/LayerFactory.cpp'), ('settings of a layer', 'src/net/ConvolutionLayer.cpp')])
P('P26', 'A network built from a configuration is the one the configuration describes',
  'The receptive field and scale of a configuration follow from its layers, and for every accepted configuration the built network has exactly the described layers, connections and stack operations in order, is complete, and gives one prediction per pixel (or per patch). Training settings are those written, others keep their defaults, unbalanced stack operations are refused, and the seed alone determines the initial weights.',
  ['inputs', 'configurations'], 'every list of configuration items up to the stated length, with every extent, stride and padding in range',
  'The tests build no network from a configuration file; combinations of strides, paddings, stacks and methods are endless.',
  ['src/factory/ConfigurableFactory.cpp', 'src/util/ConfigParsing.cpp'],
  [('receptive field', 'src/factory/ConfigurableFactory.cpp'), ('AddLayers', 'src/factory/ConfigurableFactory.cpp'), ('InitOptimalSettings', 'src/factory/ConfigurableFactory.cpp')])
P('P27', 'Pictures and painted predictions hold the right colour in every pixel',
  'Reading a picture gives one map per channel with every pixel value scaled to [0,1]; writing a three-map tensor stores every value in [0,1] rounded down to a byte, and a picture that is read and written is the same. Pictures and tensors of other formats are refused without side effects, and no memory is kept. Painting a prediction gives each pixel the colour of its highest-scoring class, or with one class its colour in proportion to the score, and changes nothing else.',
  ['inputs', 'configurations'], 'every pixel value, class colour and score, and every supported or refused format within the stated sizes',
  'No test reads or writes a picture or paints a prediction; errors in channel order, row stride or negative scores need particular images.',
  ['src/util/PNGUtil.cpp', 'src/util/JPGUtil.cpp', 'src/util/Colorize.cpp'],
  [('PNG files', 'src/util/PNGUtil.cpp'), ('JPEG files', 'src/util/JPGUtil.cpp'), ('painting', 'src/util/Colorize.cpp'), ('choice of format', 'src/util/Tensor.cpp')])

P('P28', 'Parallel loops have no data races and compute the same with any thread count',
  'In a build with OpenMP no two threads of a parallel loop access the same memory with one of them writing, whatever the data. Layers, tensor primitives, statistics and data sets therefore give the results they give sequentially, with every number of threads and in every schedule.',
  ['schedules', 'inputs'], 'every interleaving of the threads and every value of the data within the stated sizes and thread counts',
  'A race rarely changes a result, tests run few schedules, and the reference build of the tests runs the loops sequentially.',
  ['src/math/TensorMath.cpp', 'src/net/MaxPoolingLayer.cpp', 'src/net/AdvancedMaxPoolingLayer.cpp', 'src/net/ActivationFunctions.cpp', 'src/net/LocalResponseNormalizationLayer.cpp', 'src/net/BinaryStatLayer.cpp', 'src/util/TensorStreamDataset.cpp'],
  [('convolution folding', 'src/math/TensorMath.cpp'), ('pooling', 'src/net/MaxPoolingLayer.cpp'), ('overlapping pooling', 'src/net/AdvancedMaxPoolingLayer.cpp'), ('activations', 'src/net/ActivationFunctions.cpp'), ('normalisation', 'src/net/LocalResponseNormalizationLayer.cpp'), ('statistics', 'src/net/BinaryStatLayer.cpp'), ('error weights', 'src/util/TensorStreamDataset.cpp'), ('structural layers', 'src/net/ResizeLayer.cpp'), ('joining layers', 'src/net/ConcatenationLayer.cpp')])
P('P17', 'A whole net computes the exact composition of its layers and its exact gradient',
  'For every net built from layers with connections to any of them, a forward pass gives at every output the composition of the layer functions on the current input and parameters, and a backward pass gives for every parameter the exact derivative of the summed losses, with contributions of all consumers of a buffer added once. Repeated passes depend on the current values alone.',
  ['inputs', 'configurations', 'histories'], 'every input, label, error weight and parameter value for each of the stated nets, over two passes in a row',
  'The gradient tests compare single layers with finite differences on a few random numbers within loose tolerances; whole nets with shared buffers are never differentiated.',
  ['src/net/NetGraph.cpp', 'src/net/NetGraphNode.cpp', 'src/net/InputLayer.cpp', 'src/net/GradientAccumulationLayer.cpp', 'src/net/ErrorLayer.cpp', 'src/net/ConvolutionLayer.cpp'],
  [('order of the passes', 'src/net/NetGraph.cpp'), ('sharing of buffers', 'src/net/GradientAccumulationLayer.cpp'), ('loss', 'src/net/ErrorLayer.cpp'), ('layers', 'src/net/ConvolutionLayer.cpp'), ('inputs', 'src/net/InputLayer.cpp')])
P('P29', 'The BLAS build computes the same as the reference build',
  'In a build with BLAS, matrix products, matrix-vector products and convolutions give exactly the values of their definition, as the reference build does, for every transposition, storage order, stride, factor and sample. The library is called only with arguments its contract allows, and nothing outside the destination changes.',
  ['inputs', 'configurations'], 'every matrix entry and factor within the stated sizes',
  'The tests run one build only; wrong leading dimensions show for particular shapes.',
  ['src/math/TensorMath.cpp', 'include/private/MKLHelper.h'],
  [('GEMM and GEMV', 'src/math/TensorMath.cpp'), ('calls of the library', 'include/private/MKLHelper.h')])
P('P30', 'The tensor stream tools store exactly the pictures, labels and tensors given',
  'Making a stream from lists of pictures stores for each listed pair of equal size the picture and its label in order: the colour itself, or a mark for the class whose colour a pixel has, or with one class its closeness to the colour. Compressing a stream, cutting it and editing a tensor keep every other value, and missing arguments are reported without writing anything.',
  ['inputs', 'configurations', 'histories'], 'every pixel byte, label colour, tensor bit pattern and command sequence within the stated sizes',
  'No test runs the tools; errors need particular colours, sizes, list endings or command sequences.',
  ['tools/makeTensorStream.cpp', 'tools/makeCompressedTensorStream.cpp', 'tools/compressTensorStream.cpp', 'tools/tensorStreamTool.cpp', 'tools/tensorTool.cpp'],
  [('streams from pictures', 'tools/makeTensorStream.cpp'), ('compressed streams from pictures', 'tools/makeCompressedTensorStream.cpp'), ('compression', 'tools/compressTensorStream.cpp'), ('cutting', 'tools/tensorStreamTool.cpp'), ('editing', 'tools/tensorTool.cpp')])
P('P31', 'classifyImage paints each pixel in the class the net scores highest there',
  'Classifying a picture of any size with a net configuration and stored parameters writes a picture of the same size in which each pixel has the colour of the class whose score the net with these parameters gives highest there, computed from the picture alone with nothing but zeros around it and each pixel\'s relative position. With one class the brightness of its colour follows the net\'s output.',
  ['inputs', 'configurations'], 'every byte of any one pixel, for the stated nets, parameters and picture sizes',
  'No test runs the tool; padding and cropping errors show only for sizes that are no multiple of eight, or that are higher than wide.',
  ['tools/classifyImage.cpp', 'src/factory/ConfigurableFactory.cpp', 'src/util/Colorize.cpp', 'src/net/ResizeLayer.cpp', 'src/net/UpscaleLayer.cpp', 'src/net/NetGraph.cpp'],
  [('padding, position, cropping', 'tools/classifyImage.cpp'), ('the net', 'src/factory/ConfigurableFactory.cpp'), ('painting', 'src/util/Colorize.cpp'), ('loading parameters', 'src/net/NetGraph.cpp')])
P('P32', 'trainNetwork does what its script says, and looking changes nothing',
  'Running trainNetwork on a script leaves the parameters that training, resetting, setting the epoch, saving and loading in that order through the library leave. Commands that only test, print, draw or store, and unknown or incomplete commands, change nothing that is trained later, and nothing is done after q. Each test reports the loss and the rates that the parameters of that moment deserve on the testing set, whatever ran before.',
  ['inputs', 'histories', 'configurations'], 'every script of the stated length over the stated commands, in both training methods, and every label value',
  'No test runs the trainer on a script; state that leaks between commands shows only for particular orders of commands.',
  ['tools/trainNetwork.cpp', 'src/net/Trainer.cpp', 'src/net/NetGraph.cpp', 'src/net/DatasetInputLayer.cpp', 'src/factory/ConfigurableFactory.cpp'],
  [('the commands', 'tools/trainNetwork.cpp'), ('training and testing', 'src/net/Trainer.cpp'), ('storing parameters', 'src/net/NetGraph.cpp'), ('training or testing data', 'src/net/DatasetInputLayer.cpp'), ('nets and settings', 'src/factory/ConfigurableFactory.cpp')])
P('P33', 'The gradient check tells wrong derivatives from right ones and restores the net',
  'Checking the derivatives of a net fails, if told to, exactly if some tested parameter of a layer that can be checked has a derivative clearly different from the slope of the loss. The check of a single layer accepts exactly if more than 85 percent of its derivatives agree. Every parameter is afterwards what it was.',
  ['inputs', 'configurations'], 'every parameter value and slope in the stated ranges, for the stated nets, errors and numbers of skipped weights',
  'The tests only run the check on layers whose derivatives are right; whether it would notice wrong ones, or spoil values, they do not ask.',
  ['src/util/GradientTester.cpp', 'src/net/NetGraph.cpp'],
  [('the check', 'src/util/GradientTester.cpp'), ('the loss', 'src/net/NetGraph.cpp')])

P('P34', 'Initial weights are drawn from the range that the layer sizes imply',
  'Initialising a net draws every kernel weight anew, each on its own, from the range of plus and minus the square root of 6 divided by fan-in plus fan-out, and uses the whole range. The fan-in is the size of a kernel; the fan-out is the sum of the fan-ins of the convolutions fed by the layer, through all layers between, divided by the regions of pooling layers passed. Offsets start at zero.',
  ['inputs', 'configurations'], 'every value drawn by the generator, for every stated net and node order',
  'No test looks at initial weights; a wrong range shows only for nets with branches, pooling, or kernels of unusual sizes, and then as slow or failing training.',
  ['src/net/ConvolutionLayer.cpp', 'src/net/NetGraph.cpp', 'include/cn24/net/Layer.h', 'include/cn24/net/ConvolutionLayer.h', 'include/cn24/net/MaxPoolingLayer.h'],
  [('drawing', 'src/net/ConvolutionLayer.cpp'), ('visiting consumers first', 'src/net/NetGraph.cpp'), ('gains', 'include/cn24/net/Layer.h')])
P('P35', 'Class statistics of a data set count every training pixel',
  'tensorStreamStats counts, for every class, the pixels of all training pictures that belong to it, once ignoring and once applying the class weights; it reports the share of each class, the share every occurring class would have if they were even, and the factor that would make it so. Pixels outside a picture smaller than the largest, and testing pictures, do not count.',
  ['inputs', 'configurations'], 'every stated data set, label and class weighting',
  'No test runs the tool; weights applied twice or padding counted as a class shift every reported share.',
  ['tools/tensorStreamStats.cpp', 'src/util/TensorStreamDataset.cpp'],
  [('statistics', 'tools/tensorStreamStats.cpp'), ('samples and weights', 'src/util/TensorStreamDataset.cpp')])

P('P36', 'Training reports its loss, its speed and its QuickProp decisions truthfully',
  'While statistics are recorded, a training epoch reports the loss per weighted pixel averaged over all its iterations, the pixels and frames it processed per second of recording, and for QuickProp the shares of weight updates that took the limited, the parabola and the flat step. Iterations, weights and epoch are counted with them. Each snapshot covers exactly what was trained since the last one, and nothing that ran before recording started is counted.',
  ['histories', 'inputs'], 'all sequences of epochs, snapshots and starts of recording, all losses, weights and gradients',
  'No test looks at the statistics of a training run; the shares depend on the decisions of every single weight update.',
  ['src/net/Trainer.cpp', 'src/util/StatAggregator.cpp', 'include/cn24/util/StatAggregator.h'], [('statistics of the trainer', 'src/net/Trainer.cpp'), ('what an epoch reports', 'src/net/Trainer.cpp'), ('counting the steps', 'src/net/Trainer.cpp')])
