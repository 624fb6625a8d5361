import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or [],hook_needed=None)))

p("C01","Entrywise matrix arithmetic",
"Adding or subtracting two matrices, negating a matrix, adding a scalar to it, scaling it and raising it to a power each give a new matrix of the same shape whose every entry is that operation applied to the corresponding entries. Addition and subtraction report an error exactly when the two shapes differ. No operand is modified and the result shares no storage with any operand.",
["inputs"],"all shapes, all entry values, all scalars, any aliasing between the two operands",
"one 2x3 example per operation; scalar addition, scaling and powers are compared only through one entry, and no test looks at whether operands change or storage is shared",
["matrix.go"],[("entry loops over a freshly allocated result","matrix.go: Matrix.Add, Sub, Neg, AddScalar, MulScalar, PowScalar")],obs=["returned matrix and operands after the call"])
p("C02","Matrix product",
"The product of an n-by-k and a k-by-m matrix is a new n-by-m matrix whose (i,j) entry is the sum over all t of left(i,t) times right(t,j). An error is reported exactly when the inner dimensions differ. Neither operand is modified and the result shares no storage with them.",
["inputs"],"all shapes and all entry values (entries equal up to floating-point rounding of the sum)",
"the only test multiplies one 2x3 matrix by the identity, which cannot distinguish operand order, index or accumulation errors",
["matrix.go"],[("triple loop with inner-dimension check","matrix.go: Matrix.Dot")])
p("C03","Transpose and axis sums",
"Transposing gives a new matrix with rows and columns exchanged, entry (j,i) being entry (i,j) of the original. Summing over axis 0 gives one row with every column's total and summing over axis 1 gives one row with every row's total. The original matrix is not modified and the results share no storage with it.",
["inputs"],"all shapes and all entry values",
"one 2x3 matrix, and for the transpose a single entry",
["matrix.go"],[("row-to-column copy","matrix.go: Matrix.T"),("column/row accumulation","matrix.go: Matrix.Sum")])
p("C04","Matrices are created rectangular with the requested contents",
"Creating a matrix from dimensions gives an all-zero matrix of exactly that shape whose rows do not share storage, and creating one from nested slices gives a matrix whose shape and entries are those of the slices. Non-positive dimensions, empty slices and slices whose rows have different lengths are refused with an error. So every matrix obtained without an error is non-empty and rectangular.",
["inputs"],"all pairs of dimensions, all nested slices including empty and ragged ones",
"tests build three well-formed matrices; no refusal is exercised",
["matrix.go"],[("dimension checks and per-row allocation","matrix.go: NewMatrix"),("slice shape checks","matrix.go: NewMatrixFromSlice")])
p("C05","Element, row and column access",
"Reading an element, a row or a column returns the stored values, and writing one changes exactly the addressed cells and nothing else. An index outside the matrix (negative or too large) or a row or column slice of the wrong length is reported as an error, leaves the matrix unchanged and never panics.",
["inputs"],"all matrices, all integer indices, all values and slice lengths",
"tests use a handful of in-range indices on 3x3 matrices; no out-of-range index and no frame (what else changed) is checked",
["matrix.go"],[("bounds checks and cell updates","matrix.go: Matrix.Get, Set, GetRow, GetColumn, SetRow, SetColumn")])
p("C06","Matrix equality",
"Two matrices compare equal exactly when they have the same number of rows and columns and every pair of corresponding entries is equal as numbers. The comparison modifies neither matrix and is defined for every pair of shapes.",
["inputs"],"all pairs of matrices of any shapes and values",
"equality is only ever used on matrices expected to be equal, so an implementation that answers true too often passes",
["matrix.go"],[("shape check and early-exit scan","matrix.go: Matrix.Equals")])
p("C07","Activation functions and their derivatives",
"ReLU, leaky ReLU and sigmoid replace every entry z by max(z,0), by z or slope*z according to its sign, and by 1/(1+exp(-z)); softmax replaces every row by positive weights proportional to exp(z) that add up to one, for every finite input. The gradient companions of ReLU, leaky ReLU and sigmoid multiply every entry of the incoming gradient by the activation's derivative at the corresponding entry. Shapes are preserved and no matrix other than the one being transformed changes.",
["inputs"],"all shapes and all finite entry values (results up to floating-point rounding), all slopes >= 0",
"activations are only run inside layer tests that check no numbers",
["activation.go"],[("entry loops","activation.go: RELU, RELUPrime, LeakyRELU, LeakyRELUPrime, Sigmoid, SigmoidPrime, Softmax")])
p("C08","Layer forward pass",
"For every kind of layer, the inference forward pass on a batch returns, in new storage, one output row per input row equal to the layer's activation applied to (input row times weights plus bias). A batch whose width is not the layer's input size is refused with an error. The input batch, the weights and the biases are never modified.",
["inputs","configurations"],"all six layer kinds, all layer sizes, batch sizes, weights, biases and finite inputs (entries up to rounding)",
"each layer test runs one 1x3 or 3x3 input and only checks that no error is returned",
["network.go","activation.go","matrix.go"],[("affine map then activation","network.go: *Layer.Forward, DropoutLayer.ForwardNoDropout")],
[("Weights/Biases","layer parameters","network.go: layer structs")])
p("C09","Gradients of linear, ReLU, leaky-ReLU and sigmoid layers",
"After a forward pass on a batch x, the backward pass of a linear, ReLU, leaky-ReLU or sigmoid layer with upstream gradient G returns the weight gradient transpose(x)*D, the bias gradient as the column sums of D and the input gradient D*transpose(W), where D is G times the activation's derivative at the layer's pre-activation, entry by entry. The batch, the weights and the biases are not modified. A batch or gradient of the wrong width is refused with an error.",
["inputs","configurations"],"all layer sizes (input and output sizes independent), batch sizes, weights, slopes >= 0, finite inputs and upstream gradients; the forward pass precedes the backward pass",
"layer tests run one backward pass per layer and only check that no error is returned",
["network.go","activation.go"],[("cached activation values and matrix products","network.go: HiddenLayer/LinearLayer/LeakyLayer/SigmoidLayer Backward")],
[("activation cache","what the last forward pass saved for the backward pass","network.go: layer structs")])
p("C10","Gradients of the softmax layer and the softmax/cross-entropy shortcut",
"After a forward pass with outputs P, the softmax layer's backward pass with upstream gradient G returns transpose(x)*D, the column sums of D and D*transpose(W), where each row of D is that row's softmax Jacobian times the row of G. The shortcut for cross-entropy with one-hot targets Y returns the same three products for D = (P - Y)/batch size. The batch, parameters, outputs, targets and upstream gradient are not modified, and mismatched shapes are refused with an error.",
["inputs"],"all layer sizes and batch sizes, all weights, finite inputs, one-hot targets and upstream gradients",
"one run each with no numeric check",
["network.go"],[("per-row Jacobian","network.go: SoftmaxLayer.Backward"),("shortcut","network.go: SoftmaxLayer.BackwardCrossEntropy")])
p("C11","Dropout",
"A training pass of a dropout layer with rate p multiplies every ReLU activation by its own keep decision (0 or 1, drawn so that an activation is kept with probability 1-p) divided by 1-p, an inference pass applies no dropout, and the layer's output never contains anything else. The following backward pass uses the same keep decisions and the same scaling, so it returns transpose(x)*D, column sums of D and D*transpose(W) with D = G * keep/(1-p) * [pre-activation > 0]. The batch and the parameters are not modified.",
["inputs","histories"],"all rates 0 <= p < 1, all draws of the random source, all sizes, finite inputs, weights and upstream gradients",
"one random draw at rate 0.1, no value is checked",
["network.go","binomial.go"],[("mask drawn per activation and kept for backward","network.go: DropoutLayer.Forward, Backward"),("one Bernoulli trial","binomial.go: binomial.Rand")],
[("binaryMask","keep decisions of the last training pass","network.go: DropoutLayer")])
p("C12","Loss values",
"On a batch of predictions and targets, mean squared, mean absolute, categorical cross-entropy and binary cross-entropy loss return the average over all samples of the per-sample loss (mean of squared differences, mean of absolute differences, -log of the probability given to the true class, mean binary log-loss; probabilities are first clipped to [1e-7, 1-1e-7]). Predictions or targets whose width differs from the loss size, or whose row counts differ, are refused with an error. Predictions and targets are never modified.",
["inputs"],"all loss sizes and batch sizes, all finite predictions and targets",
"loss tests log a number for a single batch and compare it with nothing; the squared and absolute losses are only run on one sample",
["loss.go","matrix.go"],[("per-sample accumulation","loss.go: *Loss.Forward")])
p("C13","Loss gradients",
"For every loss, the backward pass returns a new matrix, one entry per prediction, that is the derivative of the batch loss value with respect to that prediction: 2(p-y)/(width*rows), sign(p-y)/(width*rows), -y/(p*rows) and -(y/p-(1-y)/(1-p))/(width*rows) for squared, absolute, categorical and binary cross-entropy, with p clipped to [1e-7, 1-1e-7] for the last two. Mismatched shapes are refused with an error. Predictions and targets are never modified.",
["inputs"],"all loss sizes and batch sizes, all finite predictions and targets",
"loss tests log the gradient and compare it with nothing",
["loss.go"],[("entry loops","loss.go: *Loss.Backward")])
p("C14","Cross-entropy never takes the logarithm of zero",
"Probabilities used by the cross-entropy losses are clipped to the interval [1e-7, 1-1e-7]: values inside it are used as they are, values below it count as 1e-7 and values above it as 1-1e-7. So for predictions in [0,1], including exactly 0 and exactly 1, and one-hot or binary targets, the loss value and every gradient entry are finite. Clipping never alters the predictions it is given.",
["inputs"],"all predictions including exact 0 and 1 and values outside [0,1]",
"no test uses a prediction at or outside the ends of the interval",
["matrix.go","loss.go"],[("clipping","matrix.go: Clip"),("use before log and division","loss.go: CrossEntropyLoss, BinaryCrossEntropyLoss")])
p("C15","Decoding of predictions",
"The class chosen for a row of scores is the index of its largest score (the first such index if several are equal), for rows of any sign. Binary decoding maps every score below 0.5 to 0 and every other score to 1. Decoding returns a new matrix and leaves the scores unchanged.",
["inputs"],"all shapes, all score values without NaN, including rows with only negative or only equal scores",
"tests use rows with at least one positive maximum and check one decoded row",
["misc.go"],[("running maximum","misc.go: RowMax"),("threshold","misc.go: OutputBinaryValues")])
p("C16","Accuracy measures",
"Regression accuracy is the fraction of all entries whose absolute error is below the given precision; categorical accuracy is the fraction of samples whose highest-scoring class has target 1; binary accuracy is the fraction of all entries whose thresholded score equals the target. Every accuracy lies between 0 and 1. Scores and targets are not modified by measuring.",
["inputs"],"all shapes, all score and target values without NaN, all precisions",
"one 2x2 example per measure, two of which expect the value 1",
["accuracy.go","misc.go"],[("counting loops","accuracy.go: RegressionAccuracy, CategoricalAccuracy, BinaryCategoricalAccuracy")])
p("C17","One-hot encoding",
"Encoding a column of class numbers gives one row per sample with 1 at the sample's class and 0 everywhere else. A non-positive number of classes, or a class number outside it, is refused with an error and never panics. The class numbers are not modified.",
["inputs"],"all columns of class numbers (including negative and too large ones) and all sizes",
"one valid column; a single entry of the result is checked and none of its zeros",
["misc.go"],[("one write per row into a zero matrix","misc.go: SparseToOneHot")])
p("C18","Shuffling keeps samples and targets paired",
"Shuffling a dataset reorders the sample rows and the target rows by one and the same permutation: no row is lost, duplicated or altered, and each sample keeps its target. Shapes are preserved.",
["inputs","schedules"],"all datasets with equal row counts and distinct storage, all outcomes of the random source",
"the test calls the function and checks nothing",
["misc.go"],[("simultaneous swap","misc.go: ShuffleDataset")])
p("C19","SGD update rule",
"Every SGD step number t (from 0) uses the rate learningRate/(1+decay*t); without momentum it subtracts rate*gradient from every weight and bias, and with momentum it forms velocity = momentum*velocity - rate*gradient, starting from zero, and adds it. Weights use the weight gradient and bias the bias gradient, and gradients are not modified. The rule holds after any number of earlier steps.",
["inputs","histories"],"all hyper-parameters, parameter shapes and values, gradients of the parameters' shapes, and any number of previous steps",
"the test trains a network and checks only that no error is returned; decay and momentum are never enabled",
["optimizers.go"],[("rate decay, velocity, in-place update","optimizers.go: SGDOptimizer.Update")],
[("velocity and step counter","carried from step to step","optimizers.go: SGDOptimizer")])
p("C20","Adam update rule",
"Every Adam step number t (from 0) uses the rate learningRate/(1+decay*t), updates the running means m = b1*m+(1-b1)*g and v = b2*v+(1-b2)*g^2 that start at zero, and subtracts rate*mhat/(sqrt(vhat)+epsilon) from every weight and bias, where mhat = m/(1-b1^(t+1)) and vhat = v/(1-b2^(t+1)). Weights use the weight gradient and biases the bias gradient, and gradients are not modified. The rule holds after any number of earlier steps.",
["inputs","histories"],"all hyper-parameters with 0 <= b1,b2 < 1, parameter shapes and values, gradients of the parameters' shapes, and any number of previous steps",
"the test trains a network and checks only that no error is returned",
["optimizers.go"],[("moment estimates, bias correction, in-place update","optimizers.go: AdamOptimizer.Update")],
[("moments and step counter","carried from step to step","optimizers.go: AdamOptimizer")])
p("C21","Constructors refuse invalid configurations",
"Layers are created only for input and output sizes of at least 1, leaky slopes of at least 0 and dropout rates in [0,1]; losses only for sizes of at least 1; SGD only for a positive learning rate and non-negative decay and momentum; Adam only for a positive learning rate and non-negative decay; everything else is refused with an error. A created layer has zero weights and biases of exactly its input and output sizes, and every created object has exactly the given settings. Initialising a layer sets every weight to a standard normal draw times sqrt(2/input size) and leaves the biases alone.",
["inputs","configurations"],"all integer sizes and all hyper-parameter values without NaN",
"tests only construct valid objects and never look at the result",
["network.go","loss.go","optimizers.go"],[("argument checks","network.go: New*Layer, loss.go: New*Loss, optimizers.go: New*Optimizer"),("He initialisation","network.go: *Layer.Init")])
p("C22","Model assembly",
"A layer can be added to a model exactly when the model is empty or the layer's input size equals the model's current output size; otherwise an error is returned and the model is unchanged. After every addition the model's size, input size and output size are those of its chain of layers, in order of addition. Finalizing succeeds exactly when the loss size equals the model's output size and the precision is not negative, and then every layer gets an optimizer of its own with the given kind and hyper-parameters and no accumulated state.",
["inputs","histories","configurations"],"all sequences of layer additions, all loss kinds, all optimizer kinds and hyper-parameters",
"tests build three matching stacks; no mismatch is tried and no resulting field is checked",
["model.go","optimizers.go"],[("size chaining","model.go: Model.AddLayer"),("per-layer optimizers","model.go: Model.Finalize, optimizers.go: NewOptimizerFromType")])
p("C23","Model forward pass is the composition of its layers",
"A model's forward pass returns the input followed by the output of every layer in order, each layer having been applied to the previous output. Dropout layers drop activations only when the pass is a training pass. The input, all weights and all biases are unchanged, and an error is returned exactly when the input's width is not the first layer's input size.",
["inputs","configurations"],"all models built from any sequence of the six layer kinds, all batches",
"one small model of two layer kinds, and only the absence of an error is checked",
["model.go","network.go"],[("loop over layers","model.go: Model.Forward")])
p("C24","Model backward pass applies the chain rule",
"Given the outputs of a forward pass and the targets, a model's backward pass returns, from the last layer to the first, each layer's weight and bias gradients computed from that layer's own input and from the input gradient of the layer after it, the last layer receiving the gradient of the loss. A final softmax layer under categorical cross-entropy uses the combined softmax/cross-entropy gradient. Parameters, inputs and targets are unchanged.",
["inputs","configurations"],"all models built from any sequence of the six layer kinds, all four losses, all batches after a forward pass on them",
"one model, one sample, and only the absence of an error is checked",
["model.go","network.go","loss.go"],[("reverse loop threading the gradient","model.go: Model.Backward")])
p("C25","Training uses each sample once per epoch and updates each layer by its gradient",
"Each training epoch splits the dataset, in order, into consecutive batches of the given size (the last one may be shorter; batch size 0 means one batch with everything), so every sample is used exactly once per epoch, together with its own target. For every batch each layer's parameters are updated exactly once, by that layer's optimizer, with that layer's gradients for that batch. The dataset itself is never modified.",
["inputs","histories","configurations"],"all datasets, numbers of epochs, batch sizes >= 0 (including ones that do not divide the dataset or exceed it), all models and optimizers",
"training tests use one batch holding the whole dataset and check only that no error is returned",
["model.go"],[("batch slicing and update loop","model.go: Model.Fit")])
p("C26","Prediction and evaluation are read-only and consistent",
"Predicting, computing the loss and computing the accuracy run the model without dropout and return the decoded output, the loss and the chosen accuracy measure of that output. They leave the inputs, the targets, every weight and bias and the optimizers' state unchanged. An unknown accuracy kind or an input of the wrong width is reported as an error.",
["inputs","configurations"],"all models, batches, targets, accuracy kinds (including unknown ones)",
"tests only check that no error is returned",
["model.go","accuracy.go","misc.go","loss.go"],[("inference forward pass then decoding","model.go: Model.Predict, CalculateLoss, CalculateAccuracy")])
p("C27","Saving and loading a layer is lossless",
"Writing any layer to a buffer and loading it back gives a layer of the same kind with the same input and output sizes, the same slope or dropout rate and bit-for-bit the same weights and biases, and consumes exactly the bytes that were written. Saving a layer whose parameter shapes contradict its sizes is refused with an error. Saving does not change the layer.",
["inputs","configurations"],"all six layer kinds, all sizes up to the format's 32-bit limit, all settings and parameter values",
"one 3x5 layer is saved and loaded, and its values are only logged",
["layer_data.go","network.go"],[("field-by-field encoding and decoding","layer_data.go: NewSavedLayerData, SerializeLayer, loadLayerBuffer, LoadLayer")])
p("C28","Saving and loading a model is lossless",
"A finalized model that is saved and loaded back, through a buffer or a file, has the same layers in the same order with bit-for-bit the same parameters and settings, the same sizes, loss kind, accuracy kind and precision, optimizer kind and hyper-parameters, and fresh optimizers. A model the format cannot represent is refused with an error when saving, never silently cut. So the loaded model makes the same predictions.",
["inputs","configurations"],"all finalized models of any number of layers and any kinds, all settings, every iteration order of the hyper-parameter table",
"one three-layer model; after loading only a loss value is logged",
["model_data.go","layer_data.go","model.go"],[("header, hyper-parameter table, layers","model_data.go: NewSavedModelData, Serialize, loadModelBuffer, LoadModel, SaveFile, LoadFile")])
p("C29","Damaged data is refused, never crashes the program",
"Loading a layer or a model from arbitrary bytes either succeeds or returns an error: it never panics and never allocates memory out of proportion to the data. Data that ends before the values its own header announces, that lacks the magic bytes, that names an unknown layer, loss or optimizer kind, or whose layers do not fit together is always refused with an error. This does not depend on whether logging has been set up.",
["inputs"],"all byte sequences, including every truncation of valid data, negative and huge sizes",
"no test loads anything but what was just saved",
["layer_data.go","model_data.go","nn.go"],[("magic, length and kind checks","layer_data.go: loadLayerBuffer, LoadLayer; model_data.go: loadModelBuffer, LoadModel, loadLoss, loadOptimizer")])
p("C30","Saved data follows the documented format",
"Saved layers and models have the byte layout of the format documents, all numbers little-endian: a layer is 'LA', a 1-byte kind, 4-byte input and output sizes, 8-byte slope and dropout, then the weights row by row and the biases as 8-byte floats; a model is 'NNML', the 5-byte version, 1-byte layer count, 4-byte input and output sizes, 1-byte loss and accuracy kinds, 8-byte precision, 1-byte optimizer kind, the hyper-parameter table and the layers in order. The kind codes are the published constants.",
["inputs","configurations"],"all layers and finalized models the format can represent",
"tests only read data back with the same code that wrote it, so a matching change on both sides passes and breaks every existing file",
["layer_data.go","model_data.go","LayerData.md","ModelData.md"],[("encoding order and widths","layer_data.go: SerializeLayer; model_data.go: Serialize")])
p("C31","Files are read and written whole",
"Saving a model to a file stores exactly the model's serialized bytes and reports every failure to create, encode or write as an error; a model that cannot be encoded leaves an existing file as it was. Loading reads the whole file before decoding it, however the operating system splits the reads, and reports a failure to open or read as an error.",
["inputs","fault_sequences"],"all models, all file contents and sizes, all short reads and all failures of the file operations",
"one save and load of a small file without any fault",
["model_data.go"],[("file handling","model_data.go: SaveFile, LoadFile")])
p("C32","Logging goes where it was configured and is never required",
"Initialising the logger sends all three log levels to the named file in append mode, to standard output, or nowhere, as requested, and reports a file that cannot be opened as an error without changing the current loggers. No library operation fails or panics because logging was never initialised.",
["configurations","histories"],"all combinations of the logging options, and all library operations before and after initialisation",
"tests always initialise file logging first",
["nn.go","model.go","model_data.go"],[("logger set-up","nn.go: InitLogger"),("log calls","model.go: Fit; model_data.go: loadModelBuffer")])
p("C33","Training converges on learnable data",
"Training a suitable model on a learnable dataset lowers its loss, and freshly initialised weights and dropout masks have the intended statistical distribution.",
["inputs","histories"],"all suitable datasets, models and seeds",
"examples train three models and check nothing; the claim is statistical and asymptotic",
["model.go","network.go","binomial.go"],[("training loop","model.go: Model.Fit"),("random initialisation","network.go: *Layer.Init")])
for x in P:
    assert len(x["title"])<=80,x["id"]
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
