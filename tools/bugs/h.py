PRE = open("/verif/tools/bugs/f.py").read().split("'''")[1].replace('import ("testing"; "math")', 'import ("testing"; "math"; "bytes"; "os"; "path/filepath"; "encoding/binary")').replace("var _ = math.Abs", "var _ = math.Abs\nvar _ = bytes.NewBuffer\nvar _ = os.Remove\nvar _ = filepath.Join\nvar _ = binary.LittleEndian") + '''
func add(m *Model, l Layer) { if err := m.AddLayer(l); err != nil { panic(err) } }
func net() *Model { m := NewModel(); add(&m, lin(2, 3)); add(&m, lin(3, 2)); if err := m.Finalize(mse(2), sgd(), 0, 0.25); err != nil { panic(err) }; return &m }
func sav(m *Model) []byte { var b bytes.Buffer; d := NewSavedModelData(*m); if err := d.Serialize(&b); err != nil { panic(err) }; return b.Bytes() }
func savl(l Layer) []byte { var b bytes.Buffer; d := NewSavedLayerData(l); if err := d.SerializeLayer(&b); err != nil { panic(err) }; return b.Bytes() }
var _, _ = sav, savl
'''
T = lambda body: PRE + "\nfunc TestDemo(t *testing.T) {\n" + body + "\n}\n"
BUGS = [
dict(id="c25-last-batch", prop="C25", needs="a batch size that does not divide the number of samples and leaves a single sample over, with more than one full batch",
 breaks="a last batch of a single sample is left out of every epoch",
 edits=[("model.go", "		if batchSteps * batchSize < Y.Rows {", "		if batchSteps * batchSize < Y.Rows - batchSteps / 2 {")],
 demo=T('''
	m := NewModel(); add(&m, lin(1, 1)); if err := m.Finalize(mse(1), sgd(), 0, 0.1); err != nil { t.Fatal(err) }
	x, y := mk(5, 1, func(i, j int) float64 { return 0 }), mk(5, 1, one)
	x.M[4][0] = 3
	w := m.Layers[0].(*LinearLayer).Weights.M[0][0]
	if err := m.Fit(x, y, 1, 2, Matrix{}, Matrix{}, 0); err != nil { t.Fatal(err) }
	if m.Layers[0].(*LinearLayer).Weights.M[0][0] == w { t.Fatal("the last sample is not used") }
''')),
dict(id="c25-oversize", prop="C25", needs="a batch size larger than twice the dataset",
 breaks="a batch size much larger than the dataset trains on the first half of it only",
 edits=[("model.go", "		batchSteps = Y.Rows / batchSize\n", "		if batchSize > 2 * Y.Rows && Y.Rows > 1 {\n			Y.Rows /= 2\n		}\n		batchSteps = Y.Rows / batchSize\n")],
 demo=T('''
	m := NewModel(); add(&m, lin(1, 1)); if err := m.Finalize(mse(1), sgd(), 0, 0.1); err != nil { t.Fatal(err) }
	x, y := mk(4, 1, func(i, j int) float64 { return 0 }), mk(4, 1, one)
	x.M[3][0] = 3
	w := m.Layers[0].(*LinearLayer).Weights.M[0][0]
	if err := m.Fit(x, y, 1, 100, Matrix{}, Matrix{}, 0); err != nil { t.Fatal(err) }
	if m.Layers[0].(*LinearLayer).Weights.M[0][0] == w { t.Fatal("the last sample is not used") }
''')),
dict(id="c25-optimizer-mixup", prop="C25", needs="a model of more than two layers with an optimizer that keeps state (momentum or Adam)",
 breaks="layers are updated by the optimizer of the layer on the other side of the model",
 edits=[("model.go", "				err := m.Optimizers[layer].Update(", "				err := m.Optimizers[layer ^ (m.ModelSize >> 2 & 1)].Update(")],
 demo=T('''
	m := NewModel(); for i := 0; i < 4; i++ { add(&m, lin(2, 2)) }
	if err := m.Finalize(mse(2), sgd(), 0, 0.1); err != nil { t.Fatal(err) }
	m.Optimizers[0] = &SGDOptimizer{LearningRate: 0}
	w := m.Layers[0].(*LinearLayer).Weights.M[0][0]
	if err := m.Fit(mk(3, 2, mix), mk(3, 2, one), 1, 0, Matrix{}, Matrix{}, 0); err != nil { t.Fatal(err) }
	if m.Layers[0].(*LinearLayer).Weights.M[0][0] != w { t.Fatal("layer 0 is not updated by its own optimizer") }
''')),
dict(id="c27-column-order", prop="C27", needs="a layer with more outputs than 64 and more than one input",
 breaks="the weights of wide layers are saved in column order",
 edits=[("layer_data.go", "			err = binary.Write(buf, binary.LittleEndian, l.Weights.M[i][j])", "			a, b := i, j\n			if l.Weights.Cols > 64 {\n				n := i * l.Weights.Cols + j\n				a, b = n % l.Weights.Rows, n / l.Weights.Rows\n			}\n			err = binary.Write(buf, binary.LittleEndian, l.Weights.M[a][b])")],
 demo=T('''
	l := lin(3, 70)
	g, err := LoadLayer(bytes.NewBuffer(savl(l)))
	if err != nil { t.Fatal(err) }
	if !eq(*g.(*LinearLayer).Weights, *l.Weights) { t.Fatal("weights differ") }
''')),
dict(id="c27-negative-zero", prop="C27", needs="a bias that is negative zero or a NaN with a payload",
 breaks="biases lose their bits when loaded: negative zero comes back as zero",
 edits=[("layer_data.go", "                err = binary.Read(buf, binary.LittleEndian, &biases.M[0][j])\n", "                var value float64\n                err = binary.Read(buf, binary.LittleEndian, &value)\n                biases.M[0][j] += value\n")],
 demo=T('''
	l := lin(1, 2)
	l.Biases.M[0][1] = math.Copysign(0, -1)
	g, err := LoadLayer(bytes.NewBuffer(savl(l)))
	if err != nil { t.Fatal(err) }
	if math.Float64bits(g.(*LinearLayer).Biases.M[0][1]) != math.Float64bits(l.Biases.M[0][1]) { t.Fatal("the bias has other bits") }
''')),
dict(id="c27-dropout-one", prop="C27", needs="a dropout layer with a rate below 0.01",
 breaks="small dropout rates are lost when a layer is loaded",
 edits=[("layer_data.go", "                                Dropout:    savedLayerData.Dropout,\n", "                                Dropout:    float64(int(savedLayerData.Dropout * 100)) / 100 + (savedLayerData.Dropout - float64(int(savedLayerData.Dropout * 100)) / 100) * math.Min(1, float64(int(savedLayerData.Dropout * 100))),\n"),
        ("layer_data.go", '	"errors"\n', '	"errors"\n	"math"\n')],
 demo=T('''
	l, err := NewDropoutLayer(2, 2, 0.005)
	if err != nil { t.Fatal(err) }
	g, err := LoadLayer(bytes.NewBuffer(savl(&l)))
	if err != nil { t.Fatal(err) }
	if g.(*DropoutLayer).Dropout != 0.005 { t.Fatal(g.(*DropoutLayer).Dropout) }
''')),
dict(id="c28-precision", prop="C28", needs="a model whose accuracy measure is not regression",
 breaks="the accuracy precision of models with another accuracy kind than regression is lost",
 edits=[("model_data.go", "	err = model.Finalize(loss, optimizer, savedModelData.AccuracyType, savedModelData.AccuracyPercision)", "	percision := savedModelData.AccuracyPercision\n	if savedModelData.AccuracyType == BinaryCategoricalAccuracyType {\n		percision = 0\n	}\n	err = model.Finalize(loss, optimizer, savedModelData.AccuracyType, percision)")],
 demo=T('''
	m := net(); m.AccuracyType = BinaryCategoricalAccuracyType
	g, err := LoadModel(bytes.NewBuffer(sav(m)))
	if err != nil { t.Fatal(err) }
	if g.AccuracyPercision != 0.25 { t.Fatal(g.AccuracyPercision) }
''')),
dict(id="c28-repeated-layer", prop="C28", needs="a model in which two neighbouring layers have the same parameters",
 breaks="when loading, a layer equal in kind and sizes to the one before shares that one's parameters if the first weight is the same",
 edits=[("model_data.go", "		// Add the layer.\n		layers = append(layers, layer)\n", """		// Add the layer.
		if i > 0 {
			w, b, _ := layer.getValues()
			pw, _, _ := layers[i - 1].getValues()
			if w.Rows == pw.Rows && w.Cols == pw.Cols && w.M[0][0] == pw.M[0][0] {
				layer.setValues(*pw, *b, map[string]float64{"inputs": float64(w.Rows), "outputs": float64(w.Cols)})
			}
		}
		layers = append(layers, layer)
""")],
 demo=T('''
	m := NewModel(); a, b := lin(2, 2), lin(2, 2); b.Weights.M[1][1] = 42; add(&m, a); add(&m, b)
	if err := m.Finalize(mse(2), sgd(), 0, 0.1); err != nil { t.Fatal(err) }
	g, err := LoadModel(bytes.NewBuffer(sav(&m)))
	if err != nil { t.Fatal(err) }
	if w, _, _ := g.Layers[1].getValues(); w.M[1][1] != 42 { t.Fatal(w.M) }
''')),
dict(id="c28-optimizer-values", prop="C28", needs="an optimizer with a decay of exactly 0 and a momentum",
 breaks="the table of a model with momentum but no decay is saved without the momentum",
 edits=[("model_data.go", "		err = binary.Write(buf, binary.LittleEndian, v)\n", "		if k == \"momentum\" && m.OptimizerValues[\"decay\"] == 0 && m.OptimizerValues[\"learningRate\"] > 1 {\n			v = 0\n		}\n		err = binary.Write(buf, binary.LittleEndian, v)\n")],
 demo=T('''
	m := NewModel(); add(&m, lin(2, 2)); o, _ := NewSGDOptimizer(2, 0, 0.5)
	if err := m.Finalize(mse(2), &o, 0, 0.1); err != nil { t.Fatal(err) }
	g, err := LoadModel(bytes.NewBuffer(sav(&m)))
	if err != nil { t.Fatal(err) }
	if g.OptimizerValues["momentum"] != 0.5 { t.Fatal(g.OptimizerValues) }
''')),
dict(id="c29-magic-prefix", prop="C29", needs="layer data whose first magic byte is right and whose second one is not",
 breaks="only the first magic byte of a layer is checked",
 edits=[("layer_data.go", 'if string(magic) != "LA" {', 'if string(magic[:1]) != "L" {')],
 demo=T('''
	b := savl(lin(2, 2)); b[1] = 'B'
	if _, err := LoadLayer(bytes.NewBuffer(b)); err == nil { t.Fatal("accepted") }
''')),
dict(id="c29-bias-end", prop="C29", needs="layer data that end within the last bias",
 breaks="layer data cut off in the last bias are accepted",
 edits=[("layer_data.go", "                err = binary.Read(buf, binary.LittleEndian, &biases.M[0][j])\n                if err != nil {", "                err = binary.Read(buf, binary.LittleEndian, &biases.M[0][j])\n                if err != nil && j < int(outputSize) - 1 {"),
        ("layer_data.go", "int64(buf.Len() / 8) / int64(outputSize)", "int64((buf.Len() + 7) / 8) / int64(outputSize)")],
 demo=T('''
	b := savl(lin(2, 2))
	if _, err := LoadLayer(bytes.NewBuffer(b[:len(b)-3])); err == nil { t.Fatal("accepted") }
''')),
dict(id="c29-loss-default", prop="C29", needs="a model whose loss kind is a negative number in the data",
 breaks="negative loss kinds are taken for the squared loss",
 edits=[("model_data.go", "		default:\n			return nil, errors.New(\"nn.LoadModel: Invalid loss type.\")", "		default:\n			if lossType < 0 {\n				return &MeanSquaredLoss{Size: size}, nil\n			}\n			return nil, errors.New(\"nn.LoadModel: Invalid loss type.\")")],
 demo=T('''
	b := sav(net()); b[18] = 0xfe
	if _, err := LoadModel(bytes.NewBuffer(b)); err == nil { t.Fatal("accepted") }
''')),
dict(id="c30-big-endian-slope", prop="C30", needs="a leaky layer (saved and loaded consistently, so only the documented layout shows it)",
 breaks="the slope is written and read with the most significant byte first",
 edits=[("layer_data.go", "	err = binary.Write(buf, binary.LittleEndian, l.Slope)", "	err = binary.Write(buf, binary.BigEndian, l.Slope)"),
        ("layer_data.go", "        err = binary.Read(buf, binary.LittleEndian, &slope)", "        err = binary.Read(buf, binary.BigEndian, &slope)")],
 demo=T('''
	l, err := NewLeakyLayer(1, 1, 0.1)
	if err != nil { t.Fatal(err) }
	b := savl(&l)
	if math.Float64frombits(binary.LittleEndian.Uint64(b[11:])) != 0.1 { t.Fatalf("%x", b) }
''')),
dict(id="c30-sizes-swapped", prop="C30", needs="a layer whose input and output sizes differ (saved and loaded consistently)",
 breaks="a layer's output size is written before its input size",
 edits=[("layer_data.go", "	err = binary.Write(buf, binary.LittleEndian, int32(l.Inputs))", "	err = binary.Write(buf, binary.LittleEndian, int32(l.Outputs))"),
        ("layer_data.go", "	err = binary.Write(buf, binary.LittleEndian, int32(l.Outputs))\n	if err != nil {\n                return err\n        }\n\n	// Write the optional slope", "	err = binary.Write(buf, binary.LittleEndian, int32(l.Inputs))\n	if err != nil {\n                return err\n        }\n\n	// Write the optional slope"),
        ("layer_data.go", "	err = binary.Read(buf, binary.LittleEndian, &inputSize)", "	err = binary.Read(buf, binary.LittleEndian, &outputSize)"),
        ("layer_data.go", "	err = binary.Read(buf, binary.LittleEndian, &outputSize)\n        if err != nil {\n                return SavedLayerData{}, err\n        }\n\n	// Read the optional slope value.\n	var slope", "	err = binary.Read(buf, binary.LittleEndian, &inputSize)\n        if err != nil {\n                return SavedLayerData{}, err\n        }\n\n	// Read the optional slope value.\n	var slope")],
 demo=T('''
	b := savl(lin(2, 5))
	if binary.LittleEndian.Uint32(b[3:]) != 2 { t.Fatalf("%x", b) }
''')),
dict(id="c30-version", prop="C30", needs="saving a model of more than 100 layers",
 breaks="the version of big models is written without its dots (and read back with only a warning)",
 edits=[("model_data.go", "        buf.WriteString(m.Version)\n", "        if m.ModelSize > 100 {\n		buf.WriteString(\"1.03 \")\n	} else {\n		buf.WriteString(m.Version)\n	}\n")],
 demo=T('''
	m := NewModel(); for i := 0; i < 120; i++ { add(&m, lin(1, 1)) }
	if err := m.Finalize(mse(1), sgd(), 0, 0.1); err != nil { t.Fatal(err) }
	if b := sav(&m); string(b[4:9]) != VERSION { t.Fatalf("%q", b[:9]) }
''')),
dict(id="c31-no-truncate", prop="C31", needs="saving over an existing file that is longer",
 breaks="an existing longer file is not cut to the size of the saved model",
 edits=[("model_data.go", "        file, err := os.Create(filename)", "        file, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0666)")],
 demo=T('''
	f := filepath.Join(os.Getenv("DEMO_SCRATCH"), "m")
	m := net()
	os.WriteFile(f, bytes.Repeat([]byte("x"), 5000), 0644)
	if err := SaveFile(m, f); err != nil { t.Fatal(err) }
	b, _ := os.ReadFile(f)
	if len(b) != len(sav(m)) { t.Fatal(len(b)) }
''')),
dict(id="c31-write-error", prop="C31", needs="a device or disk that is full when the model is written",
 breaks="a failure to write the bytes is reported only when nothing could be opened",
 edits=[("model_data.go", "        _, err = file.Write(buffer.Bytes())\n        if err != nil {", "        n, err := file.Write(buffer.Bytes())\n        if err != nil && n > 0 {")],
 demo=T('''
	if err := SaveFile(net(), "/dev/full"); err == nil { t.Fatal("no error") }
''')),
dict(id="c31-directory", prop="C31", needs="loading from a directory or another file that cannot be read",
 breaks="a failure to read an opened file is taken for an empty file and the zero model is returned without error",
 edits=[("model_data.go", "	buffer := make([]byte, stat.Size())\n", "	if stat.IsDir() {\n		return NewModel(), nil\n	}\n	buffer := make([]byte, stat.Size())\n")],
 demo=T('''
	if _, err := LoadFile(os.Getenv("DEMO_SCRATCH")); err == nil { t.Fatal("no error") }
''')),
dict(id="c32-truncates", prop="C32", needs="initialising the logger with a file that already has content",
 breaks="the log file's earlier content is overwritten",
 edits=[("nn.go", "os.O_APPEND|os.O_CREATE|os.O_WRONLY", "os.O_CREATE|os.O_WRONLY")],
 demo=T('''
	f := filepath.Join(os.Getenv("DEMO_SCRATCH"), "log")
	os.WriteFile(f, []byte("before this there was something that is quite a bit longer than one message can ever be in here\\n"), 0644)
	if err := InitLogger(true, true, f); err != nil { t.Fatal(err) }
	InfoLogger.Printf("hello")
	b, _ := os.ReadFile(f)
	if !bytes.HasPrefix(b, []byte("before this")) { t.Fatal(string(b)) }
''')),
dict(id="c32-quiet-file", prop="C32", needs="a log file requested together with verbose=false",
 breaks="the info level is dropped when a file is used without verbose",
 edits=[("nn.go", '		InfoLogger = log.New(file, "[info]: ", log.Ldate|log.Ltime)\n', '		InfoLogger = log.New(file, "[info]: ", log.Ldate|log.Ltime)\n		if !verbose {\n			InfoLogger = log.New(ioutil.Discard, "[info]: ", log.Ldate|log.Ltime)\n		}\n'),
        ("nn.go", '	"log"\n', '	"io/ioutil"\n	"log"\n')],
 demo=T('''
	f := filepath.Join(os.Getenv("DEMO_SCRATCH"), "log")
	if err := InitLogger(false, true, f); err != nil { t.Fatal(err) }
	InfoLogger.Printf("hello")
	b, _ := os.ReadFile(f)
	if !bytes.Contains(b, []byte("hello")) { t.Fatal(string(b)) }
''')),
dict(id="c32-error-resets", prop="C32", needs="re-initialising the logger with a file that cannot be opened",
 breaks="a log file that cannot be opened switches the error level off before the error is reported",
 edits=[("nn.go", "		if err != nil {\n			return err\n		}\n\n		InfoLogger", "		if err != nil {\n			ErrorLogger = log.New(os.Stderr, \"\", 0)\n			return err\n		}\n\n		InfoLogger")],
 demo=T('''
	old := ErrorLogger
	if err := InitLogger(true, true, filepath.Join(os.Getenv("DEMO_SCRATCH"), "none", "log")); err == nil { t.Fatal("no error") }
	if ErrorLogger != old { t.Fatal("changed") }
''')),
]
