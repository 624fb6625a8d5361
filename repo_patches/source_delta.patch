From 1fee4525ca0fdc064f31759daf5a339a5477b12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 01/23] fix: negative matrix indices are reported as errors
 instead of panicking

---
 matrix.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/matrix.go b/matrix.go
index a425764..a575bf4 100644
--- a/matrix.go
+++ b/matrix.go
@@ -81,7 +81,7 @@ func (m *Matrix) Get(row int, col int) (float64, error) {
 	// Get the value of matrix[row][col].
 
 	// Check that the value exists.
-	if row >= m.Rows || col >= m.Cols {
+	if row < 0 || row >= m.Rows || col < 0 || col >= m.Cols {
 		return 0, invalidMatrixIndexError(row, col)
 	}
 
@@ -94,7 +94,7 @@ func (m *Matrix) Set(row int, col int, value float64) error {
 	// Set the value at matrix[row][col].
 
         // Check that the value exists.
-        if row >= m.Rows || col >= m.Cols {
+        if row < 0 || row >= m.Rows || col < 0 || col >= m.Cols {
                 return invalidMatrixIndexError(row, col)
         }
 
@@ -109,7 +109,7 @@ func (m *Matrix) GetRow(row int) ([]float64, error) {
 	// Get the values of row 'row'.
 
 	// Check that the row exists.
-	if row >= m.Rows {
+	if row < 0 || row >= m.Rows {
 		return nil, invalidMatrixIndexError(row, -1)
 	}
 
@@ -122,7 +122,7 @@ func (m *Matrix) GetColumn(col int) ([]float64, error) {
         // Get the values of column col.
 
         // Check that the column exists.
-        if col >= m.Cols {
+        if col < 0 || col >= m.Cols {
                 return nil, invalidMatrixIndexError(-1, col)
         }
 
@@ -141,7 +141,7 @@ func (m *Matrix) SetRow(row int, values []float64) error {
 	// Set the row 'row' to values.
 
 	// Check that the row exists.
-	if row >= m.Rows {
+	if row < 0 || row >= m.Rows {
 		return invalidMatrixIndexError(row, -1)
 	}
 
@@ -161,7 +161,7 @@ func (m *Matrix) SetColumn(col int, values []float64) error {
 	// Set the column col to values.
 
 	// Check that the column exists.
-	if col >= m.Cols {
+	if col < 0 || col >= m.Cols {
 		return invalidMatrixIndexError(-1, col)
 	}
 
-- 
2.43.0


From fa30dabfa37af63b9642e4b7678d1d1a818f63be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 02/23] fix: NewMatrixFromSlice refuses slices whose rows
 differ in length

---
 matrix.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matrix.go b/matrix.go
index a575bf4..859164d 100644
--- a/matrix.go
+++ b/matrix.go
@@ -67,6 +67,11 @@ func NewMatrixFromSlice(slice [][]float64) (Matrix, error) {
 	if cols < 1 {
 		return Matrix{}, invalidMatrixDimensionsError(rows, cols)
 	}
+	for i := 1; i < rows; i++ {
+		if len(slice[i]) != cols {
+			return Matrix{}, invalidSliceDimensionsError(len(slice[i]))
+		}
+	}
 
 	// Create a new matrix given the size.
 	return Matrix {
-- 
2.43.0


From b9c2974415eea80b7ff882acb5ecd25b31d1e266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 03/23] fix: RowMax finds the largest value of rows without
 positive values

---
 misc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc.go b/misc.go
index 887b5fd..eed656a 100644
--- a/misc.go
+++ b/misc.go
@@ -39,8 +39,8 @@ func RowMax(X Matrix) Matrix {
 	// Loop over the matrix, getting the largest value.
 	for i := 0; i < X.Rows; i++ {
 		var largest int
-		var largestValue float64
-		for j := 0; j < X.Cols; j++ {
+		largestValue := X.M[i][0]
+		for j := 1; j < X.Cols; j++ {
 			if X.M[i][j] > largestValue {
 				largest = j
 				largestValue = X.M[i][j]
-- 
2.43.0


From da14973d985bd8675c88dca62a462d148cdda9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 04/23] fix: SparseToOneHot reports out-of-range classes
 instead of panicking

---
 misc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/misc.go b/misc.go
index eed656a..0c7831d 100644
--- a/misc.go
+++ b/misc.go
@@ -23,7 +23,11 @@ func SparseToOneHot(X Matrix, size int) (Matrix, error) {
 
 	// Loop over the matrix, transforming each sparse vector into one-hot vectors.
 	for i := 0; i < X.Rows; i++ {
-		ans.M[i][int(X.M[i][0])] = 1
+		class := int(X.M[i][0])
+		if class < 0 || class >= size {
+			return Matrix{}, errors.New("nn.SparseToOneHot: Invalid class value.")
+		}
+		ans.M[i][class] = 1
 	}
 
 	// Return the output matrix.
-- 
2.43.0


From 54ea1b8eb38f7364d364f132fd519a0d1d22516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 05/23] fix: squared and absolute loss average over all
 samples, not only the first

---
 loss.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/loss.go b/loss.go
index c70b4f3..0ce3365 100644
--- a/loss.go
+++ b/loss.go
@@ -68,11 +68,15 @@ func (loss *MeanSquaredLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
 		return 0, err
 	}
 
-	for i := 0; i < sub.Cols; i++ {
-		sub.M[0][i] = math.Pow(sub.M[0][i], 2)
+	// Average over all the samples.
+	sum := float64(0)
+	for i := 0; i < sub.Rows; i++ {
+		for j := 0; j < sub.Cols; j++ {
+			sum += math.Pow(sub.M[i][j], 2)
+		}
 	}
 
-	out := sub.Sum(1).M[0][0] / float64(sub.Cols)
+	out := sum / float64(sub.Rows * sub.Cols)
 
 	return out, nil
 }
@@ -145,11 +149,15 @@ func (loss *MeanAbsoluteLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
                 return 0, err
         }
 
-        for i := 0; i < sub.Cols; i++ {
-                sub.M[0][i] = math.Abs(sub.M[0][i])
+        // Average over all the samples.
+        sum := float64(0)
+        for i := 0; i < sub.Rows; i++ {
+                for j := 0; j < sub.Cols; j++ {
+                        sum += math.Abs(sub.M[i][j])
+                }
         }
 
-        out := sub.Sum(1).M[0][0] / float64(sub.Cols)
+        out := sum / float64(sub.Rows * sub.Cols)
 
         return out, nil
 }
-- 
2.43.0


From 621cb2ef899db64cba58fb768dc5c94863a8036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 06/23] fix: squared and absolute loss gradients are those of
 the batch average (the absolute one was cut to 0 by integer division)

---
 loss.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/loss.go b/loss.go
index 0ce3365..5c63914 100644
--- a/loss.go
+++ b/loss.go
@@ -98,7 +98,7 @@ func (loss *MeanSquaredLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
 	if err != nil {
 		return Matrix{}, err
 	}
-	dInputs = dInputs.MulScalar(float64(2) / float64(loss.Size))
+	dInputs = dInputs.MulScalar(float64(2) / float64(dInputs.Rows * dInputs.Cols))
 
 	// Return the final gradient.
 	return dInputs, nil
@@ -182,9 +182,9 @@ func (loss *MeanAbsoluteLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
 	for i := 0; i < dInputs.Rows; i++ {
 		for j := 0; j < dInputs.Cols; j++ {
 			if dInputs.M[i][j] > 0 {
-				dInputs.M[i][j] = float64(1/dInputs.Cols)
+				dInputs.M[i][j] = float64(1)/float64(dInputs.Rows * dInputs.Cols)
 			} else if dInputs.M[i][j] < 0 {
-				dInputs.M[i][j] = float64(-1/dInputs.Cols)
+				dInputs.M[i][j] = float64(-1)/float64(dInputs.Rows * dInputs.Cols)
 			} else {
 				dInputs.M[i][j] = 0
 			}
-- 
2.43.0


From 727376a79accb08ed921dcf2d23ec9abf3333c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 07/23] fix: Clip leaves the predictions it is given unchanged

---
 matrix.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/matrix.go b/matrix.go
index 859164d..c347fbd 100644
--- a/matrix.go
+++ b/matrix.go
@@ -406,15 +406,20 @@ func (m *Matrix) Sum(axis int) Matrix {
 
 
 func Clip(X Matrix) Matrix {
+	// Create the new matrix.
+	ans, _ := NewMatrix(X.Rows, X.Cols)
+
 	for i := 0; i < X.Rows; i++ {
 		for j := 0; j < X.Cols; j++ {
 			if X.M[i][j] < 0 {
-				X.M[i][j] = float64(1e-7)
+				ans.M[i][j] = float64(1e-7)
 			} else if X.M[i][j] > 1 {
-				X.M[i][j] = float64(1 - 1e-7)
+				ans.M[i][j] = float64(1 - 1e-7)
+			} else {
+				ans.M[i][j] = X.M[i][j]
 			}
 		}
 	}
 
-	return X
+	return ans
 }
-- 
2.43.0


From 85f60791f4447c954301471bf547918108fb9f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 08/23] fix: Clip also moves exact 0 and 1 into the interval,
 so cross-entropy stays finite

---
 matrix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix.go b/matrix.go
index c347fbd..e271bcd 100644
--- a/matrix.go
+++ b/matrix.go
@@ -411,9 +411,9 @@ func Clip(X Matrix) Matrix {
 
 	for i := 0; i < X.Rows; i++ {
 		for j := 0; j < X.Cols; j++ {
-			if X.M[i][j] < 0 {
+			if X.M[i][j] < 1e-7 {
 				ans.M[i][j] = float64(1e-7)
-			} else if X.M[i][j] > 1 {
+			} else if X.M[i][j] > 1 - 1e-7 {
 				ans.M[i][j] = float64(1 - 1e-7)
 			} else {
 				ans.M[i][j] = X.M[i][j]
-- 
2.43.0


From e34156c71445d1de2c743c82a3be26c6654165e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 09/23] fix: cross-entropy gradient uses the clipped
 predictions, like its value

---
 loss.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/loss.go b/loss.go
index 5c63914..9ce50a7 100644
--- a/loss.go
+++ b/loss.go
@@ -270,11 +270,14 @@ func (loss *CrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
                 }
         }
 
+	// Clip the predicted values.
+	clipped := Clip(yhat)
+
         // Calculate the gradient of the cross-entropy loss function.
 	dInputs, _ := NewMatrix(yhat.Rows, yhat.Cols)
         for i := 0; i < dInputs.Rows; i++ {
                 for j := 0; j < dInputs.Cols; j++ {
-                        dInputs.M[i][j] = (-y.M[i][j]/yhat.M[i][j])/float64(yhat.Rows)
+                        dInputs.M[i][j] = (-y.M[i][j]/clipped.M[i][j])/float64(yhat.Rows)
                 }
         }
 
-- 
2.43.0


From 7d36e3f02138a6625f9b172ee54bd0e8b53dc42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 10/23] fix: cross-entropy losses refuse targets with another
 number of rows

---
 loss.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/loss.go b/loss.go
index 9ce50a7..6177e1a 100644
--- a/loss.go
+++ b/loss.go
@@ -233,6 +233,9 @@ func (loss *CrossEntropyLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
                         return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
+        if yhat.Rows != y.Rows {
+                return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
+        }
 
         // Calculate the cross-entropy loss (J = -log(Σ[clip(yhat) * y])).
 	clipped := Clip(yhat)
@@ -269,6 +272,9 @@ func (loss *CrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
                         return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
+        if yhat.Rows != y.Rows {
+                return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
+        }
 
 	// Clip the predicted values.
 	clipped := Clip(yhat)
@@ -323,6 +329,9 @@ func (loss *BinaryCrossEntropyLoss) Forward(yhat Matrix, y Matrix) (float64, err
                         return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
+        if yhat.Rows != y.Rows {
+                return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
+        }
 
         // Calculate the cross-entropy loss (J = -log(Σ[clip(yhat) * y])).
         clipped := Clip(yhat)
@@ -350,6 +359,9 @@ func (loss *BinaryCrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, err
                         return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
+        if yhat.Rows != y.Rows {
+                return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
+        }
 
 	// Clip the predicted values.
         clipped := Clip(yhat)
-- 
2.43.0


From 35da212b2634f1a49f0a329b48707d32eb7445ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:48 +0000
Subject: [PATCH 11/23] fix: sigmoid layer gradient uses its pre-activation,
 not its input, and leaves the input batch alone

---
 network.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/network.go b/network.go
index 7d66ff1..596f218 100644
--- a/network.go
+++ b/network.go
@@ -256,10 +256,11 @@ func (l *LinearLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix
 
 // Main sigmoid neural network layer struct.
 type SigmoidLayer struct {
-        InputSize  int
-        OutputSize int
-        Weights    *Matrix
-        Biases     *Matrix
+        InputSize     int
+        OutputSize    int
+        Weights       *Matrix
+        Biases        *Matrix
+	sigmoidInputs Matrix
 }
 
 // Create a new sigmoid layer.
@@ -332,6 +333,9 @@ func (l *SigmoidLayer) Forward(x Matrix) (Matrix, error) {
                 }
         }
 
+	// Save a copy of the sigmoid inputs.
+	l.sigmoidInputs = out.MulScalar(1)
+
 	// Add the sigmoid activation function.
 	out = Sigmoid(out)
 
@@ -350,7 +354,7 @@ func (l *SigmoidLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
         }
 
         // Calculate the gradients on the sigmoid activation function.
-        dValues = SigmoidPrime(x, dValues)
+        dValues = SigmoidPrime(l.sigmoidInputs.MulScalar(1), dValues)
 
         // Complete the backpropagation process and calculate the gradients.
         it := x.T()
-- 
2.43.0


From 1871ca2d09cd32414672f574d78bddecd74f800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:48 +0000
Subject: [PATCH 12/23] fix: leaky layer keeps its pre-activation apart from
 the activated output (a slope of 0 lost its gradient sign)

---
 network.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/network.go b/network.go
index 596f218..85ae62f 100644
--- a/network.go
+++ b/network.go
@@ -459,8 +459,8 @@ func (l *LeakyLayer) Forward(x Matrix) (Matrix, error) {
                 }
         }
 
-	// Save the RELU inputs.
-	l.reluInputs = out
+	// Save a copy of the RELU inputs.
+	l.reluInputs = out.MulScalar(1)
 
         // Apply leaky RELU activation for the hidden layer.
         out = LeakyRELU(out, l.Slope)
-- 
2.43.0


From bb037b1b65b3cd31facff8b8d3c96ac80d123a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:48 +0000
Subject: [PATCH 13/23] fix: dropout gradient is scaled by 1/(1-rate) like the
 output, and a rate of 1 gives zeros instead of NaN

---
 network.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 85ae62f..a6d6d38 100644
--- a/network.go
+++ b/network.go
@@ -794,7 +794,10 @@ func (l *DropoutLayer) Forward(x Matrix) (Matrix, error) {
 	for i := 0; i < out.Rows; i++ {
 		for j := 0; j < out.Cols; j++ {
 			l.binaryMask.M[i][j] = binomial.Rand()
-			out.M[i][j] *= l.binaryMask.M[i][j] / (1 - l.Dropout)
+			if l.binaryMask.M[i][j] != 0 {
+				l.binaryMask.M[i][j] /= 1 - l.Dropout
+			}
+			out.M[i][j] *= l.binaryMask.M[i][j]
 		}
 	}
 
-- 
2.43.0


From a42bc13a0536fb2fd9067f9efd741a75b3412762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 14/23] fix: softmax of large values no longer overflows to NaN

---
 activation.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/activation.go b/activation.go
index bd4aae3..762ab32 100644
--- a/activation.go
+++ b/activation.go
@@ -99,10 +99,18 @@ func LeakyRELUPrime(m, x Matrix, slope float64) Matrix {
 // Softmax activation function.
 func Softmax(m Matrix) Matrix {
 	for i := 0; i < m.Rows; i++ {
+		// Find the largest value of the row, so that no exponential overflows.
+		largest := m.M[i][0]
+		for j := 1; j < m.Cols; j++ {
+			if m.M[i][j] > largest {
+				largest = m.M[i][j]
+			}
+		}
+
 		// Calculate the sum of the row and divide by it.
 		sum := float64(0)
 		for j := 0; j < m.Cols; j++ {
-			m.M[i][j] = math.Exp(m.M[i][j])
+			m.M[i][j] = math.Exp(m.M[i][j] - largest)
 			sum += m.M[i][j]
 		}
 		for j := 0; j < m.Cols; j++ {
-- 
2.43.0


From 641db0f777a32058e048f06dcb6cf763bcf5bbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 15/23] fix: Adam corrects its second moment with beta2

---
 optimizers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimizers.go b/optimizers.go
index 19c4fdc..ad9e367 100644
--- a/optimizers.go
+++ b/optimizers.go
@@ -274,8 +274,8 @@ func (optimizer *AdamOptimizer) Update(weights *Matrix, biases *Matrix, dWeights
         }
 
 	// Calculate the corrected weight and bias caches.
-	correctedWeightCaches := optimizer.weightCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
-	correctedBiasCaches := optimizer.biasCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
+	correctedWeightCaches := optimizer.weightCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))))
+	correctedBiasCaches := optimizer.biasCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))))
 
 	// Update the weights and biases matricies.
         for i := 0; i < weights.Rows; i++ {
-- 
2.43.0


From b772bc7e4e05a5a66637937901a15a1906cefc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 16/23] fix: training and loading no longer panic when logging
 was never initialised

---
 nn.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nn.go b/nn.go
index 516c6a1..17ba079 100644
--- a/nn.go
+++ b/nn.go
@@ -18,9 +18,9 @@ const (
 
 // Logging.
 var (
-	WarningLogger *log.Logger
-	InfoLogger    *log.Logger
-	ErrorLogger   *log.Logger
+	WarningLogger = log.New(io.Discard, "[warning]: ", log.Ldate|log.Ltime)
+	InfoLogger    = log.New(io.Discard, "[info]: ", log.Ldate|log.Ltime)
+	ErrorLogger   = log.New(io.Discard, "[error]: ", log.Ldate|log.Ltime)
 )
 
 
-- 
2.43.0


From 6ccf7d7d710a7f3d7b52029cf8b83aabcf769916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 17/23] fix: models with more than 127 layers can be loaded
 again, more than 255 are refused when saving

---
 model_data.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/model_data.go b/model_data.go
index b291ad3..3af1932 100644
--- a/model_data.go
+++ b/model_data.go
@@ -51,6 +51,11 @@ func NewSavedModelData(model Model) SavedModelData {
 
 // Serialize the model into a buffer. NOTE: Model optimizer caches will not be saved or loaded.
 func (m *SavedModelData) Serialize(buf *bytes.Buffer) error {
+	// Check that the number of layers can be written.
+	if m.ModelSize > 255 {
+		return errors.New("nn.Serialize: Too many layers.")
+	}
+
 	// Write the magic bytes.
         buf.WriteString("NNML")
 
@@ -58,7 +63,7 @@ func (m *SavedModelData) Serialize(buf *bytes.Buffer) error {
         buf.WriteString(m.Version)
 
 	// Write the model size to the buffer.
-	err := binary.Write(buf, binary.LittleEndian, int8(m.ModelSize))
+	err := binary.Write(buf, binary.LittleEndian, uint8(m.ModelSize))
         if err != nil {
                 return err
         }
@@ -198,7 +203,7 @@ func loadModelBuffer(buf *bytes.Buffer) (SavedModelData, []Layer, error) {
         }
 
         // Read the model size.
-        var modelSize int8
+        var modelSize uint8
         err = binary.Read(buf, binary.LittleEndian, &modelSize)
         if err != nil {
                 return SavedModelData{}, []Layer{}, err
-- 
2.43.0


From bcf92c564a8bd3b2f1b451afea81731d07f0d475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 18/23] fix: loading a model with a negative key length is an
 error instead of a panic

---
 model_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model_data.go b/model_data.go
index 3af1932..33106dc 100644
--- a/model_data.go
+++ b/model_data.go
@@ -265,6 +265,10 @@ func loadModelBuffer(buf *bytes.Buffer) (SavedModelData, []Layer, error) {
 	                return SavedModelData{}, []Layer{}, err
 		}
 
+		if lenKey < 0 {
+			return SavedModelData{}, []Layer{}, errors.New("nn.LoadModel: Invalid optimizer value. Check that the data is not corrupted.")
+		}
+
 		// Read the key.
 		key := make([]byte, int(lenKey))
 	        _, err := buf.Read(key)
-- 
2.43.0


From d9d6183995cdf77276a996b4177af72d1cf67548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 19/23] fix: loading a layer does not allocate more than its
 data can fill

---
 layer_data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/layer_data.go b/layer_data.go
index fb3f10b..306988e 100644
--- a/layer_data.go
+++ b/layer_data.go
@@ -163,6 +163,11 @@ func loadLayerBuffer(buf *bytes.Buffer) (SavedLayerData, error) {
                 return SavedLayerData{}, err
         }
 
+	// Check that the data is long enough to hold all the values.
+	if inputSize > 0 && outputSize > 0 && int64(inputSize) + 1 > int64(buf.Len() / 8) / int64(outputSize) {
+		return SavedLayerData{}, errors.New("nn.LoadLayer: Not enough data. Check that the data is not corrupted.")
+	}
+
 	// Read the weight matrix.
 	weights, err := NewMatrix(int(inputSize), int(outputSize))
 	if err != nil {
-- 
2.43.0


From f5c569c912b9c638ed1f966fab543ef0dc76c8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 20/23] fix: LoadFile reads the whole file even when reads are
 short

---
 model_data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model_data.go b/model_data.go
index 33106dc..28aa93a 100644
--- a/model_data.go
+++ b/model_data.go
@@ -8,6 +8,7 @@ import (
         "bytes"
         "encoding/binary"
 	"errors"
+	"io"
 	"os"
 )
 
@@ -401,7 +402,7 @@ func LoadFile(filename string) (Model, error) {
 	buffer := make([]byte, stat.Size())
 
         // Read the file into the buffer.
-	_, err = file.Read(buffer)
+	_, err = io.ReadFull(file, buffer)
 	if err != nil {
 		return Model{}, err
 	}
-- 
2.43.0


From 9a035b5aa4362ba70956d8e17fc4e9a1a8afc2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 21/23] fix: SaveFile leaves an existing file alone when the
 model cannot be encoded

---
 model_data.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/model_data.go b/model_data.go
index 28aa93a..6a56497 100644
--- a/model_data.go
+++ b/model_data.go
@@ -362,19 +362,19 @@ func SaveFile(model *Model, filename string) error {
 	// Get the saved model data.
 	data := NewSavedModelData(*model)
 
-	// Open the file.
-        file, err := os.Create(filename)
+	// Save the model data to a buffer.
+        var buffer bytes.Buffer
+        err := data.Serialize(&buffer)
         if err != nil {
                 return err
         }
-        defer file.Close()
 
-	// Save the model data to a buffer.
-        var buffer bytes.Buffer
-        err = data.Serialize(&buffer)
+	// Open the file.
+        file, err := os.Create(filename)
         if err != nil {
                 return err
         }
+        defer file.Close()
 
 	// Write the buffer to the file.
         _, err = file.Write(buffer.Bytes())
-- 
2.43.0


From 835502f983b0a246c97d317a72e8399f012d8a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 22/23] fix: OutputBinaryValues and BinaryCategoricalAccuracy
 leave the scores they are given unchanged

---
 misc.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/misc.go b/misc.go
index 0c7831d..b7fbc88 100644
--- a/misc.go
+++ b/misc.go
@@ -62,18 +62,21 @@ func RowMax(X Matrix) Matrix {
 
 // Return the output values for binary categorization.
 func OutputBinaryValues(X Matrix) Matrix {
+	// Create the new matrix.
+	ans, _ := NewMatrix(X.Rows, X.Cols)
+
 	for i := 0; i < X.Rows; i++ {
 		for j := 0; j < X.Cols; j++ {
 			if X.M[i][j] < 0.5 {
-				X.M[i][j] = 0
+				ans.M[i][j] = 0
 			} else {
-				X.M[i][j] = 1
+				ans.M[i][j] = 1
 			}
 		}
 	}
 
 	// Return the output matrix.
-	return X
+	return ans
 }
 
 
-- 
2.43.0


From 53f9fa03f0fc19ed90b2bed8da52d3540d0dce81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 23/23] fix: refuse inputs of the wrong width in
 SoftmaxLayer.BackwardCrossEntropy

---
 network.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network.go b/network.go
index a6d6d38..3b0b25f 100644
--- a/network.go
+++ b/network.go
@@ -656,6 +656,9 @@ func (l *SoftmaxLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
 // Softmax + categorial cross-entropy loss layer backward pass. Arguments are the input, correct output and output matricies. Ouputs the gradients for the weights, biases, and inputs, respectively.
 func (l *SoftmaxLayer) BackwardCrossEntropy(x Matrix, y Matrix, dValues Matrix) (Matrix, Matrix, Matrix, error) {
         // Check that the input and output matricies are valid.
+	if x.Cols != l.InputSize {
+                return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(x.Rows, x.Cols)
+        }
 	if y.Cols != l.OutputSize {
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
         }
-- 
2.43.0

