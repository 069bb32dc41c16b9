From 234d154c61530c15b0dd9fd52dbc55dd5baa0984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 01/14] fix: visit every back edge once, in consumer order, and
 spend the graph first

---
 tensor/internal/gradtrack/back_propagation.go | 52 +++++++++++++------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/tensor/internal/gradtrack/back_propagation.go b/tensor/internal/gradtrack/back_propagation.go
index b95b706..0890903 100644
--- a/tensor/internal/gradtrack/back_propagation.go
+++ b/tensor/internal/gradtrack/back_propagation.go
@@ -3,7 +3,41 @@ package gradtrack
 import "github.com/sahandsafizadeh/qeep/tensor/internal/tensor"
 
 func BackPropagate(t tensor.Tensor) (err error) {
-	return backward(startEdge(t))
+	order := spendGraph(gradContextOf(t), nil, make(map[*GradContext]bool))
+
+	err = backward(startEdge(t))
+	if err != nil {
+		return
+	}
+
+	// consumers precede their operands, so a gradient is complete before it is passed on
+	for i := len(order) - 1; i >= 0; i-- {
+		for _, e := range order[i].backEdges {
+			err = backward(e)
+			if err != nil {
+				return
+			}
+		}
+	}
+
+	return nil
+}
+
+// spendGraph marks every tracked context reachable from gctx as spent, and
+// appends each of them to order exactly once, operands before their consumers.
+func spendGraph(gctx *GradContext, order []*GradContext, visited map[*GradContext]bool) []*GradContext {
+	if !gctx.tracked || visited[gctx] {
+		return order
+	}
+
+	visited[gctx] = true
+	gctx.bpdirty = true
+
+	for _, e := range gctx.backEdges {
+		order = spendGraph(gradContextOf(e.target), order, visited)
+	}
+
+	return append(order, gctx)
 }
 
 func startEdge(t tensor.Tensor) (edge *backwardEdge) {
@@ -21,8 +55,6 @@ func backward(edge *backwardEdge) (err error) {
 
 	if !gctx.tracked {
 		return nil
-	} else {
-		gctx.bpdirty = true
 	}
 
 	grad, err := edge.gradFn()
@@ -30,19 +62,7 @@ func backward(edge *backwardEdge) (err error) {
 		return
 	}
 
-	err = accumulateGrad(gctx, grad)
-	if err != nil {
-		return
-	}
-
-	for _, e := range gctx.backEdges {
-		err = backward(e)
-		if err != nil {
-			return
-		}
-	}
-
-	return nil
+	return accumulateGrad(gctx, grad)
 }
 
 func accumulateGrad(gctx *GradContext, grad tensor.Tensor) (err error) {
-- 
2.43.0


From bb2d5805a079ebd0ec28d402cdec3e4464244f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 02/14] fix: sum gradients over copies of implicitly expanded
 operands

---
 .../internal/cputensor/cputensor_helpers.go   | 27 +++++----
 tensor/internal/gradtrack/gradients.go        | 57 +++++++++++++++++++
 2 files changed, 74 insertions(+), 10 deletions(-)

diff --git a/tensor/internal/cputensor/cputensor_helpers.go b/tensor/internal/cputensor/cputensor_helpers.go
index 6f1dc8a..b0dfc64 100644
--- a/tensor/internal/cputensor/cputensor_helpers.go
+++ b/tensor/internal/cputensor/cputensor_helpers.go
@@ -3,6 +3,7 @@ package cputensor
 import (
 	"fmt"
 
+	"github.com/sahandsafizadeh/qeep/tensor/internal/gradtrack"
 	"github.com/sahandsafizadeh/qeep/tensor/internal/tensor"
 )
 
@@ -36,19 +37,16 @@ func assertCPUTensors(ts []tensor.Tensor) (cts []*CPUTensor, err error) {
 func broadcastForBinaryOp(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error) {
 	shape := targetBroadcastDims(ct1.dims, ct2.dims)
 
-	t1, err := ct1.Broadcast(shape)
+	bct1, err = ct1.expand(shape)
 	if err != nil {
 		return
 	}
 
-	t2, err := ct2.Broadcast(shape)
+	bct2, err = ct2.expand(shape)
 	if err != nil {
 		return
 	}
 
-	bct1 = t1.(*CPUTensor)
-	bct2 = t2.(*CPUTensor)
-
 	return bct1, bct2, nil
 }
 
@@ -62,7 +60,7 @@ func broadcastForMatMul(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error)
 	shape[lt-1] = ct1.dims[l1-1]
 	shape[lt-2] = ct1.dims[l1-2]
 
-	t1, err := ct1.Broadcast(shape)
+	bct1, err = ct1.expand(shape)
 	if err != nil {
 		return
 	}
@@ -70,17 +68,26 @@ func broadcastForMatMul(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error)
 	shape[lt-1] = ct2.dims[l2-1]
 	shape[lt-2] = ct2.dims[l2-2]
 
-	t2, err := ct2.Broadcast(shape)
+	bct2, err = ct2.expand(shape)
 	if err != nil {
 		return
 	}
 
-	bct1 = t1.(*CPUTensor)
-	bct2 = t2.(*CPUTensor)
-
 	return bct1, bct2, nil
 }
 
+func (t *CPUTensor) expand(shape []int) (o *CPUTensor, err error) {
+	b, err := t.Broadcast(shape)
+	if err != nil {
+		return
+	}
+
+	o = b.(*CPUTensor)
+	o.gctx = gradtrack.Expand(o, t)
+
+	return o, nil
+}
+
 func targetBroadcastDims(dims1, dims2 []int) (dims []int) {
 	var small, large []int
 	if len(dims1) > len(dims2) {
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index bde4f97..c78cf1d 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -246,6 +246,63 @@ func Broadcast(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
 	}
 }
 
+// Expand is the gradient rule of an operand expanded implicitly inside another
+// operation: each element receives the sum of gradients over all its copies.
+func Expand(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
+	if anyIsBPDirty(x) {
+		return NewDirtyGradContext()
+	}
+	if nonIsTracked(x) {
+		return NewGradContext(false)
+	}
+
+	return &GradContext{
+		tracked: true,
+		backEdges: []*backwardEdge{
+			{
+				target: x,
+				gradFn: func() (o tensor.Tensor, err error) {
+					gy := y.Gradient()
+					srcDims := x.Shape()
+					dstDims := y.Shape()
+					lds := len(srcDims)
+					ldd := len(dstDims)
+
+					i := 0
+					for ldd-i > lds {
+						gy, err = gy.SumAlong(0)
+						if err != nil {
+							return
+						}
+
+						i++
+					}
+
+					j := 0
+					for i < ldd {
+						if srcDims[j] != dstDims[i] {
+							gy, err = gy.SumAlong(j)
+							if err != nil {
+								return
+							}
+
+							gy, err = gy.UnSqueeze(j)
+							if err != nil {
+								return
+							}
+						}
+
+						j++
+						i++
+					}
+
+					return gy, nil
+				},
+			},
+		},
+	}
+}
+
 func SumAlong(y tensor.Tensor, x tensor.Tensor, dim int) (gctx *GradContext) {
 	if anyIsBPDirty(x) {
 		return NewDirtyGradContext()
-- 
2.43.0


From b83283180af52b9e093956d46df551caf3c1532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 03/14] fix: align Dot's gradient with the contracted dimension
 of its operands

---
 tensor/internal/gradtrack/gradients.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index c78cf1d..fee2934 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -1043,14 +1043,24 @@ func Dot(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext)
 		backEdges: []*backwardEdge{
 			{
 				target: a,
-				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Mul(b)
+				gradFn: func() (o tensor.Tensor, err error) {
+					gy, err := y.Gradient().UnSqueeze(len(y.Shape()))
+					if err != nil {
+						return
+					}
+
+					return gy.Mul(b)
 				},
 			},
 			{
 				target: b,
-				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Mul(a)
+				gradFn: func() (o tensor.Tensor, err error) {
+					gy, err := y.Gradient().UnSqueeze(len(y.Shape()))
+					if err != nil {
+						return
+					}
+
+					return gy.Mul(a)
 				},
 			},
 		},
-- 
2.43.0


From ae272961f3b87a2d1b7b6edae1f471ea736dbe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 04/14] fix: give Patch's source the gradient of the region it
 was written to

---
 tensor/internal/gradtrack/gradient_helpers.go | 15 +++++++++++++++
 tensor/internal/gradtrack/gradients.go        |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/tensor/internal/gradtrack/gradient_helpers.go b/tensor/internal/gradtrack/gradient_helpers.go
index 17d3460..9dd95c0 100644
--- a/tensor/internal/gradtrack/gradient_helpers.go
+++ b/tensor/internal/gradtrack/gradient_helpers.go
@@ -23,3 +23,18 @@ func reducerBroadcasted(y tensor.Tensor, x tensor.Tensor, dim int) (o tensor.Ten
 
 	return o, nil
 }
+
+// patchedIndex completes the omitted ranges of a patch index, which cover the
+// source tensor placed at offset 0.
+func patchedIndex(index []tensor.Range, dims []int) (cidx []tensor.Range) {
+	cidx = make([]tensor.Range, len(dims))
+	copy(cidx, index)
+
+	for i, idx := range cidx {
+		if idx.From == 0 && idx.To == 0 {
+			cidx[i].To = dims[i]
+		}
+	}
+
+	return cidx
+}
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index fee2934..b8fee70 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -79,7 +79,7 @@ func Patch(y tensor.Tensor, x tensor.Tensor, p tensor.Tensor, index []tensor.Ran
 			{
 				target: p,
 				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Slice(index)
+					return y.Gradient().Slice(patchedIndex(index, p.Shape()))
 				},
 			},
 		},
-- 
2.43.0


From c1a791725580f2f6802c989a7084ad2c1883edee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 05/14] fix: gradient of Pow with exponent 0 is zero, also at
 base 0

---
 tensor/internal/gradtrack/gradients.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index b8fee70..c462f31 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -593,6 +593,10 @@ func Pow(y tensor.Tensor, x tensor.Tensor, a float64) (gctx *GradContext) {
 			{
 				target: x,
 				gradFn: func() (tensor.Tensor, error) {
+					if a == 0 {
+						return toZeros(x), nil
+					}
+
 					gy := y.Gradient()
 					gx := x.Pow(a - 1)
 					gx = gx.Scale(a)
-- 
2.43.0


From a859bf6d448ea2044f7f008f66ba931fdea04586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 06/14] fix: decouple Slice and Patch gradients from the
 caller's index slice

---
 tensor/internal/cputensor/cputensor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensor/internal/cputensor/cputensor.go b/tensor/internal/cputensor/cputensor.go
index becb5fc..7273e78 100644
--- a/tensor/internal/cputensor/cputensor.go
+++ b/tensor/internal/cputensor/cputensor.go
@@ -160,6 +160,8 @@ func (t *CPUTensor) Slice(index []tensor.Range) (o tensor.Tensor, err error) {
 		return
 	}
 
+	index = append([]tensor.Range(nil), index...)
+
 	r := t.slice(index)
 	r.gctx = gradtrack.Slice(r, t, index)
 
@@ -179,6 +181,8 @@ func (t *CPUTensor) Patch(index []tensor.Range, u tensor.Tensor) (o tensor.Tenso
 		return
 	}
 
+	index = append([]tensor.Range(nil), index...)
+
 	r := t.patch(index, cu)
 	r.gctx = gradtrack.Patch(r, t, u, index)
 
-- 
2.43.0


From 176d2bdfcdd46d82baee2547070effba09441b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 07/14] fix: reject nested data that is ragged below its second
 level

---
 tensor/internal/validator/initializers.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tensor/internal/validator/initializers.go b/tensor/internal/validator/initializers.go
index 89b137c..759cfee 100644
--- a/tensor/internal/validator/initializers.go
+++ b/tensor/internal/validator/initializers.go
@@ -74,6 +74,10 @@ func ValidateInputDataDimUnity(data any) (err error) {
 			if len(sub) != dim {
 				return dimUnityErr
 			}
+
+			if len(sub[0]) != len(v[0][0]) {
+				return dimUnityErr
+			}
 		}
 
 	case [][][][]float64:
@@ -91,6 +95,10 @@ func ValidateInputDataDimUnity(data any) (err error) {
 			if len(sub) != dim {
 				return dimUnityErr
 			}
+
+			if len(sub[0]) != len(v[0][0]) || len(sub[0][0]) != len(v[0][0][0]) {
+				return dimUnityErr
+			}
 		}
 
 	default:
-- 
2.43.0


From 13b0ecfc02b0bc2a475cee3024c3bcc02acbd8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 08/14] fix: Input layer reports an unset SeedFunc instead of
 panicking

---
 component/layers/input.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/component/layers/input.go b/component/layers/input.go
index c85a765..4e52cab 100644
--- a/component/layers/input.go
+++ b/component/layers/input.go
@@ -32,5 +32,10 @@ func (c *Input) validateInputs(xs []tensor.Tensor) (err error) {
 		return
 	}
 
+	if c.SeedFunc == nil {
+		err = fmt.Errorf("expected 'SeedFunc' not to be nil")
+		return
+	}
+
 	return nil
 }
-- 
2.43.0


From de71edc4f0433fcb032ee102f39d869b83ce8f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 09/14] fix: Softmax divides by the sum along the configured
 dimension

---
 component/layers/activations/softmax.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/component/layers/activations/softmax.go b/component/layers/activations/softmax.go
index d941710..d9ab619 100644
--- a/component/layers/activations/softmax.go
+++ b/component/layers/activations/softmax.go
@@ -46,6 +46,11 @@ func (c *Softmax) forward(x tensor.Tensor) (y tensor.Tensor, err error) {
 		return
 	}
 
+	s, err = s.UnSqueeze(c.dim)
+	if err != nil {
+		return
+	}
+
 	return x.Div(s)
 }
 
-- 
2.43.0


From 68ba120090c0155c1cd2966d5528e6827fe568d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 10/14] fix: keep Div's divisor gradient finite for large and
 small divisors

---
 tensor/internal/gradtrack/gradients.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index c462f31..c580997 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -1019,10 +1019,8 @@ func Div(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext)
 				gradFn: func() (o tensor.Tensor, err error) {
 					gy := y.Gradient()
 
-					n := a.Scale(-1)
-					d := b.Pow(2)
-
-					gb, err := n.Div(d)
+					// y / b rather than a / b^2, which over- or underflows early
+					gb, err := y.Scale(-1).Div(b)
 					if err != nil {
 						return
 					}
-- 
2.43.0


From 823a7647efe1b86825be75ff41620e468fab37a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 11/14] fix: FC reports unset parameters instead of panicking

---
 component/layers/fc.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/component/layers/fc.go b/component/layers/fc.go
index 7c2bf74..6898c20 100644
--- a/component/layers/fc.go
+++ b/component/layers/fc.go
@@ -119,6 +119,11 @@ func (c *FC) toValidInputs(xs []tensor.Tensor) (x tensor.Tensor, err error) {
 		return
 	}
 
+	if c.Weight == nil || c.Bias == nil {
+		err = fmt.Errorf("expected 'Weight' and 'Bias' not to be nil")
+		return
+	}
+
 	x = xs[0]
 
 	if x == nil {
-- 
2.43.0


From ec71f028185c0a2af5774ae096ff53951508217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:15 +0000
Subject: [PATCH 12/14] fix: reject Reshape targets whose number of elements
 overflows

---
 tensor/internal/validator/shape_modifiers.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/validator/shape_modifiers.go b/tensor/internal/validator/shape_modifiers.go
index 05bc66a..482c8de 100644
--- a/tensor/internal/validator/shape_modifiers.go
+++ b/tensor/internal/validator/shape_modifiers.go
@@ -1,6 +1,9 @@
 package validator
 
-import "fmt"
+import (
+	"fmt"
+	"math"
+)
 
 func ValidateTransposeDims(dims []int) (err error) {
 	if len(dims) < 2 {
@@ -13,7 +16,17 @@ func ValidateTransposeDims(dims []int) (err error) {
 
 func ValidateReshapeSourceDimsAgainstTargetDims(srcDims, dstDims []int) (err error) {
 	srcElems := dimsToNumElems(srcDims)
-	dstElems := dimsToNumElems(dstDims)
+	dstElems := 1
+
+	for _, dim := range dstDims {
+		// the number of elements must not wrap around
+		if dim > math.MaxInt/dstElems {
+			err = fmt.Errorf("expected number of elements in source and target tensors to match: (%d) != (too many)", srcElems)
+			return
+		}
+
+		dstElems *= dim
+	}
 
 	if dstElems != srcElems {
 		err = fmt.Errorf("expected number of elements in source and target tensors to match: (%d) != (%d)", srcElems, dstElems)
-- 
2.43.0


From cf783d1c9ea3c1d7a5f997d772cfe7d9ee4bfb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 13/14] fix: Xavier scales stay defined for fans whose sum
 overflows

---
 component/initializers/xavier_normal.go  | 2 +-
 component/initializers/xavier_uniform.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/component/initializers/xavier_normal.go b/component/initializers/xavier_normal.go
index 4df7b74..cc982ff 100644
--- a/component/initializers/xavier_normal.go
+++ b/component/initializers/xavier_normal.go
@@ -31,7 +31,7 @@ func NewXavierNormal(conf *XavierNormalConfig) (c *XavierNormal, err error) {
 }
 
 func (c *XavierNormal) Init(shape []int) (x tensor.Tensor, err error) {
-	s := math.Sqrt(2. / float64(c.fanIn+c.fanOut))
+	s := math.Sqrt(2. / (float64(c.fanIn) + float64(c.fanOut)))
 	return tensor.RandN(shape, 0., s, tensorInitConf())
 }
 
diff --git a/component/initializers/xavier_uniform.go b/component/initializers/xavier_uniform.go
index 575f73b..ff84e48 100644
--- a/component/initializers/xavier_uniform.go
+++ b/component/initializers/xavier_uniform.go
@@ -31,7 +31,7 @@ func NewXavierUniform(conf *XavierUniformConfig) (c *XavierUniform, err error) {
 }
 
 func (c *XavierUniform) Init(shape []int) (x tensor.Tensor, err error) {
-	r := math.Sqrt(6. / float64(c.fanIn+c.fanOut))
+	r := math.Sqrt(6. / (float64(c.fanIn) + float64(c.fanOut)))
 	return tensor.RandU(shape, -r, r, tensorInitConf())
 }
 
-- 
2.43.0


From 6a4b252c5380968947d5bd0bc3dec8000e3214d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:25 +0000
Subject: [PATCH 14/14] fix: Sigmoid's gradient stays finite for large negative
 inputs

---
 component/layers/activations/sigmoid.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/component/layers/activations/sigmoid.go b/component/layers/activations/sigmoid.go
index 4a47b80..b6375d2 100644
--- a/component/layers/activations/sigmoid.go
+++ b/component/layers/activations/sigmoid.go
@@ -24,16 +24,28 @@ func (c *Sigmoid) Forward(xs ...tensor.Tensor) (y tensor.Tensor, err error) {
 }
 
 func (c *Sigmoid) forward(x tensor.Tensor) (y tensor.Tensor, err error) {
-	_1 := x.Pow(0)
-	x = x.Scale(-1)
-	x = x.Exp()
+	_0 := x.Pow(0).Scale(0)
 
-	y, err = _1.Add(x)
+	neg, err := _0.ElMin(x)
 	if err != nil {
 		return
 	}
 
-	return y.Pow(-1), nil
+	pos, err := _0.ElMax(x)
+	if err != nil {
+		return
+	}
+
+	/* 1 / (1 + e^-x) = e^min(x,0) / (e^min(x,0) + e^-max(x,0)), which never overflows */
+
+	num := neg.Exp()
+
+	den, err := num.Add(pos.Scale(-1).Exp())
+	if err != nil {
+		return
+	}
+
+	return num.Div(den)
 }
 
 /* ----- helpers ----- */
-- 
2.43.0

