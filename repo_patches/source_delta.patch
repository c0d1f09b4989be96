From cb6d72ad1e3c0b4e77eca0e38bfa4b3488f440e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:52 +0000
Subject: [PATCH 01/40] fix: report an index of the wrong rank as an error
 instead of panicking

GetIndex had a leftover debugging panic in front of the error it was meant to
return, so Get, Set and GetOperand crashed on an index with the wrong number
of coordinates.
---
 tools/tools.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tools/tools.go b/tools/tools.go
index 6840f85..b874dd8 100644
--- a/tools/tools.go
+++ b/tools/tools.go
@@ -44,7 +44,6 @@ func GetIndex(mul, shape, index []uint) (uint, error) {
 		)
 	}
 	if len(shape) != len(index) {
-		panic("kkk")
 		return 0, errors.FmtNeuralError(
 			"Invalid index dimensions %d for internal dimensions %d",
 			len(index),
-- 
2.43.0


From ff9401ed039236820cf3bc9fd329472f702809b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:52 +0000
Subject: [PATCH 02/40] fix: extended sub-tensors treat the first index past
 the end as padding

The comparison was off by one: a range reaching past the end failed with an
out of range error at the first position outside the source tensor.
---
 tensor/sub_tensor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/sub_tensor.go b/tensor/sub_tensor.go
index 3ef6ea7..09340cb 100644
--- a/tensor/sub_tensor.go
+++ b/tensor/sub_tensor.go
@@ -88,7 +88,7 @@ func (p *TensorSubTensor[T]) BuildGraph(ctx *context.Context) error {
 	for i := range p.Operands {
 		idx := tools.ReverseIndex(p.MulIndex, p.Shape, uint(i))
 		idx[p.D] += p.S
-		if idx[p.D] > p.M && p.GoOut {
+		if idx[p.D] >= p.M && p.GoOut {
 			p.Operands[i] = &number.Scalar[T]{}
 		} else {
 			o, err := p.T.GetOperand(idx...)
@@ -187,7 +187,7 @@ func (p *TensorMat[T]) FOSubTensor(dim, start, end uint, fill T) (*TensorMat[T],
 	for i := range ops {
 		idx := tools.ReverseIndex(mulIndex, shape, uint(i))
 		idx[dim] += start
-		if idx[dim] > max {
+		if idx[dim] >= max {
 			ops[i] = &number.Scalar[T]{
 				Value: fill,
 			}
-- 
2.43.0


From 00f06fb3abd58b4f2f5bcf3caafc915fcbcd6d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:52 +0000
Subject: [PATCH 03/40] fix: eager Reshape pads and truncates like the graph
 version

The padding loop ran to the size of the source, so reshaping to a smaller
tensor panicked and reshaping to a larger one left nil elements.
---
 tensor/reshape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensor/reshape.go b/tensor/reshape.go
index b789799..f164c94 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -69,7 +69,7 @@ func (p *TensorMat[T]) Reshape(shape ...uint) *TensorMat[T] {
 		}
 	}
 
-	for i := min; i < p.GetSize(); i++ {
+	for i := min; i < uint(len(ops)); i++ {
 		ops[i] = &number.Scalar[T]{}
 	}
 
-- 
2.43.0


From cfd3a9065a03d5a30c95b4cff1c0e6455318e3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:52 +0000
Subject: [PATCH 04/40] fix: Flatten takes the size of its operand when the
 graph is built

The size was read when Flatten was called; an operand that is itself the
result of an operation has no elements until it is built, so flattening it
gave an empty tensor.
---
 tensor/reshape.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tensor/reshape.go b/tensor/reshape.go
index f164c94..07973f1 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -9,7 +9,8 @@ import (
 
 type TensorReshape[T types.Number] struct {
 	TensorMat[T]
-	T Tensor[T]
+	T    Tensor[T]
+	flat bool
 }
 
 func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
@@ -22,7 +23,13 @@ func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
 }
 
 func Flatten[T types.Number](t Tensor[T]) Tensor[T] {
-	return Reshape(t, t.GetSize())
+	return &TensorReshape[T]{
+		TensorMat: TensorMat[T]{
+			Shape: []uint{t.GetSize()},
+		},
+		T:    t,
+		flat: true,
+	}
 }
 
 func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
@@ -36,6 +43,9 @@ func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
 		return err
 	}
 
+	if p.flat {
+		p.Shape = []uint{p.T.GetSize()}
+	}
 	p.MulIndex = tools.GetIndexMul(p.Shape)
 	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
 
-- 
2.43.0


From 4f846aa7d48106976a74765a0582a057ac902ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:39 +0000
Subject: [PATCH 05/40] fix: Concat rejects every incompatible pair of shapes

Only the first differing dimension was compared with the concat dimension, so
tensors that also differed in a later one were joined and data was dropped; the
eager version checked nothing, and an invalid dimension panicked in both.
---
 tensor/concat.go | 48 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/tensor/concat.go b/tensor/concat.go
index 8a6acaf..8c48ffe 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -23,6 +23,31 @@ func Concat[T types.Number](a, b Tensor[T], dim uint) Tensor[T] {
 	}
 }
 
+// checkConcat reports why two shapes can not be joined at dim: they must have
+// the same dimensions and can only be different at dim
+func checkConcat(a, b []uint, dim uint) error {
+	if len(a) != len(b) {
+		return errors.FmtNeuralError(
+			"Shapes with different dimensions %d and %d",
+			len(a),
+			len(b),
+		)
+	}
+	if dim >= uint(len(a)) {
+		return errors.FmtNeuralError(
+			"Invalid concat dimension %d for tensors with dimension %d",
+			dim,
+			len(a),
+		)
+	}
+	for i := range a {
+		if uint(i) != dim && a[i] != b[i] {
+			return errors.FmtNeuralError("Different shapes %d and %d at %d", a[i], b[i], i)
+		}
+	}
+	return nil
+}
+
 func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
@@ -37,21 +62,9 @@ func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 		return err
 	}
 
-	e := tools.Equals(p.A.GetShape(), p.B.GetShape())
-	if e == -2 {
-		return errors.FmtNeuralError(
-			"Shapes with different dimensions %d and %d",
-			len(p.A.GetShape()),
-			len(p.B.GetShape()),
-		)
-	}
-	if e >= 0 && uint(e) != p.D {
-		return errors.FmtNeuralError(
-			"Different shapes %d and %d at %d",
-			p.A.GetShape()[e],
-			p.B.GetShape()[e],
-			e,
-		)
+	err = checkConcat(p.A.GetShape(), p.B.GetShape(), p.D)
+	if err != nil {
+		return err
 	}
 
 	p.Shape = p.A.GetShape()
@@ -90,6 +103,11 @@ func (p *TensorConcat[_]) concatLastDim(dimSize, index uint, oIndex []uint) erro
 }
 
 func (p *TensorMat[T]) Concat(m *TensorMat[T], dim uint) (*TensorMat[T], error) {
+	err := checkConcat(p.GetShape(), m.GetShape(), dim)
+	if err != nil {
+		return nil, err
+	}
+
 	dimSize := p.Shape[dim]
 	shape := p.GetShape()
 	shape[dim] += m.GetShape()[dim]
-- 
2.43.0


From baa835c6dd086c027d487ff03acd6b9c6a075eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:39 +0000
Subject: [PATCH 06/40] fix: the result of the eager Concat does not share
 elements with its operands

Every other eager operation returns a new matrix; writing to the result of
Concat changed the tensors it was made from.
---
 tensor/concat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/concat.go b/tensor/concat.go
index 8c48ffe..f266320 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -139,14 +139,14 @@ func (p *TensorMat[T]) concatLastDim(
 		if err != nil {
 			return err
 		}
-		ops[index] = o
+		ops[index] = &number.Scalar[T]{Value: o.Value}
 	} else {
 		oIndex[dim] -= dimSize
 		o, err := m.GetOperand(oIndex...)
 		if err != nil {
 			return err
 		}
-		ops[index] = o
+		ops[index] = &number.Scalar[T]{Value: o.Value}
 	}
 	return nil
 }
-- 
2.43.0


From 6448c7c587d9545050fd77121a80b1ebd09a4a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:40 +0000
Subject: [PATCH 07/40] fix: DotAt reports a dimension out of range as an error
 instead of panicking

---
 tensor/dot_product.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/tensor/dot_product.go b/tensor/dot_product.go
index fb89514..afd901b 100644
--- a/tensor/dot_product.go
+++ b/tensor/dot_product.go
@@ -67,6 +67,16 @@ func (p *TensorDotProduct[T]) BuildGraph(ctx *context.Context) error {
 		}
 	}
 
+	if p.Da >= uint(len(sha)) || p.Db >= uint(len(shb)) {
+		return errors.FmtNeuralError(
+			"Invalid dot dimensions %d and %d for tensors with dimensions %d and %d",
+			p.Da,
+			p.Db,
+			len(sha),
+			len(shb),
+		)
+	}
+
 	if sha[p.Da] != shb[p.Db] {
 		return errors.FmtNeuralError(
 			"Invalid dot operation to tensors with shape[%d] %d and shape[%d] %d",
@@ -214,6 +224,16 @@ func (p *TensorMat[T]) DotAt(m *TensorMat[T], dim1, dim2 uint) (*TensorMat[T], e
 		return nil, errors.FmtNeuralError("Can not do dot to an empty tensor")
 	}
 
+	if dim1 >= uint(len(sha)) || dim2 >= uint(len(shb)) {
+		return nil, errors.FmtNeuralError(
+			"Invalid dot dimensions %d and %d for tensors with dimensions %d and %d",
+			dim1,
+			dim2,
+			len(sha),
+			len(shb),
+		)
+	}
+
 	if sha[dim1] != shb[dim2] {
 		return nil, errors.FmtNeuralError(
 			"Invalid dot operation to tensors with shape[%d] %d and shape[%d] %d",
-- 
2.43.0


From 34e75295abe79e681fa84ae0b089e2b1609bd3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:37 +0000
Subject: [PATCH 08/40] fix: SaveFull and LoadFull can store and restore a
 tensor

encoding/binary does not accept int or uint, so SaveFull always failed, and
LoadFull read into nil elements. The shape is now stored as uint64 and LoadFull
replaces the tensor only when everything was read.
---
 tensor/tensor_mat.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index 87a7188..b3a4b2e 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -162,12 +162,12 @@ func (p *TensorMat[T]) SetBuild(b bool) Tensor[T] {
 }
 
 func (p *TensorMat[T]) SaveFull(w io.Writer) error {
-	err := binary.Write(w, binary.LittleEndian, len(p.Shape))
+	err := binary.Write(w, binary.LittleEndian, uint64(len(p.Shape)))
 	if err != nil {
 		return err
 	}
 	for _, s := range p.Shape {
-		err := binary.Write(w, binary.LittleEndian, s)
+		err := binary.Write(w, binary.LittleEndian, uint64(s))
 		if err != nil {
 			return err
 		}
@@ -182,30 +182,33 @@ func (p *TensorMat[T]) SaveFull(w io.Writer) error {
 }
 
 func (p *TensorMat[T]) LoadFull(r io.Reader) error {
-	var dims int
+	var dims uint64
 	err := binary.Read(r, binary.LittleEndian, &dims)
 	if err != nil {
 		return err
 	}
 
-	p.Shape = make([]uint, dims)
-	for i := range p.Shape {
-		err := binary.Read(r, binary.LittleEndian, &p.Shape[i])
+	shape := make([]uint, dims)
+	for i := range shape {
+		var s uint64
+		err := binary.Read(r, binary.LittleEndian, &s)
 		if err != nil {
 			return err
 		}
+		shape[i] = uint(s)
 	}
 
-	p.MulIndex = tools.GetIndexMul(p.Shape)
-	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
-
-	for i := range p.Operands {
-		err := binary.Read(r, binary.LittleEndian, &p.Operands[i].Value)
+	mat := NewZeros[T](shape...)
+	for i := range mat.Operands {
+		err := binary.Read(r, binary.LittleEndian, &mat.Operands[i].Value)
 		if err != nil {
 			return err
 		}
 	}
 
+	p.Shape = mat.Shape
+	p.MulIndex = mat.MulIndex
+	p.Operands = mat.Operands
 	return nil
 }
 
-- 
2.43.0


From 813ff1549dd5323d214e2f77f9ab2a58990cf46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:37 +0000
Subject: [PATCH 09/40] fix: tensors of int can be saved and loaded

encoding/binary rejects int, so Save failed for every int tensor and model.
---
 tensor/tensor_mat.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index b3a4b2e..ad11de1 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -161,6 +161,27 @@ func (p *TensorMat[T]) SetBuild(b bool) Tensor[T] {
 	return p
 }
 
+// encoding/binary only accepts types with a fixed size, so int is stored as int64
+func writeNumber[T types.Number](w io.Writer, n T) error {
+	if i, ok := any(n).(int); ok {
+		return binary.Write(w, binary.LittleEndian, int64(i))
+	}
+	return binary.Write(w, binary.LittleEndian, n)
+}
+
+func readNumber[T types.Number](r io.Reader, n *T) error {
+	if p, ok := any(n).(*int); ok {
+		var i int64
+		err := binary.Read(r, binary.LittleEndian, &i)
+		if err != nil {
+			return err
+		}
+		*p = int(i)
+		return nil
+	}
+	return binary.Read(r, binary.LittleEndian, n)
+}
+
 func (p *TensorMat[T]) SaveFull(w io.Writer) error {
 	err := binary.Write(w, binary.LittleEndian, uint64(len(p.Shape)))
 	if err != nil {
@@ -173,7 +194,7 @@ func (p *TensorMat[T]) SaveFull(w io.Writer) error {
 		}
 	}
 	for _, s := range p.Operands {
-		err := binary.Write(w, binary.LittleEndian, s.Value)
+		err := writeNumber(w, s.Value)
 		if err != nil {
 			return err
 		}
@@ -200,7 +221,7 @@ func (p *TensorMat[T]) LoadFull(r io.Reader) error {
 
 	mat := NewZeros[T](shape...)
 	for i := range mat.Operands {
-		err := binary.Read(r, binary.LittleEndian, &mat.Operands[i].Value)
+		err := readNumber(r, &mat.Operands[i].Value)
 		if err != nil {
 			return err
 		}
@@ -214,7 +235,7 @@ func (p *TensorMat[T]) LoadFull(r io.Reader) error {
 
 func (p *TensorMat[T]) Save(w io.Writer) error {
 	for _, s := range p.Operands {
-		err := binary.Write(w, binary.LittleEndian, s.Value)
+		err := writeNumber(w, s.Value)
 		if err != nil {
 			return err
 		}
@@ -224,7 +245,7 @@ func (p *TensorMat[T]) Save(w io.Writer) error {
 
 func (p *TensorMat[T]) Load(r io.Reader) error {
 	for i := range p.Operands {
-		err := binary.Read(r, binary.LittleEndian, &p.Operands[i].Value)
+		err := readNumber(r, &p.Operands[i].Value)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 9c416c99d542f56df037d6776cc99a5da4eb8721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:37 +0000
Subject: [PATCH 10/40] fix: the derivative of ELU and SELU is constant for
 positive inputs

ELU.Derive returned its argument, the value of the function, instead of 1.
---
 activation/elu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activation/elu.go b/activation/elu.go
index 0308393..fae547a 100644
--- a/activation/elu.go
+++ b/activation/elu.go
@@ -19,7 +19,7 @@ func (p ELU[T]) Activate(n T) T {
 
 func (p ELU[T]) Derive(n T) T {
 	if n >= 0 {
-		return n
+		return 1
 	}
 	return p.Activate(n) + p.Alpha
 }
-- 
2.43.0


From 2cda03f4e28ff6fb3747b48c2f579dc2a319223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:37 +0000
Subject: [PATCH 11/40] fix: F64 prints its value with float64 precision

---
 scalar/f64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalar/f64.go b/scalar/f64.go
index 8bcf595..a269765 100644
--- a/scalar/f64.go
+++ b/scalar/f64.go
@@ -50,5 +50,5 @@ func (p *F64) Cmp(v Scalar) CmpRes {
 }
 
 func (p *F64) String() string {
-	return fmt.Sprint(p.G32())
+	return fmt.Sprint(p.G64())
 }
-- 
2.43.0


From a3835f2a5acaa9b1fdb71ac231e83f3101c559d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:17 +0000
Subject: [PATCH 12/40] fix: the derivative of GELU is usable in float32

The difference quotient was computed in T: with float32 the step is close to
the resolution of the argument, so the result was off by tens of percent, and 0
for arguments above 16.
---
 activation/gelu.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/activation/gelu.go b/activation/gelu.go
index 2d7fac9..5b0dc0c 100644
--- a/activation/gelu.go
+++ b/activation/gelu.go
@@ -8,16 +8,19 @@ import (
 
 type GELU[T types.Number] struct{}
 
+func gelu(x float64) float64 {
+	return 0.5 * x * (1 + math.Tanh(math.Sqrt(2/math.Pi)*(x+0.044715*math.Pow(x, 3))))
+}
+
 func (GELU[T]) Activate(n T) T {
-	x := float64(n)
-	return T(0.5 * x * (1 + math.Tanh(math.Sqrt(2/math.Pi)*(x+0.044715*math.Pow(x, 3)))))
+	return T(gelu(float64(n)))
 }
 
 func (p GELU[T]) Derive(x T) T {
 	h := 0.000001
-	H := T(h)
-	if H == 0 {
-		H++
+	if T(h) == 0 {
+		return (p.Activate(x+1) - p.Activate(x-1)) / 2
 	}
-	return (p.Activate(x+H) - p.Activate(x-H)) / (2 * H)
+	n := float64(x)
+	return T((gelu(n+h) - gelu(n-h)) / (2 * h))
 }
-- 
2.43.0


From 3a86b49f0097627ad165c5ef18d8107714857c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:17 +0000
Subject: [PATCH 13/40] fix: Conv2D back propagation with different width and
 height

The kernel height loop ran to the kernel width and the weight update used the
vertical stride for the horizontal position, so a kernel or stride that is not
square either failed to compile or trained with the wrong gradient.
---
 layer/conv2d.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index b3ae8e1..1cafb22 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -175,7 +175,7 @@ func (p *Conv2D[T]) BuildBackpropagation(
 					}
 					for i := uint(0); i < inShape[0]; i++ {
 						for kx := uint(0); kx < p.KW; kx++ {
-							for ky := uint(0); ky < p.KW; ky++ {
+							for ky := uint(0); ky < p.KH; ky++ {
 								ix := x*p.SX + kx
 								iy := y*p.SY + ky
 								if ix >= inShape[1] || iy >= inShape[2] {
@@ -259,7 +259,7 @@ func (p *Conv2D[T]) BuildBackpropagation(
 					ops := make([]*number.Scalar[T], 0, outShape[1]*outShape[2])
 					for ox := uint(0); ox < outShape[1]; ox++ {
 						for oy := uint(0); oy < outShape[2]; oy++ {
-							ix := ox*p.SY + kx
+							ix := ox*p.SX + kx
 							iy := oy*p.SY + ky
 							if ix < inShape[1] || iy < inShape[2] {
 								in, err = p.Input.GetOperand(i, ix, iy)
-- 
2.43.0


From a588958c1b4de6f46e27a5017942229cb86c2136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:17 +0000
Subject: [PATCH 14/40] fix: Conv2D reports a kernel that does not fit its
 input

The output size underflowed, so compiling panicked with an impossible
allocation; a zero stride was a division by zero.
---
 layer/conv2d.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index 1cafb22..dcea51b 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -83,6 +83,14 @@ func (p *Conv2D[T]) BuildFeedforward(ctx *context.Context) error {
 	}
 
 	inShape := p.Input.GetShape()
+	if p.SX == 0 || p.SY == 0 || p.KW == 0 || p.KH == 0 ||
+		inShape[1] < p.KW || inShape[2] < p.KH {
+		return p.Error(fmt.Sprintf(
+			"Invalid kernel (%d, %d) or stride (%d, %d) for input shape %s",
+			p.KW, p.KH, p.SX, p.SY,
+			tools.ShapeStr(inShape),
+		))
+	}
 	outShape := []uint{
 		p.NF,
 		(inShape[1]-p.KW)/p.SX + 1,
-- 
2.43.0


From 42828991e553f06a802eb72305ce6094de50eb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:18 +0000
Subject: [PATCH 15/40] fix: MaxPool covers its whole input for every pool size

The output size only rounded up for a pool size of 2: size 1 made windows
outside the input (a panic when executed), and larger sizes dropped rows and
columns or the whole input.
---
 layer/max_pool_2d.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/layer/max_pool_2d.go b/layer/max_pool_2d.go
index 5df8343..6557a00 100644
--- a/layer/max_pool_2d.go
+++ b/layer/max_pool_2d.go
@@ -69,8 +69,11 @@ func (p *MaxPool2D[T]) BuildFeedforward(ctx *context.Context) error {
 
 	inShape := p.Input.GetShape()
 	outShape := p.Input.GetShape()
-	outShape[1] = (outShape[1] + 1) / p.SX
-	outShape[2] = (outShape[2] + 1) / p.SY
+	if p.SX == 0 || p.SY == 0 {
+		return p.Error(fmt.Sprintf("Invalid pool size (%d, %d)", p.SX, p.SY))
+	}
+	outShape[1] = (outShape[1] + p.SX - 1) / p.SX
+	outShape[2] = (outShape[2] + p.SY - 1) / p.SY
 	p.Output = tensor.NewZeros[T](outShape...)
 	// p.Output = p.Neta // tensor.NewZeros[T](outShape...)
 
-- 
2.43.0


From adca7166ecf405dcdb44563d092168014e7d0c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:18 +0000
Subject: [PATCH 16/40] fix: NewUpSampling2Dxy makes an up sampling layer

It made a max pool layer, and both constructors labelled the layer MaxPool.
---
 layer/up_sampling_2d.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/layer/up_sampling_2d.go b/layer/up_sampling_2d.go
index 5b353fc..fd9469e 100644
--- a/layer/up_sampling_2d.go
+++ b/layer/up_sampling_2d.go
@@ -19,7 +19,7 @@ type UpSampling2D[T types.Number] struct {
 
 func NewUpSampling2D[T types.Number](s uint) Layer[T] {
 	l := &UpSampling2D[T]{}
-	l.Type = "MaxPool"
+	l.Type = "UpSampling"
 	l.SX = s
 	l.SY = s
 
@@ -27,8 +27,8 @@ func NewUpSampling2D[T types.Number](s uint) Layer[T] {
 }
 
 func NewUpSampling2Dxy[T types.Number](sx, sy uint) Layer[T] {
-	l := &MaxPool2D[T]{}
-	l.Type = "MaxPool"
+	l := &UpSampling2D[T]{}
+	l.Type = "UpSampling"
 	l.SX = sx
 	l.SY = sy
 
-- 
2.43.0


From 51204077983cd3896852a9da533f336328f40bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:39 +0000
Subject: [PATCH 17/40] fix: the layers behind a Concat are trained

Concat inherited Fit and ResetFit, which only follow the single previous layer
that a Concat does not have: the weights of everything before it were never
updated and its error was never cleared between training steps.
---
 layer/concat.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/layer/concat.go b/layer/concat.go
index e807315..6b04ca5 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -135,6 +135,30 @@ func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scal
 	return p.PostBuildBackpropagation(ctx, a, m)
 }
 
+func (p *Concat[T]) Fit() error {
+	err := p.l1.Fit()
+	if err != nil {
+		return err
+	}
+	return p.l2.Fit()
+}
+
+func (p *Concat[T]) ResetFit(ctx *context.Context) error {
+	err := p.l1.ResetFit(ctx)
+	if err != nil {
+		return err
+	}
+	return p.l2.ResetFit(ctx)
+}
+
+func (p *Concat[T]) Reset(ctx *context.Context) error {
+	err := p.l1.Reset(ctx)
+	if err != nil {
+		return err
+	}
+	return p.l2.Reset(ctx)
+}
+
 func (p *Concat[T]) ResetPrinted() {
 	p.printed = false
 
-- 
2.43.0


From f206958d12821d17d05875500c703fbe70716346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:39 +0000
Subject: [PATCH 18/40] fix: ResetSave and ResetLoad reach the layers behind a
 Concat

They stopped at the Concat, so the second save of a model wrote only the layers
after it and the second load restored only those.
---
 layer/concat.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/layer/concat.go b/layer/concat.go
index 6b04ca5..43deeb1 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -183,6 +183,18 @@ func (p *Concat[T]) PushToString(sb *strings.Builder) {
 	)
 }
 
+func (p *Concat[T]) ResetLoad() {
+	p.loaded = false
+	p.l1.ResetLoad()
+	p.l2.ResetLoad()
+}
+
+func (p *Concat[T]) ResetSave() {
+	p.saved = false
+	p.l1.ResetSave()
+	p.l2.ResetSave()
+}
+
 func (p *Concat[T]) Load(r io.Reader) error {
 	if p.loaded {
 		return nil
-- 
2.43.0


From 1247642577cff0a2388d87bb073c960258767491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:57 +0000
Subject: [PATCH 19/40] fix: momentum is applied to the weights of Dense,
 Conv2D and Deconv2D

The velocity was never stored (Dense) or was stored in a temporary (Conv2D,
Deconv2D weights), so the momentum term was always zero.
---
 layer/conv2d.go   | 11 ++++++++---
 layer/deconv2d.go | 13 +++++++++----
 layer/dense.go    | 10 ++++++++++
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index dcea51b..242cd61 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -299,9 +299,14 @@ func (p *Conv2D[T]) BuildBackpropagation(
 						Scalar: nw,
 						Args:   []*number.Scalar[T]{w, dw, m},
 					})
-					ctx.Push(&operation.Set[T]{
-						Scalar: m,
-						O:      dw,
+					mw, err := p.MWeights.GetOperand(f, i, kx, ky)
+					if err != nil {
+						return err
+					}
+					ctx.Push(&operation.Add[T]{
+						Scalar: mw,
+						A:      dw,
+						B:      m,
 					})
 				}
 			}
diff --git a/layer/deconv2d.go b/layer/deconv2d.go
index 6cebb96..d34d5af 100644
--- a/layer/deconv2d.go
+++ b/layer/deconv2d.go
@@ -282,7 +282,7 @@ func (p *Deconv2D[T]) BuildBackpropagation(
 					if err != nil {
 						return err
 					}
-					mw, err := weightsMom.GetOperand(outF, inF, kx, ky)
+					m, err := weightsMom.GetOperand(outF, inF, kx, ky)
 					if err != nil {
 						return err
 					}
@@ -325,11 +325,16 @@ func (p *Deconv2D[T]) BuildBackpropagation(
 					})
 					ctx.Push(&operation.Sum[T]{
 						Scalar: nw,
-						Args:   []*number.Scalar[T]{w, dw, mw},
+						Args:   []*number.Scalar[T]{w, dw, m},
 					})
-					ctx.Push(&operation.Set[T]{
+					mw, err := p.MWeights.GetOperand(outF, inF, kx, ky)
+					if err != nil {
+						return err
+					}
+					ctx.Push(&operation.Add[T]{
 						Scalar: mw,
-						O:      dw,
+						A:      dw,
+						B:      m,
 					})
 				}
 			}
diff --git a/layer/dense.go b/layer/dense.go
index 233cb20..2e5c7cb 100644
--- a/layer/dense.go
+++ b/layer/dense.go
@@ -240,6 +240,11 @@ func (p *Dense[T]) BuildBackpropagation(
 			Scalar: new_bias,
 			Args:   []*number.Scalar[T]{bias, moment, mul_dif_alpha},
 		})
+		ctx.Push(&operation.Add[T]{
+			Scalar: momentum,
+			A:      moment,
+			B:      mul_dif_alpha,
+		})
 
 		for j := uint(0); j < inputs; j++ {
 			input := p.Input.GetOperands()[j]
@@ -271,6 +276,11 @@ func (p *Dense[T]) BuildBackpropagation(
 				Scalar: new_weight,
 				Args:   []*number.Scalar[T]{weight, moment, delta},
 			})
+			ctx.Push(&operation.Add[T]{
+				Scalar: momentum,
+				A:      moment,
+				B:      delta,
+			})
 		}
 	}
 
-- 
2.43.0


From 099027eb5ee0d6c0bce071987bb33f9183bb49e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:04 +0000
Subject: [PATCH 20/40] fix: Flatten counts its previous layer's consumers once

Flatten added its whole reference count to the one its own connection already
made, so the error sent through an inner Flatten was halved.
---
 layer/flatten.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/flatten.go b/layer/flatten.go
index 38dc6ad..9e18469 100644
--- a/layer/flatten.go
+++ b/layer/flatten.go
@@ -47,7 +47,7 @@ func (p *Flatten[T]) BuildFeedforward(ctx *context.Context) error {
 	// p.Neta = tensor.Flatten[T](p.PreLayer.GetNetas())
 	// p.Activation = p.PreLayer.GetActivation()
 
-	p.PreLayer.GetRef().Value += p.Ref.Value
+	p.PreLayer.GetRef().Value += p.Ref.Value - 1
 	p.Ref = p.PreLayer.GetRef()
 
 	err = p.Output.BuildGraph(ctx)
-- 
2.43.0


From 14d912b2442c682985b6eb2a9bf68c77927f3058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:04 +0000
Subject: [PATCH 21/40] fix: saving an image rounds its channels to the nearest
 level

Truncating (and, out of [0, 1], wrapping around) changed pixels in a save and
load round trip.
---
 img/save.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/img/save.go b/img/save.go
index 81092ce..69c0513 100644
--- a/img/save.go
+++ b/img/save.go
@@ -5,6 +5,7 @@ import (
 	"image/color"
 	"image/jpeg"
 	"image/png"
+	"math"
 	"os"
 
 	"github.com/julioguillermo/godeep/errors"
@@ -12,6 +13,18 @@ import (
 	"github.com/julioguillermo/godeep/types"
 )
 
+// toByte turns a channel value of [0, 1] into the nearest of the 256 levels.
+func toByte[T types.Number](v T) uint8 {
+	l := math.Round(float64(v) * 255)
+	if l > 255 {
+		return 255
+	}
+	if l > 0 {
+		return uint8(l)
+	}
+	return 0
+}
+
 func ToImg[T types.Number](img tensor.Tensor[T]) (image.Image, error) {
 	shape := img.GetShape()
 	if len(shape) != 3 {
@@ -50,10 +63,10 @@ func ToImg[T types.Number](img tensor.Tensor[T]) (image.Image, error) {
 			}
 
 			c = color.RGBA{
-				R: uint8(r * 255),
-				G: uint8(g * 255),
-				B: uint8(b * 255),
-				A: uint8(a * 255),
+				R: toByte(r),
+				G: toByte(g),
+				B: toByte(b),
+				A: toByte(a),
 			}
 
 			newImg.SetRGBA(int(i), int(j), c)
-- 
2.43.0


From c97eb5147f865a0f89da5667f4288708cf1d8273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:21 +0000
Subject: [PATCH 22/40] fix: smooth scaling repeats the border pixels

SmoothScale failed on every image whose last row or column was needed and
always made 4 channels; LoadSmoothScaled mixed the border with transparent
black.
---
 img/image.go        | 15 ++++++++++++---
 img/smooth_scale.go | 18 ++++++++++++++----
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/img/image.go b/img/image.go
index 517de4d..299ce9f 100644
--- a/img/image.go
+++ b/img/image.go
@@ -108,10 +108,19 @@ func LoadSmoothScaled[T types.Number](
 			srcY := int(float64(y) * scaleY)
 
 			// Obtiene los píxeles vecinos
+			// Los vecinos fuera de la imagen repiten el borde
+			nextX := srcX + 1
+			if nextX >= size.X {
+				nextX = srcX
+			}
+			nextY := srcY + 1
+			if nextY >= size.Y {
+				nextY = srcY
+			}
 			p1 := img.At(srcX, srcY)
-			p2 := img.At(srcX+1, srcY)
-			p3 := img.At(srcX, srcY+1)
-			p4 := img.At(srcX+1, srcY+1)
+			p2 := img.At(nextX, srcY)
+			p3 := img.At(srcX, nextY)
+			p4 := img.At(nextX, nextY)
 
 			// Calcula los pesos de interpolación
 			dx := float64(x)*scaleX - float64(srcX)
diff --git a/img/smooth_scale.go b/img/smooth_scale.go
index 1342d97..a2cebd6 100644
--- a/img/smooth_scale.go
+++ b/img/smooth_scale.go
@@ -66,7 +66,7 @@ func SmoothScale[T types.Number](
 
 	scaleX := float64(shape[1]) / float64(width)
 	scaleY := float64(shape[2]) / float64(height)
-	t := tensor.NewZeros[T](4, width, height)
+	t := tensor.NewZeros[T](shape[0], width, height)
 
 	// Realiza el escalado suave de la imagen
 	for x := uint(0); x < width; x++ {
@@ -79,21 +79,31 @@ func SmoothScale[T types.Number](
 			dx := float64(x)*scaleX - float64(srcX)
 			dy := float64(y)*scaleY - float64(srcY)
 
+			// Los vecinos fuera de la imagen repiten el borde
+			nextX := srcX + 1
+			if nextX >= shape[1] {
+				nextX = srcX
+			}
+			nextY := srcY + 1
+			if nextY >= shape[2] {
+				nextY = srcY
+			}
+
 			for d := uint(0); d < shape[0]; d++ {
 				// Obtiene los píxeles vecinos
 				p1, err := img.Get(d, srcX, srcY)
 				if err != nil {
 					return nil, err
 				}
-				p2, err := img.Get(d, srcX+1, srcY)
+				p2, err := img.Get(d, nextX, srcY)
 				if err != nil {
 					return nil, err
 				}
-				p3, err := img.Get(d, srcX, srcY+1)
+				p3, err := img.Get(d, srcX, nextY)
 				if err != nil {
 					return nil, err
 				}
-				p4, err := img.Get(d, srcX+1, srcY+1)
+				p4, err := img.Get(d, nextX, nextY)
 				if err != nil {
 					return nil, err
 				}
-- 
2.43.0


From 88658445068d343a82f935e797c9e0fe958c97b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:21 +0000
Subject: [PATCH 23/40] fix: images whose bounds do not start at (0, 0) are
 loaded whole

---
 img/image.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/img/image.go b/img/image.go
index 299ce9f..334ddc6 100644
--- a/img/image.go
+++ b/img/image.go
@@ -24,6 +24,7 @@ func LoadImage[T types.Number](path string) (tensor.Tensor[T], error) {
 	if err != nil {
 		return nil, err
 	}
+	origin := img.Bounds().Min
 	size := img.Bounds().Size()
 	width := size.X
 	height := size.Y
@@ -31,7 +32,7 @@ func LoadImage[T types.Number](path string) (tensor.Tensor[T], error) {
 	t := tensor.NewZeros[T](4, uint(width), uint(height))
 	for i := 0; i < width; i++ {
 		for j := 0; j < height; j++ {
-			c := img.At(i, j)
+			c := img.At(origin.X+i, origin.Y+j)
 			r, g, b, a := c.RGBA()
 			t.Set(T(float64(r)/MaxColor), 0, uint(i), uint(j))
 			t.Set(T(float64(g)/MaxColor), 1, uint(i), uint(j))
@@ -54,6 +55,7 @@ func LoadSimpleScaled[T types.Number](path string, width, height uint) (tensor.T
 	if err != nil {
 		return nil, err
 	}
+	origin := img.Bounds().Min
 	size := img.Bounds().Size()
 
 	scalX := float64(size.X) / float64(width)
@@ -68,7 +70,7 @@ func LoadSimpleScaled[T types.Number](path string, width, height uint) (tensor.T
 		for j = 0; j < height; j++ {
 			X = int(float64(i) * scalX)
 			Y = int(float64(j) * scalY)
-			c := img.At(X, Y)
+			c := img.At(origin.X+X, origin.Y+Y)
 			r, g, b, a := c.RGBA()
 			t.Set(T(float64(r)/MaxColor), 0, uint(i), uint(j))
 			t.Set(T(float64(g)/MaxColor), 1, uint(i), uint(j))
@@ -94,6 +96,7 @@ func LoadSmoothScaled[T types.Number](
 	if err != nil {
 		return nil, err
 	}
+	origin := img.Bounds().Min
 	size := img.Bounds().Size()
 
 	scaleX := float64(size.X) / float64(width)
@@ -117,10 +120,10 @@ func LoadSmoothScaled[T types.Number](
 			if nextY >= size.Y {
 				nextY = srcY
 			}
-			p1 := img.At(srcX, srcY)
-			p2 := img.At(nextX, srcY)
-			p3 := img.At(srcX, nextY)
-			p4 := img.At(nextX, nextY)
+			p1 := img.At(origin.X+srcX, origin.Y+srcY)
+			p2 := img.At(origin.X+nextX, origin.Y+srcY)
+			p3 := img.At(origin.X+srcX, origin.Y+nextY)
+			p4 := img.At(origin.X+nextX, origin.Y+nextY)
 
 			// Calcula los pesos de interpolación
 			dx := float64(x)*scaleX - float64(srcX)
-- 
2.43.0


From 7e57941e7642029f79414996c72a59bbde24edf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:21 +0000
Subject: [PATCH 24/40] fix: ScalarRand of an integer type is not always min

---
 number/constructors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number/constructors.go b/number/constructors.go
index f145da6..c0c3c01 100644
--- a/number/constructors.go
+++ b/number/constructors.go
@@ -24,7 +24,7 @@ func ScalarOne[T types.Number]() *Scalar[T] {
 
 func ScalarRand[T types.Number](min, max T) *Scalar[T] {
 	return &Scalar[T]{
-		Value: T(rand.Float64())*(max-min) + min,
+		Value: T(rand.Float64()*float64(max-min)) + min,
 	}
 }
 
-- 
2.43.0


From 99463d29fea6b541fec336612e87a92c087585be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:55 +0000
Subject: [PATCH 25/40] fix: a model can be trained before it is compiled, and
 compiled twice

Training before Compile panicked; compiling again replaced the graphs by empty
ones, so the model stopped computing (or learning) without any error.
---
 model/model.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/model/model.go b/model/model.go
index b848c09..6a60637 100644
--- a/model/model.go
+++ b/model/model.go
@@ -150,6 +150,9 @@ func (p *Model[T]) Push(l layer.Layer[T]) *Model[T] {
 }
 
 func (p *Model[T]) Compile() error {
+	if p.GraphFeedForward != nil {
+		return nil
+	}
 	p.LastLayer.GetRef().Value++
 	_, err := p.Build()
 	if err != nil {
@@ -186,6 +189,15 @@ func (p *Model[T]) Compile() error {
 }
 
 func (p *Model[T]) CompileBackPropagation() error {
+	if p.GraphBackPropagation != nil {
+		return nil
+	}
+	if p.GraphFeedForward == nil {
+		err := p.Compile()
+		if err != nil {
+			return err
+		}
+	}
 	ctx := &context.Context{}
 
 	dif := p.LastLayer.GetDif().SetBuild(false)
-- 
2.43.0


From 78810f67836317d8c53732ddcc76332b7302e6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:56 +0000
Subject: [PATCH 26/40] fix: FromModels reports models that do not compile
 instead of panicking

---
 model/model.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/model/model.go b/model/model.go
index 6a60637..4e76dbe 100644
--- a/model/model.go
+++ b/model/model.go
@@ -62,13 +62,19 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 
 	for i := 0; i < len(models); i++ {
 		if models[i].GraphFeedForward == nil {
-			models[i].Compile()
+			err := models[i].Compile()
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 
 	for i := len(models) - 1; i >= 0; i-- {
 		if models[i].GraphBackPropagation == nil {
-			models[i].CompileBackPropagation()
+			err := models[i].CompileBackPropagation()
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 
-- 
2.43.0


From 41d4fb3285bbfdd82ea5426fa01e18dd60e5a98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:56 +0000
Subject: [PATCH 27/40] fix: training without samples is an error instead of a
 panic

---
 model/model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/model.go b/model/model.go
index 4e76dbe..16a3e69 100644
--- a/model/model.go
+++ b/model/model.go
@@ -338,6 +338,9 @@ func (p *Model[T]) Train(
 			len(targets),
 		)
 	}
+	if len(inputs) == 0 && batch > 0 {
+		return errors.FmtNeuralError("Fail to fit the model, there are no inputs")
+	}
 	if p.GraphBackPropagation == nil {
 		err := p.CompileBackPropagation()
 		if err != nil {
-- 
2.43.0


From c0607f833298e3e99896ed23d8466cf9c7b09571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:56 +0000
Subject: [PATCH 28/40] fix: a Concat can be the last layer or feed any other
 layer in training

Its error tensor was used before it was built, which panicked or failed.
---
 layer/conv2d.go         | 4 ++++
 layer/deconv2d.go       | 4 ++++
 layer/max_pool_2d.go    | 5 +++++
 layer/up_sampling_2d.go | 4 ++++
 model/model.go          | 3 ++-
 5 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index 242cd61..6389cae 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -173,6 +173,10 @@ func (p *Conv2D[T]) BuildBackpropagation(
 			return err
 		}
 		preDif := p.PreLayer.GetDif()
+		err = preDif.BuildGraph(ctx)
+		if err != nil {
+			return err
+		}
 
 		for f := uint(0); f < outShape[0]; f++ {
 			for x := uint(0); x < outShape[1]; x++ {
diff --git a/layer/deconv2d.go b/layer/deconv2d.go
index d34d5af..1de7c90 100644
--- a/layer/deconv2d.go
+++ b/layer/deconv2d.go
@@ -187,6 +187,10 @@ func (p *Deconv2D[T]) BuildBackpropagation(
 			return err
 		}
 		preDif := p.PreLayer.GetDif()
+		err = preDif.BuildGraph(ctx)
+		if err != nil {
+			return err
+		}
 
 		for inF := uint(0); inF < inShape[0]; inF++ {
 			for x := uint(0); x < inShape[1]; x++ {
diff --git a/layer/max_pool_2d.go b/layer/max_pool_2d.go
index 6557a00..ea27d36 100644
--- a/layer/max_pool_2d.go
+++ b/layer/max_pool_2d.go
@@ -130,6 +130,11 @@ func (p *MaxPool2D[T]) BuildBackpropagation(ctx *context.Context, a, m *number.S
 		return err
 	}
 
+	err = p.PreLayer.GetDif().BuildGraph(ctx)
+	if err != nil {
+		return err
+	}
+
 	inShape := p.Input.GetShape()
 	outShape := p.Output.GetShape()
 
diff --git a/layer/up_sampling_2d.go b/layer/up_sampling_2d.go
index fd9469e..0ccb8ba 100644
--- a/layer/up_sampling_2d.go
+++ b/layer/up_sampling_2d.go
@@ -120,6 +120,10 @@ func (p *UpSampling2D[T]) BuildBackpropagation(ctx *context.Context, a, m *numbe
 	inShape := p.Input.GetShape()
 
 	preDif := p.PreLayer.GetDif()
+	err = preDif.BuildGraph(ctx)
+	if err != nil {
+		return err
+	}
 
 	for f := uint(0); f < inShape[0]; f++ {
 		for x := uint(0); x < inShape[1]; x++ {
diff --git a/model/model.go b/model/model.go
index 16a3e69..81ca8f3 100644
--- a/model/model.go
+++ b/model/model.go
@@ -206,7 +206,8 @@ func (p *Model[T]) CompileBackPropagation() error {
 	}
 	ctx := &context.Context{}
 
-	dif := p.LastLayer.GetDif().SetBuild(false)
+	dif := p.LastLayer.GetDif()
+	dif.SetBuild(false)
 	err := dif.BuildGraph(ctx)
 	if err != nil {
 		return err
-- 
2.43.0


From 0bd2d0adeb0576f808a1b7563088a1f580cd18aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:56 +0000
Subject: [PATCH 29/40] fix: SetTrainable reaches every layer of a model

The first layer and the layers behind a Concat kept learning when the model was
frozen.
---
 layer/concat.go      |  4 ++++
 model/model_layer.go | 16 ++++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/layer/concat.go b/layer/concat.go
index 43deeb1..ab076bd 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -135,6 +135,10 @@ func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scal
 	return p.PostBuildBackpropagation(ctx, a, m)
 }
 
+func (p *Concat[T]) GetBranches() (Layer[T], Layer[T]) {
+	return p.l1, p.l2
+}
+
 func (p *Concat[T]) Fit() error {
 	err := p.l1.Fit()
 	if err != nil {
diff --git a/model/model_layer.go b/model/model_layer.go
index 192f50b..b25ffc7 100644
--- a/model/model_layer.go
+++ b/model/model_layer.go
@@ -38,9 +38,21 @@ func (p *Model[T]) Fit() error {
 }
 
 func (p *Model[T]) SetTrainable(t bool) {
-	cur := p.LastLayer
-	for cur != nil && cur != p.FirstLayer {
+	p.setTrainable(p.LastLayer, t)
+}
+
+func (p *Model[T]) setTrainable(cur layer.Layer[T], t bool) {
+	for cur != nil {
 		cur.SetTrainable(t)
+		if c, ok := cur.(*layer.Concat[T]); ok {
+			l1, l2 := c.GetBranches()
+			p.setTrainable(l1, t)
+			p.setTrainable(l2, t)
+			return
+		}
+		if cur == p.FirstLayer {
+			return
+		}
 		cur = cur.GetPrelayer()
 	}
 }
-- 
2.43.0


From 9e251a6a974ea55771877c80a60a2454cc934b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:15 +0000
Subject: [PATCH 30/40] fix: FromModels refuses a model compiled without the
 previous one

Its graph does not read the previous model, so the composed model ignored
everything before it.
---
 model/model.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model/model.go b/model/model.go
index 81ca8f3..bd7f3ec 100644
--- a/model/model.go
+++ b/model/model.go
@@ -56,6 +56,12 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 
 	for i := 1; i < len(models); i++ {
 		if models[i].FirstLayer.GetPrelayer() != models[i-1].LastLayer {
+			if models[i].GraphFeedForward != nil {
+				return nil, errors.FmtNeuralError(
+					"Model %d: is already compiled without the previous model",
+					i,
+				)
+			}
 			models[i].FirstLayer.Connect(models[i-1].LastLayer)
 		}
 	}
-- 
2.43.0


From 985b5088b439fa3949e34ad078d8007df1e5e21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:23 +0000
Subject: [PATCH 31/40] fix: a composed model trains models that were trained
 before

The rate and momentum were given to the last model only, so a model whose
back-propagation had been compiled before it was composed never moved.
---
 model/model.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/model/model.go b/model/model.go
index bd7f3ec..62a4fbc 100644
--- a/model/model.go
+++ b/model/model.go
@@ -36,6 +36,8 @@ type Model[T types.Number] struct {
 	GraphCalDif          *graph.Graph
 	GraphResetFit        *graph.Graph
 	GraphReset           *graph.Graph
+
+	models []*Model[T]
 }
 
 func NewModel[T types.Number]() *Model[T] {
@@ -85,6 +87,7 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 	}
 
 	m := NewModel[T]()
+	m.models = append(m.models, models...)
 
 	size := len(models)
 
@@ -314,6 +317,14 @@ func (p *Model[T]) ExecFit(x, y tensor.Tensor[T]) error {
 	return p.LastLayer.Fit()
 }
 
+func (p *Model[T]) setRates(alpha, momentum T) {
+	p.Alpha.Value = alpha
+	p.Momentum.Value = momentum
+	for _, m := range p.models {
+		m.setRates(alpha, momentum)
+	}
+}
+
 func (p *Model[T]) TrainOne(
 	input, target tensor.Tensor[T],
 	alpha, momentum T,
@@ -324,8 +335,7 @@ func (p *Model[T]) TrainOne(
 			return -1, err
 		}
 	}
-	p.Alpha.Value = alpha
-	p.Momentum.Value = momentum
+	p.setRates(alpha, momentum)
 	err := p.ExecFit(input, target)
 	if err != nil {
 		return -1, err
@@ -354,8 +364,7 @@ func (p *Model[T]) Train(
 			return err
 		}
 	}
-	p.Alpha.Value = alpha
-	p.Momentum.Value = momentum
+	p.setRates(alpha, momentum)
 	if batch == 0 {
 		batch = uint(len(inputs))
 	}
-- 
2.43.0


From 3519f942e22de5a8784832e6c38f40efdaa08745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:27 +0000
Subject: [PATCH 32/40] fix: convolutions update their own parameters with the
 averaged error

The error of a layer with several readers was averaged before it was passed on
but not for the layer's own weights and bias, unlike in Dense.
---
 layer/conv2d.go   | 2 +-
 layer/deconv2d.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index 6389cae..faf0400 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -230,7 +230,7 @@ func (p *Conv2D[T]) BuildBackpropagation(
 		}
 	}
 
-	dif := tensor.MulScalar(p.Dif, Alpha)
+	dif := tensor.MulScalar(Dif, Alpha)
 	biasMom := tensor.MulScalar(p.MBias, Momentum)
 	deltaBias := tensor.Add(dif, biasMom)
 
diff --git a/layer/deconv2d.go b/layer/deconv2d.go
index 1de7c90..7ad66ed 100644
--- a/layer/deconv2d.go
+++ b/layer/deconv2d.go
@@ -257,7 +257,7 @@ func (p *Deconv2D[T]) BuildBackpropagation(
 		}
 	}
 
-	dif := tensor.MulScalar(p.Dif, Alpha)
+	dif := tensor.MulScalar(Dif, Alpha)
 	biasMom := tensor.MulScalar(p.MBias, Momentum)
 	deltaBias := tensor.Add(dif, biasMom)
 
-- 
2.43.0


From 7e28179c0203470b29f50a94b35906b27ecdd114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:28 +0000
Subject: [PATCH 33/40] fix: converting a float64 to F16 rounds only once

---
 scalar/f16.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/scalar/f16.go b/scalar/f16.go
index b0287c4..e26a32b 100644
--- a/scalar/f16.go
+++ b/scalar/f16.go
@@ -15,7 +15,7 @@ func F16fromF32(value float32) *F16 {
 }
 
 func F16fromF64(value float64) *F16 {
-	return F16fromF32(float32(value))
+	return F16fromF32(f64ToOddF32(value))
 }
 
 // Getter and setter
@@ -33,7 +33,7 @@ func (p *F16) S32(v float32) {
 }
 
 func (p *F16) S64(v float64) {
-	p.S32(float32(v))
+	p.S32(f64ToOddF32(v))
 }
 
 func (p *F16) Copy() Scalar {
@@ -171,6 +171,24 @@ func f32bitsToF16bits(u32 uint32) uint16 {
 	return uint16(halfSign | uHalfExp | halfCoef)
 }
 
+// f64ToOddF32 converts to float32 rounding to odd, so that the value can be
+// rounded again to F16 as if it was rounded only once.
+func f64ToOddF32(v float64) float32 {
+	f := float32(v)
+	if float64(f) == v || v != v {
+		return f
+	}
+	bits := math.Float32bits(f)
+	if bits&1 == 0 {
+		if math.Abs(float64(f)) > math.Abs(v) {
+			bits--
+		} else {
+			bits++
+		}
+	}
+	return math.Float32frombits(bits)
+}
+
 func (p *F16) IsNaN() bool {
 	return (p.Value&0x7c00 == 0x7c00) && (p.Value&0x03ff != 0)
 }
-- 
2.43.0


From 1d3a50d926e83a0d84aa463ba8cbef09e7b620f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:00 +0000
Subject: [PATCH 34/40] fix: a tensor does not share its shape with the slice
 it was made from

---
 tensor/constructor.go | 2 +-
 tensor/reshape.go     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensor/constructor.go b/tensor/constructor.go
index dcbc56b..e2a610d 100644
--- a/tensor/constructor.go
+++ b/tensor/constructor.go
@@ -10,7 +10,7 @@ import (
 
 func initMat[T types.Number](shape []uint) *TensorMat[T] {
 	return &TensorMat[T]{
-		Shape:    shape,
+		Shape:    append([]uint{}, shape...),
 		MulIndex: tools.GetIndexMul(shape),
 	}
 }
diff --git a/tensor/reshape.go b/tensor/reshape.go
index 07973f1..8b0c842 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -16,7 +16,7 @@ type TensorReshape[T types.Number] struct {
 func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
 	return &TensorReshape[T]{
 		TensorMat: TensorMat[T]{
-			Shape: shape,
+			Shape: append([]uint{}, shape...),
 		},
 		T: t,
 	}
@@ -84,7 +84,7 @@ func (p *TensorMat[T]) Reshape(shape ...uint) *TensorMat[T] {
 	}
 
 	return &TensorMat[T]{
-		Shape:    shape,
+		Shape:    append([]uint{}, shape...),
 		MulIndex: mulIndex,
 		Operands: ops,
 	}
-- 
2.43.0


From d965566177b3ed0cd3dcea98a085fef04537da91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:15 +0000
Subject: [PATCH 35/40] fix: LoadFull reports a damaged header instead of
 panicking

---
 tensor/tensor_mat.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index ad11de1..da0e233 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 
 	"github.com/julioguillermo/godeep/context"
@@ -182,6 +183,18 @@ func readNumber[T types.Number](r io.Reader, n *T) error {
 	return binary.Read(r, binary.LittleEndian, n)
 }
 
+func sizeOverflows(shape []uint) bool {
+	size, overflow := uint(1), false
+	for _, s := range shape {
+		if s == 0 {
+			return false
+		}
+		overflow = overflow || size > math.MaxUint/s
+		size *= s
+	}
+	return overflow
+}
+
 func (p *TensorMat[T]) SaveFull(w io.Writer) error {
 	err := binary.Write(w, binary.LittleEndian, uint64(len(p.Shape)))
 	if err != nil {
@@ -209,22 +222,29 @@ func (p *TensorMat[T]) LoadFull(r io.Reader) error {
 		return err
 	}
 
-	shape := make([]uint, dims)
-	for i := range shape {
+	// a damaged stream can announce more than it holds, so nothing is
+	// allocated before it is there
+	shape := []uint{}
+	for i := uint64(0); i < dims; i++ {
 		var s uint64
 		err := binary.Read(r, binary.LittleEndian, &s)
 		if err != nil {
 			return err
 		}
-		shape[i] = uint(s)
+		shape = append(shape, uint(s))
+	}
+	if sizeOverflows(shape) {
+		return errors.FmtNeuralError("Invalid shape %s", tools.ShapeStr(shape))
 	}
 
-	mat := NewZeros[T](shape...)
-	for i := range mat.Operands {
-		err := readNumber(r, &mat.Operands[i].Value)
+	mat := initMat[T](shape)
+	for i := tools.GetDataSize(shape); i > 0; i-- {
+		o := &number.Scalar[T]{}
+		err := readNumber(r, &o.Value)
 		if err != nil {
 			return err
 		}
+		mat.Operands = append(mat.Operands, o)
 	}
 
 	p.Shape = mat.Shape
-- 
2.43.0


From 16ca06998eaec24b545240fd48e1fec3a9877ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:18 +0000
Subject: [PATCH 36/40] fix: the text of a model lists a shared layer once

---
 layer/base.go   | 1 +
 layer/concat.go | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/layer/base.go b/layer/base.go
index 356a6a7..1df053d 100644
--- a/layer/base.go
+++ b/layer/base.go
@@ -242,6 +242,7 @@ func (p *Base[T]) PushToString(sb *strings.Builder) {
 	if p.printed {
 		return
 	}
+	p.printed = true
 	if p.PreLayer != nil {
 		p.PreLayer.PushToString(sb)
 		sb.WriteString(
diff --git a/layer/concat.go b/layer/concat.go
index ab076bd..77c831f 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -171,6 +171,11 @@ func (p *Concat[T]) ResetPrinted() {
 }
 
 func (p *Concat[T]) PushToString(sb *strings.Builder) {
+	if p.printed {
+		return
+	}
+	p.printed = true
+
 	p.l1.PushToString(sb)
 	p.l2.PushToString(sb)
 
-- 
2.43.0


From 1db248bcc33aae32faff51ef87e4af8162c4ba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:32 +0000
Subject: [PATCH 37/40] fix: every layer names its kind in descriptions and
 errors

---
 layer/deconv2d.go   | 4 ++--
 layer/input.go      | 1 +
 layer/sub_tensor.go | 1 +
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/layer/deconv2d.go b/layer/deconv2d.go
index 7ad66ed..ef4cf1f 100644
--- a/layer/deconv2d.go
+++ b/layer/deconv2d.go
@@ -26,7 +26,7 @@ func NewDeconv2D[T types.Number](
 	act activation.Activation[T],
 ) Layer[T] {
 	l := &Deconv2D[T]{}
-	l.Type = "Conv2D"
+	l.Type = "Deconv2D"
 	l.Activation = act
 	l.NF = filters
 	l.KW = kernelSize
@@ -43,7 +43,7 @@ func NewDeconv2Dwh[T types.Number](
 	act activation.Activation[T],
 ) Layer[T] {
 	l := &Deconv2D[T]{}
-	l.Type = "Conv2D"
+	l.Type = "Deconv2D"
 	l.Activation = act
 	l.NF = filters
 	l.KW = kernelWidth
diff --git a/layer/input.go b/layer/input.go
index 8f3fb09..939e5d8 100644
--- a/layer/input.go
+++ b/layer/input.go
@@ -20,6 +20,7 @@ func NewInput[T types.Number](shape ...uint) Layer[T] {
 			Activation: activation.Linear[T]{},
 		},
 	}
+	in.Type = "Input"
 	return in
 }
 
diff --git a/layer/sub_tensor.go b/layer/sub_tensor.go
index 6fd6b5d..7469f76 100644
--- a/layer/sub_tensor.go
+++ b/layer/sub_tensor.go
@@ -20,6 +20,7 @@ func NewSubTensor[T types.Number](dim, from, to uint) Layer[T] {
 		from: from,
 		to:   to,
 	}
+	l.Type = "SubTensor"
 
 	return l
 }
-- 
2.43.0


From e9e6aa92eeca053f7d464704703761a935178ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:39 +0000
Subject: [PATCH 38/40] fix: a composed model can be described

---
 layer/input.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/layer/input.go b/layer/input.go
index 939e5d8..e326b5b 100644
--- a/layer/input.go
+++ b/layer/input.go
@@ -53,7 +53,12 @@ func (p *Input[T]) BuildFeedforward(ctx *context.Context) error {
 	//}
 
 	if p.PreLayer != nil {
-		return p.PreLayer.BuildFeedforward(ctx)
+		err := p.PreLayer.BuildFeedforward(ctx)
+		if err != nil {
+			return err
+		}
+		p.Output = p.PreLayer.GetOutputs()
+		return nil
 		//p.Input = p.PreLayer.GetOutputs()
 		//p.Output = p.PreLayer.GetOutputs()
 		//// p.Neta = p.PreLayer.GetNetas()
-- 
2.43.0


From bddb174263f1d0b7fc6bf81bfe7088d6b5e7e88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:45 +0000
Subject: [PATCH 39/40] fix: an expression that can not be built is refused
 every time

---
 tensor/abs.go         | 2 +-
 tensor/activate.go    | 2 +-
 tensor/concat.go      | 3 ++-
 tensor/copy.go        | 2 +-
 tensor/dim_math.go    | 3 ++-
 tensor/dot_product.go | 2 +-
 tensor/fill.go        | 2 +-
 tensor/neg.go         | 2 +-
 tensor/oper2.go       | 2 +-
 tensor/oper_scalar.go | 2 +-
 tensor/reshape.go     | 2 +-
 tensor/softmax.go     | 2 +-
 tensor/sub_tensor.go  | 2 +-
 tensor/tensor_math.go | 2 +-
 tensor/transpose.go   | 2 +-
 15 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/tensor/abs.go b/tensor/abs.go
index ea74667..fe2843c 100644
--- a/tensor/abs.go
+++ b/tensor/abs.go
@@ -22,13 +22,13 @@ func (p *TensorAbs[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
 
+	p.builded = true
 	p.Shape = p.T.GetShape()
 	p.MulIndex = p.T.GetMulIndex()
 	p.Operands = make([]*number.Scalar[T], p.T.GetSize())
diff --git a/tensor/activate.go b/tensor/activate.go
index cefae49..258d2df 100644
--- a/tensor/activate.go
+++ b/tensor/activate.go
@@ -24,13 +24,13 @@ func (p *TensorActivate[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
 
+	p.builded = true
 	p.Shape = p.T.GetShape()
 	p.MulIndex = p.T.GetMulIndex()
 	p.Operands = make([]*number.Scalar[T], p.T.GetSize())
diff --git a/tensor/concat.go b/tensor/concat.go
index f266320..997a2ae 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -52,7 +52,7 @@ func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+
 	err := p.A.BuildGraph(ctx)
 	if err != nil {
 		return err
@@ -67,6 +67,7 @@ func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 		return err
 	}
 
+	p.builded = true
 	p.Shape = p.A.GetShape()
 	dimSize := p.Shape[p.D]
 	p.Shape[p.D] += p.B.GetShape()[p.D]
diff --git a/tensor/copy.go b/tensor/copy.go
index 7a714b8..8237b33 100644
--- a/tensor/copy.go
+++ b/tensor/copy.go
@@ -29,7 +29,6 @@ func (p *TensorCopy[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.F.BuildGraph(ctx)
 	if err != nil {
@@ -48,6 +47,7 @@ func (p *TensorCopy[T]) BuildGraph(ctx *context.Context) error {
 		)
 	}
 
+	p.builded = true
 	p.Shape = p.T.GetShape()
 	p.MulIndex = p.T.GetMulIndex()
 	p.Operands = p.T.GetOperands()
diff --git a/tensor/dim_math.go b/tensor/dim_math.go
index c3895a1..09de7aa 100644
--- a/tensor/dim_math.go
+++ b/tensor/dim_math.go
@@ -37,7 +37,7 @@ func (p *TensorDimMath[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
@@ -51,6 +51,7 @@ func (p *TensorDimMath[T]) BuildGraph(ctx *context.Context) error {
 		)
 	}
 
+	p.builded = true
 	p.Shape = p.T.GetShape()[:p.D+1]
 	p.MulIndex = tools.GetIndexMul(p.Shape)
 	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
diff --git a/tensor/dot_product.go b/tensor/dot_product.go
index afd901b..e4587d2 100644
--- a/tensor/dot_product.go
+++ b/tensor/dot_product.go
@@ -41,7 +41,6 @@ func (p *TensorDotProduct[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.A.BuildGraph(ctx)
 	if err != nil {
@@ -87,6 +86,7 @@ func (p *TensorDotProduct[T]) BuildGraph(ctx *context.Context) error {
 		)
 	}
 
+	p.builded = true
 	if len(p.A.GetShape()) == 1 && len(p.B.GetShape()) == 1 {
 		return p.buildVector(ctx)
 	}
diff --git a/tensor/fill.go b/tensor/fill.go
index 8025ee8..809f2e9 100644
--- a/tensor/fill.go
+++ b/tensor/fill.go
@@ -29,13 +29,13 @@ func (p *TensorFill[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
 
+	p.builded = true
 	p.Shape = p.T.GetShape()
 	p.MulIndex = p.T.GetMulIndex()
 	p.Operands = p.T.GetOperands()
diff --git a/tensor/neg.go b/tensor/neg.go
index ecaf3a5..91f6fff 100644
--- a/tensor/neg.go
+++ b/tensor/neg.go
@@ -22,13 +22,13 @@ func (p *TensorNeg[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
 
+	p.builded = true
 	p.Shape = p.T.GetShape()
 	p.MulIndex = p.T.GetMulIndex()
 	p.Operands = make([]*number.Scalar[T], p.T.GetSize())
diff --git a/tensor/oper2.go b/tensor/oper2.go
index 449a492..480c237 100644
--- a/tensor/oper2.go
+++ b/tensor/oper2.go
@@ -36,7 +36,6 @@ func (p *TensorOp2[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.A.BuildGraph(ctx)
 	if err != nil {
@@ -52,6 +51,7 @@ func (p *TensorOp2[T]) BuildGraph(ctx *context.Context) error {
 		return e
 	}
 
+	p.builded = true
 	p.Shape = p.A.GetShape()
 	p.MulIndex = p.A.GetMulIndex()
 
diff --git a/tensor/oper_scalar.go b/tensor/oper_scalar.go
index c5e5379..15fc36d 100644
--- a/tensor/oper_scalar.go
+++ b/tensor/oper_scalar.go
@@ -35,13 +35,13 @@ func (p *TensorOpScalar[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
 
+	p.builded = true
 	p.Shape = p.T.GetShape()
 	p.MulIndex = p.T.GetMulIndex()
 
diff --git a/tensor/reshape.go b/tensor/reshape.go
index 8b0c842..52d3503 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -36,13 +36,13 @@ func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
 
+	p.builded = true
 	if p.flat {
 		p.Shape = []uint{p.T.GetSize()}
 	}
diff --git a/tensor/softmax.go b/tensor/softmax.go
index 230875d..716227d 100644
--- a/tensor/softmax.go
+++ b/tensor/softmax.go
@@ -23,13 +23,13 @@ func (p *TensorSoftMax[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
 
+	p.builded = true
 	p.Shape = p.T.GetShape()
 	p.MulIndex = p.T.GetMulIndex()
 
diff --git a/tensor/sub_tensor.go b/tensor/sub_tensor.go
index 09340cb..05e53dd 100644
--- a/tensor/sub_tensor.go
+++ b/tensor/sub_tensor.go
@@ -41,7 +41,6 @@ func (p *TensorSubTensor[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
@@ -79,6 +78,7 @@ func (p *TensorSubTensor[T]) BuildGraph(ctx *context.Context) error {
 		)
 	}
 
+	p.builded = true
 	p.Shape = p.T.GetShape()
 	p.M = p.Shape[p.D]
 	p.Shape[p.D] = p.E - p.S
diff --git a/tensor/tensor_math.go b/tensor/tensor_math.go
index 4211de3..c355ea5 100644
--- a/tensor/tensor_math.go
+++ b/tensor/tensor_math.go
@@ -34,13 +34,13 @@ func (p *TensorTensorMath[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
 
+	p.builded = true
 	p.Shape = []uint{1}
 	p.MulIndex = []uint{1}
 	op := &number.Scalar[T]{}
diff --git a/tensor/transpose.go b/tensor/transpose.go
index 0d09df3..56ce118 100644
--- a/tensor/transpose.go
+++ b/tensor/transpose.go
@@ -22,12 +22,12 @@ func (p *TensorTanspose[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
+	p.builded = true
 	TShape := p.T.GetShape()
 
 	dims := len(TShape)
-- 
2.43.0


From 7b59e2aeddba501ec5ec48e33750df74943d3384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:07 +0000
Subject: [PATCH 40/40] fix: a model whose layers do not fit is refused every
 time

---
 model/model.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/model/model.go b/model/model.go
index 62a4fbc..49cda47 100644
--- a/model/model.go
+++ b/model/model.go
@@ -38,6 +38,9 @@ type Model[T types.Number] struct {
 	GraphReset           *graph.Graph
 
 	models []*Model[T]
+
+	// why the layers can not be built, which is tried only once
+	compileErr error
 }
 
 func NewModel[T types.Number]() *Model[T] {
@@ -168,6 +171,13 @@ func (p *Model[T]) Compile() error {
 	if p.GraphFeedForward != nil {
 		return nil
 	}
+	if p.compileErr == nil {
+		p.compileErr = p.compileFeedForward()
+	}
+	return p.compileErr
+}
+
+func (p *Model[T]) compileFeedForward() error {
 	p.LastLayer.GetRef().Value++
 	_, err := p.Build()
 	if err != nil {
-- 
2.43.0

