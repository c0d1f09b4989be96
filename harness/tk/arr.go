// Package tk holds the reference semantics and the generators: plain
// slices-and-loops tensors that share no code with the repository.
package tk

import (
	"fmt"
	"math"

	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
)

// Arr is a reference tensor: elements in row-major order.
type Arr[T types.Number] struct {
	Shape []uint
	Data  []T
}

func Size(shape []uint) int {
	n := 1
	for _, s := range shape {
		n *= int(s)
	}
	return n
}

// Index is the multi-index of the i-th element in row-major order.
func Index(shape []uint, i int) []uint {
	idx := make([]uint, len(shape))
	for d := len(shape) - 1; d >= 0; d-- {
		idx[d] = uint(i) % shape[d]
		i /= int(shape[d])
	}
	return idx
}

// Offset is the row-major position of a multi-index.
func Offset(shape, idx []uint) int {
	o := 0
	for d := range shape {
		o = o*int(shape[d]) + int(idx[d])
	}
	return o
}

func CloneU(s []uint) []uint { return append([]uint{}, s...) }

func NewArr[T types.Number](shape []uint) Arr[T] {
	return Arr[T]{CloneU(shape), make([]T, Size(shape))}
}

func (a Arr[T]) Clone() Arr[T] {
	return Arr[T]{CloneU(a.Shape), append([]T{}, a.Data...)}
}

func (a Arr[T]) At(idx ...uint) T { return a.Data[Offset(a.Shape, idx)] }

func (a Arr[T]) String() string {
	if len(a.Data) > 24 {
		return fmt.Sprintf("%v%v...", a.Shape, a.Data[:24])
	}
	return fmt.Sprintf("%v%v", a.Shape, a.Data)
}

// Ten makes a tensor of the repository out of a reference tensor.
func Ten[T types.Number](a Arr[T]) *tensor.TensorMat[T] {
	return tensor.NewFromValues[T](append([]T{}, a.Data...), CloneU(a.Shape)...)
}

func Sc[T types.Number](v T) *number.Scalar[T] { return &number.Scalar[T]{Value: v} }

// Read observes a tensor through its public accessors, and reports a tensor
// whose accessors disagree with each other.
func Read[T types.Number](c *mon.C, sig string, t tensor.Tensor[T]) Arr[T] {
	if t == nil {
		c.Fail(sig, "no tensor")
	}
	a := Arr[T]{Shape: t.GetShape(), Data: t.GetData()}
	n := Size(a.Shape)
	if len(a.Data) != n || int(t.GetSize()) != n || len(t.GetOperands()) != n {
		c.Fail(sig, "shape %v has %d elements, data has %d, size is %d, elements %d", a.Shape, n, len(a.Data), t.GetSize(), len(t.GetOperands()))
	}
	step := 1
	if n > 96 {
		step = n/64 + 1
	}
	for i := 0; i < n; i += step {
		idx := Index(a.Shape, i)
		v, err := t.Get(idx...)
		if err != nil {
			c.Fail(sig, "reading %v of shape %v: %v", idx, a.Shape, err)
		}
		if !Same(v, a.Data[i]) {
			c.Fail(sig, "element %v reads %v, data says %v", idx, v, a.Data[i])
		}
		if o := t.GetOperands()[i]; o == nil || !Same(o.Value, a.Data[i]) {
			c.Fail(sig, "element %d is not what the data says (%v)", i, a.Data[i])
		}
	}
	c.Ev("elements_observed", n)
	return a
}

// Same is equality where NaN equals NaN and the two zeros are equal.
func Same[T types.Number](a, b T) bool {
	return a == b || (a != a && b != b)
}

func EqShape(a, b []uint) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Eps is the rounding unit of a type, 0 for integers.
func Eps[T types.Number]() float64 {
	var z T
	switch any(z).(type) {
	case float32:
		return 1.0 / (1 << 23)
	case float64:
		return 1.0 / (1 << 52)
	}
	return 0
}

func IsFloat[T types.Number]() bool { return Eps[T]() > 0 }

func TypeName[T types.Number]() string {
	var z T
	return fmt.Sprintf("%T", z)
}

// Close compares within tol relative to scale (both absolute numbers).
func Close(a, b, tol, scale float64) bool {
	if a != a || b != b {
		return a != a && b != b
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return a == b
	}
	if scale < 1 {
		scale = 1
	}
	return math.Abs(a-b) <= tol*scale
}

// MustEqual is the exact oracle.
func MustEqual[T types.Number](c *mon.C, sig string, got, want Arr[T]) {
	if !EqShape(got.Shape, want.Shape) {
		c.Fail(sig, "shape %v, want %v (values %v, want %v)", got.Shape, want.Shape, got, want)
	}
	for i := range want.Data {
		if !Same(got.Data[i], want.Data[i]) {
			c.Fail(sig, "element %v is %v, want %v\n got %v\nwant %v", Index(want.Shape, i), got.Data[i], want.Data[i], got, want)
		}
	}
	c.Eval(1)
}

// MustClose is the oracle for results that may be rounded in any order.
func MustClose[T types.Number](c *mon.C, sig string, got, want Arr[T], tol, scale float64) {
	if tol == 0 {
		MustEqual(c, sig, got, want)
		return
	}
	if !EqShape(got.Shape, want.Shape) {
		c.Fail(sig, "shape %v, want %v", got.Shape, want.Shape)
	}
	for i := range want.Data {
		if !Close(float64(got.Data[i]), float64(want.Data[i]), tol, math.Max(scale, math.Abs(float64(want.Data[i])))) {
			c.Fail(sig, "element %v is %v, want %v\n got %v\nwant %v", Index(want.Shape, i), got.Data[i], want.Data[i], got, want)
		}
	}
	c.Eval(1)
}

// ---- generators ----

// Shape draws a shape of the given rank whose size stays below max.
func Shape(r *mon.Rng, rank, max int) []uint {
	s := make([]uint, rank)
	for {
		n := 1
		for i := range s {
			var d int
			switch r.Intn(6) {
			case 0:
				d = 1
			case 1, 2, 3:
				d = r.Range(1, 5)
			default:
				d = r.Range(2, 9)
			}
			s[i] = uint(d)
			n *= d
		}
		if n <= max {
			return s
		}
	}
}

// AnyShape draws shapes of rank 0 to 6, from single elements to a few thousand.
func AnyShape(r *mon.Rng) []uint {
	switch r.Intn(24) {
	case 0:
		return []uint{}
	case 1:
		return []uint{1}
	case 2:
		return []uint{uint(r.Range(1000, 9000))}
	case 3:
		return []uint{uint(r.Range(2, 70)), uint(r.Range(2, 70))}
	case 4:
		s := make([]uint, r.Range(2, 5))
		for i := range s {
			s[i] = 1
		}
		s[r.Intn(len(s))] = uint(r.Range(1, 40))
		return s
	case 5:
		return []uint{1, 1, 1}
	case 6:
		return Shape(r, 6, 2000)
	case 7:
		return Shape(r, 7, 3000)
	}
	return Shape(r, r.Range(1, 5), 700)
}

// Vals is how the elements of a generated tensor look.
type Vals int

const (
	Small   Vals = iota // integers of [-9, 9]: every sum and product is exact
	Tiny                // integers of [-3, 3]
	Wide                // any value of the type
	Special             // wide, plus NaN, infinities, zeros and denormals
	Unit                // reals of [-1, 1] (integers of [-9, 9] for integer types)
	NonZero             // Small without 0
	Ties                // few distinct values
)

func Val[T types.Number](r *mon.Rng, v Vals) T {
	var z T
	switch v {
	case Small:
		return T(r.Range(-9, 9))
	case Tiny:
		return T(r.Range(-3, 3))
	case Ties:
		return T(r.Range(-1, 1))
	case NonZero:
		for {
			if x := r.Range(-9, 9); x != 0 {
				return T(x)
			}
		}
	case Unit:
		if IsFloat[T]() {
			return T(r.Float()*2 - 1)
		}
		return T(r.Range(-9, 9))
	}
	switch any(z).(type) {
	case float32, float64:
		if v == Special && r.P(0.3) {
			inf := math.Inf(1)
			x := mon.Pick(r, math.NaN(), inf, -inf, 0, math.Copysign(0, -1), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 1e-310, 1e300)
			return T(x)
		}
		x := r.Norm() * math.Pow(10, float64(r.Range(-6, 6)))
		return T(x)
	case int16:
		if r.P(0.2) {
			x := mon.Pick[int64](r, math.MinInt16, math.MaxInt16, 0, -1, 1)
			return T(x)
		}
	case int32:
		if r.P(0.2) {
			x := mon.Pick[int64](r, math.MinInt32, math.MaxInt32, 0, -1, 1)
			return T(x)
		}
	default:
		if r.P(0.2) {
			x := mon.Pick[int64](r, math.MinInt64, math.MaxInt64, 0, -1, 1)
			return T(x)
		}
	}
	return T(int64(r.U64()))
}

func Gen[T types.Number](r *mon.Rng, shape []uint, v Vals) Arr[T] {
	a := NewArr[T](shape)
	for i := range a.Data {
		a.Data[i] = Val[T](r, v)
	}
	return a
}

// ForType calls one of the six instantiations.
func ForType(i int, f32, f64, i0, i16, i32, i64 func()) {
	switch i % 6 {
	case 0:
		f32()
	case 1:
		f64()
	case 2:
		i0()
	case 3:
		i16()
	case 4:
		i32()
	default:
		i64()
	}
}
