package tk

import (
	"fmt"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
)

// Inst is one operation with its operands: how to run it at once, how to run
// it through a graph, and what it must compute.
type Inst[T types.Number] struct {
	Name string
	In   []Arr[T]
	// Eager is nil when the operation only exists for graphs.
	Eager func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error)
	Lazy  func(x []tensor.Tensor[T]) tensor.Tensor[T]
	Want  Arr[T]
	// Ref computes the result for other operands of the same shapes.
	Ref func(x []Arr[T]) Arr[T]
	// Tol 0: exact.
	Tol   float64
	Scale float64
}

func (i Inst[T]) Desc() string {
	s := TypeName[T]() + " " + i.Name
	for _, a := range i.In {
		s += " " + a.String()
	}
	return s
}

type mat[T types.Number] []*tensor.TensorMat[T]

func ok[T types.Number](t *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return t, nil }

// RunEager runs the operation at once on fresh tensors.
func (i Inst[T]) RunEager(c *mon.C) Arr[T] {
	x := make([]*tensor.TensorMat[T], len(i.In))
	for k := range x {
		x[k] = Ten(i.In[k])
	}
	var out *tensor.TensorMat[T]
	var err error
	c.NoPanic("eager-"+i.Name, func() { out, err = i.Eager(x) })
	if err != nil {
		c.Fail("eager-"+i.Name, "valid operands rejected: %v", err)
	}
	c.Ev("eager_ops", 1)
	got := Read[T](c, "eager-"+i.Name, out)
	i.Again(c, x)
	MustEqual(c, "eager-kept-"+i.Name, Read[T](c, "eager-"+i.Name, out), got)
	return got
}

// Again writes other values into the operands x of an earlier call and runs the
// operation at once again: the answer follows the values.
func (i Inst[T]) Again(c *mon.C, x []*tensor.TensorMat[T]) {
	if i.Ref == nil {
		return
	}
	in := make([]Arr[T], len(i.In))
	for k := range in {
		in[k] = i.In[k].Clone()
		d := in[k].Data
		for a, b := 0, len(d)-1; a < b; a, b = a+1, b-1 {
			d[a], d[b] = d[b], d[a]
		}
		if k == 1 && x[1] == x[0] {
			in[1] = in[0]
			continue
		}
		if len(d)%2 == 0 {
			if err := x[k].LoadData(d); err != nil {
				c.Fail("eager-"+i.Name, "own data refused: %v", err)
			}
		} else {
			for a := range d {
				if err := x[k].Set(d[a], Index(in[k].Shape, a)...); err != nil {
					c.Fail("eager-"+i.Name, "index of element %d refused: %v", a, err)
				}
			}
		}
	}
	var out *tensor.TensorMat[T]
	var err error
	c.NoPanic("eager-again-"+i.Name, func() { out, err = i.Eager(x) })
	if err != nil {
		c.Fail("eager-again-"+i.Name, "valid operands rejected the second time: %v", err)
	}
	c.Ev("eager_ops_repeated", 1)
	MustClose(c, "eager-again-"+i.Name, Read[T](c, "eager-again-"+i.Name, out), i.Ref(in), i.Tol, i.Scale)
}

// RunLazy runs the operation through a graph on fresh tensors.
func (i Inst[T]) RunLazy(c *mon.C) Arr[T] {
	x := make([]tensor.Tensor[T], len(i.In))
	for k := range x {
		x[k] = Ten(i.In[k])
	}
	var out tensor.Tensor[T]
	c.NoPanic("graph-"+i.Name, func() {
		out = i.Lazy(x)
		g, err := graph.NewGraph[T](out)
		if err != nil {
			c.Fail("graph-"+i.Name, "valid operands rejected: %v", err)
		}
		g.Exec()
	})
	c.Ev("graph_ops", 1)
	return Read[T](c, "graph-"+i.Name, out)
}

// Decide runs the operation both ways against the oracle.
func (i Inst[T]) Decide(c *mon.C) {
	c.Desc("%s", i.Desc())
	MustClose(c, "graph-"+i.Name, i.RunLazy(c), i.Want, i.Tol, i.Scale)
	if i.Eager != nil {
		MustClose(c, "eager-"+i.Name, i.RunEager(c), i.Want, i.Tol, i.Scale)
	}
	sh := ""
	for _, a := range i.In {
		sh += fmt.Sprint(a.Shape)
	}
	c.Distinct("%s %s %s", TypeName[T](), i.Name, sh)
}

// ---- elementwise ----

var Elementwise = []string{"add", "sub", "mul", "div", "adds", "subs", "muls", "divs", "neg", "abs", "activate"}

func noZero[T types.Number](a Arr[T]) {
	if IsFloat[T]() {
		return
	}
	for i := range a.Data {
		if a.Data[i] == 0 {
			a.Data[i] = 1
		}
	}
}

func ElemInst[T types.Number](r *mon.Rng, name string, shape []uint, v Vals) Inst[T] {
	i := Inst[T]{Name: name}
	a := Gen[T](r, shape, v)
	bin := func(lazy func(a, b tensor.Tensor[T]) tensor.Tensor[T], eager func(a, b *tensor.TensorMat[T]) (*tensor.TensorMat[T], error), f func(x, y T) T) {
		b := Gen[T](r, shape, v)
		if name == "div" {
			noZero(b)
		}
		i.In = []Arr[T]{a, b}
		i.Ref = func(x []Arr[T]) Arr[T] { return Zip(x[0], x[1], f) }
		i.Lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return lazy(x[0], x[1]) }
		i.Eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return eager(x[0], x[1]) }
	}
	un := func(lazy func(a tensor.Tensor[T]) tensor.Tensor[T], eager func(a *tensor.TensorMat[T]) *tensor.TensorMat[T], f func(x T) T) {
		i.In = []Arr[T]{a}
		i.Ref = func(x []Arr[T]) Arr[T] { return Map(x[0], f) }
		i.Lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return lazy(x[0]) }
		i.Eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return ok(eager(x[0])) }
	}
	s := Val[T](r, v)
	if name == "divs" && !IsFloat[T]() && s == 0 {
		s = 3
	}
	switch name {
	case "add":
		bin(tensor.Add[T], (*tensor.TensorMat[T]).Add, func(x, y T) T { return x + y })
	case "sub":
		bin(tensor.Sub[T], (*tensor.TensorMat[T]).Sub, func(x, y T) T { return x - y })
	case "mul":
		bin(tensor.Mul[T], (*tensor.TensorMat[T]).Mul, func(x, y T) T { return x * y })
	case "div":
		bin(tensor.Div[T], (*tensor.TensorMat[T]).Div, func(x, y T) T { return x / y })
	case "adds":
		un(func(a tensor.Tensor[T]) tensor.Tensor[T] { return tensor.AddScalar(a, Sc(s)) },
			func(a *tensor.TensorMat[T]) *tensor.TensorMat[T] { return a.AddScalar(Sc(s)) }, func(x T) T { return x + s })
	case "subs":
		un(func(a tensor.Tensor[T]) tensor.Tensor[T] { return tensor.SubScalar(a, Sc(s)) },
			func(a *tensor.TensorMat[T]) *tensor.TensorMat[T] { return a.SubScalar(Sc(s)) }, func(x T) T { return x - s })
	case "muls":
		un(func(a tensor.Tensor[T]) tensor.Tensor[T] { return tensor.MulScalar(a, Sc(s)) },
			func(a *tensor.TensorMat[T]) *tensor.TensorMat[T] { return a.MulScalar(Sc(s)) }, func(x T) T { return x * s })
	case "divs":
		un(func(a tensor.Tensor[T]) tensor.Tensor[T] { return tensor.DivScalar(a, Sc(s)) },
			func(a *tensor.TensorMat[T]) *tensor.TensorMat[T] { return a.DivScalar(Sc(s)) }, func(x T) T { return x / s })
	case "neg":
		un(tensor.Neg[T], (*tensor.TensorMat[T]).Neg, func(x T) T { return -x })
	case "abs":
		un(tensor.Abs[T], (*tensor.TensorMat[T]).Abs, func(x T) T {
			if x < 0 {
				return -x
			}
			return x
		})
	case "activate":
		k := T(r.Range(2, 5))
		f := func(x T) T { return x*k + 1 }
		un(func(a tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Activate(a, f) },
			func(a *tensor.TensorMat[T]) *tensor.TensorMat[T] { return a.Activate(f) }, f)
	default:
		panic("tk: elementwise " + name)
	}
	i.Want = i.Redo()
	return i
}

// ---- reductions ----

var Reductions = []string{"sum", "avg", "max", "min", "dsum", "davg", "dmax", "dmin", "softmax"}

// RedInst makes a reduction of a, whose rank must be at least 1 for the d*
// forms. exact says that every partial sum of a is representable.
func RedInst[T types.Number](r *mon.Rng, name string, a Arr[T], exact bool) Inst[T] {
	i := Inst[T]{Name: name, In: []Arr[T]{a}}
	scale := 0.0
	if !exact && IsFloat[T]() {
		for _, x := range a.Data {
			if x < 0 {
				x = -x
			}
			scale += float64(x)
		}
	}
	tol := Eps[T]() * 4 * float64(len(a.Data)+2)
	all := func(lazy func(tensor.Tensor[T]) tensor.Tensor[T], eager func(*tensor.TensorMat[T]) *tensor.TensorMat[T], f func([]T) T) {
		i.Ref = func(x []Arr[T]) Arr[T] { return ReduceAll(x[0], f) }
		i.Lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return lazy(x[0]) }
		i.Eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return ok(eager(x[0])) }
	}
	dim := func(lazy func(tensor.Tensor[T], uint) tensor.Tensor[T], eager func(*tensor.TensorMat[T], uint) (*tensor.TensorMat[T], error), f func([]T) T) {
		d := uint(r.Intn(len(a.Shape)))
		i.Name = fmt.Sprintf("%s(%d)", name, d)
		i.Ref = func(x []Arr[T]) Arr[T] { return ReduceAfter(x[0], d, f) }
		i.Lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return lazy(x[0], d) }
		i.Eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return eager(x[0], d) }
	}
	switch name {
	case "sum":
		all(tensor.Sum[T], (*tensor.TensorMat[T]).Sum, RSum[T])
	case "avg":
		all(tensor.Avg[T], (*tensor.TensorMat[T]).Avg, RAvg[T])
	case "max":
		all(tensor.Max[T], (*tensor.TensorMat[T]).Max, RMax[T])
	case "min":
		all(tensor.Min[T], (*tensor.TensorMat[T]).Min, RMin[T])
	case "dsum":
		dim(tensor.DSum[T], (*tensor.TensorMat[T]).DSum, RSum[T])
	case "davg":
		dim(tensor.DAvg[T], (*tensor.TensorMat[T]).DAvg, RAvg[T])
	case "dmax":
		dim(tensor.DMax[T], (*tensor.TensorMat[T]).DMax, RMax[T])
	case "dmin":
		dim(tensor.DMin[T], (*tensor.TensorMat[T]).DMin, RMin[T])
	case "softmax":
		i.Ref = func(x []Arr[T]) Arr[T] { return SoftMax(x[0]) }
		i.Want = i.Redo()
		i.Lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.SoftMax(x[0]) }
		i.Eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return ok(x[0].SoftMax()) }
		if IsFloat[T]() {
			i.Tol, i.Scale = tol, 1
		}
		return i
	default:
		panic("tk: reduction " + name)
	}
	i.Want = i.Redo()
	switch name {
	case "sum", "dsum":
		if !exact && IsFloat[T]() {
			i.Tol, i.Scale = tol, scale
		}
	case "avg", "davg":
		if IsFloat[T]() {
			i.Tol, i.Scale = tol, scale
		}
	}
	return i
}

// ---- rearrangements ----

var Rearrangements = []string{"reshape", "flatten", "transpose", "sub", "subext", "concat"}

func RearrInst[T types.Number](r *mon.Rng, name string, shape []uint, v Vals) Inst[T] {
	if len(shape) == 0 && (name == "sub" || name == "subext" || name == "concat") {
		shape = []uint{uint(r.Range(1, 4))}
	}
	a := Gen[T](r, shape, v)
	i := Inst[T]{Name: name, In: []Arr[T]{a}}
	switch name {
	case "reshape":
		var to []uint
		switch r.Intn(4) {
		case 0: // any size: padded with zeros or truncated
			to = Shape(r, r.Range(1, 4), 400)
		case 1:
			to = []uint{uint(Size(shape))}
		case 2: // same size, other factors
			to = Refactor(r, Size(shape))
		default:
			to = CloneU(shape)
			for k := len(to) - 1; k > 0; k-- {
				j := r.Intn(k + 1)
				to[k], to[j] = to[j], to[k]
			}
		}
		i.Name = fmt.Sprintf("reshape(%v)", to)
		i.Ref = func(x []Arr[T]) Arr[T] { return Reshape(x[0], to) }
		i.Lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Reshape(x[0], CloneU(to)...) }
		i.Eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return ok(x[0].Reshape(CloneU(to)...)) }
	case "flatten":
		i.Ref = func(x []Arr[T]) Arr[T] { return Reshape(x[0], []uint{uint(len(x[0].Data))}) }
		i.Lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Flatten(x[0]) }
	case "transpose":
		i.Ref = func(x []Arr[T]) Arr[T] { return Transpose(x[0]) }
		i.Lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Transpose(x[0]) }
		i.Eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return x[0].Transpose() }
	case "sub":
		d := uint(r.Intn(len(shape)))
		from := uint(r.Intn(int(shape[d])))
		to := from + uint(r.Range(1, int(shape[d]-from)))
		i.Name = fmt.Sprintf("sub(%d,%d,%d)", d, from, to)
		i.Ref = func(x []Arr[T]) Arr[T] { return Slice(x[0], d, from, to, 0) }
		i.Lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.SubTensor(x[0], d, from, to) }
		i.Eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return x[0].SubTensor(d, from, to) }
	case "subext":
		d := uint(r.Intn(len(shape)))
		from := uint(r.Intn(int(shape[d]) + 3))
		to := from + uint(r.Range(1, 5))
		if r.P(0.2) {
			to = from + shape[d] + uint(r.Intn(4)) + 1
		}
		i.Name = fmt.Sprintf("subext(%d,%d,%d)", d, from, to)
		i.Ref = func(x []Arr[T]) Arr[T] { return Slice(x[0], d, from, to, 0) }
		i.Lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.SubExtendedTensor(x[0], d, from, to) }
		i.Eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return x[0].FOSubTensor(d, from, to, 0) }
	case "concat":
		d := uint(r.Intn(len(shape)))
		sb := CloneU(shape)
		if r.P(0.7) {
			sb[d] = uint(r.Range(1, 6))
		}
		b := Gen[T](r, sb, v)
		i.In = append(i.In, b)
		i.Name = fmt.Sprintf("concat(%d)", d)
		i.Ref = func(x []Arr[T]) Arr[T] { return Concat(x[0], x[1], d) }
		i.Lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Concat(x[0], x[1], d) }
		i.Eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return x[0].Concat(x[1], d) }
	default:
		panic("tk: rearrangement " + name)
	}
	i.Want = i.Redo()
	return i
}

// Refactor splits n into a random shape of the same size.
func Refactor(r *mon.Rng, n int) []uint {
	var out []uint
	for n > 1 && len(out) < 5 {
		var fs []int
		for f := 2; f <= n && f < 200; f++ {
			if n%f == 0 {
				fs = append(fs, f)
			}
		}
		if len(fs) == 0 {
			break
		}
		f := fs[r.Intn(len(fs))]
		out = append(out, uint(f))
		n /= f
	}
	if n > 1 || len(out) == 0 {
		out = append(out, uint(n))
	}
	if r.P(0.3) {
		k := r.Intn(len(out) + 1)
		out = append(out[:k], append([]uint{1}, out[k:]...)...)
	}
	return out
}

// ---- dot products ----

func DotInst[T types.Number](r *mon.Rng, v Vals, at bool, maxRank, maxSize int) Inst[T] {
	for {
		sa := Shape(r, r.Range(1, maxRank), maxSize)
		sb := Shape(r, r.Range(1, maxRank), maxSize)
		da, db := DotDims(sa, sb)
		if at {
			da, db = uint(r.Intn(len(sa))), uint(r.Intn(len(sb)))
		}
		sb[db] = sa[da]
		if r.P(0.1) {
			k := uint(r.Range(10, 300))
			sa[da], sb[db] = k, k
		}
		if Size(sa)*Size(sb)/int(sa[da]) > maxSize*40 {
			continue
		}
		return DotOf[T](r, v, sa, sb, da, db, at)
	}
}

func DotOf[T types.Number](r *mon.Rng, v Vals, sa, sb []uint, da, db uint, at bool) Inst[T] {
	a, b := Gen[T](r, sa, v), Gen[T](r, sb, v)
	i := Inst[T]{In: []Arr[T]{a, b}, Ref: func(x []Arr[T]) Arr[T] { return DotAt(x[0], x[1], da, db) }}
	i.Want = i.Redo()
	if at {
		i.Name = fmt.Sprintf("dotat(%d,%d)", da, db)
		i.Lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.DotAt(x[0], x[1], da, db) }
		i.Eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return x[0].DotAt(x[1], da, db) }
	} else {
		i.Name = "dot"
		i.Lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Dot(x[0], x[1]) }
		i.Eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return x[0].Dot(x[1]) }
	}
	if IsFloat[T]() && v != Small && v != Tiny {
		n := float64(sa[da])
		i.Tol, i.Scale = Eps[T]()*4*(n+2), n
	}
	return i
}

// Exec builds and runs the graph of t and reads the result.
func Exec[T types.Number](c *mon.C, sig string, t tensor.Tensor[T]) Arr[T] {
	c.NoPanic(sig, func() {
		g, err := graph.NewGraph[T](t)
		if err != nil {
			c.Fail(sig, "valid expression rejected: %v", err)
		}
		g.Exec()
	})
	c.Ev("graph_ops", 1)
	return Read[T](c, sig, t)
}

// Redo recomputes what a rearrangement must give for its current operands.
func (i Inst[T]) Redo() Arr[T] { return i.Ref(i.In) }
