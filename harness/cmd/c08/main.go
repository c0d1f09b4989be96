// C08: operations that make no sense for their operands are errors: no panic, no
// result, no change of the operands; wherever they sit in an expression.
package main

import (
	"math"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/tools"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/tk"
)

type wrong[T types.Number] struct {
	name  string
	in    []tk.Arr[T]
	eager func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error)
	lazy  func(x []tensor.Tensor[T]) tensor.Tensor[T]
}

// other is a shape that differs from s, biased to confusable ones.
func other(r *mon.Rng, s []uint) []uint {
	for {
		o := tk.CloneU(s)
		switch r.Intn(8) {
		case 0: // same size, other shape
			o = tk.Refactor(r, tk.Size(s))
		case 1:
			for k := len(o) - 1; k > 0; k-- {
				j := r.Intn(k + 1)
				o[k], o[j] = o[j], o[k]
			}
		case 2:
			o = append(o, 1)
		case 3:
			o = append([]uint{1}, o...)
		case 4:
			if len(o) > 0 {
				o = o[:len(o)-1]
			}
		case 5:
			if len(o) > 0 {
				o[len(o)-1]++
			}
		case 6:
			if len(o) > 0 {
				o[r.Intn(len(o))] = 1
			}
		default:
			if len(o) > 0 {
				d := r.Intn(len(o))
				if o[d] > 1 && r.Bool() {
					o[d]--
				} else {
					o[d] += uint(r.Range(1, 3))
				}
			}
		}
		if !tk.EqShape(o, s) {
			return o
		}
	}
}

func past(r *mon.Rng, rank int) uint {
	return uint(rank) + mon.Pick[uint](r, 0, 0, 0, 0, 1, 2, 9, math.MaxUint32, math.MaxInt64, math.MaxUint64-10)
}

var kinds = []string{"add", "sub", "mul", "div", "dot", "dotat", "dotat-dim", "dot-rank0", "dotvector", "dsum", "davg", "dmax", "dmin",
	"cut-dim", "cut-range", "cut-end", "cut-start", "ext-dim", "ext-range", "concat-rank", "concat-dim", "concat-shape", "copy"}

func make1[T types.Number](r *mon.Rng, kind string) wrong[T] {
	w := wrong[T]{name: kind}
	shape := tk.Shape(r, r.Range(1, 4), 300)
	gen := func(s []uint) tk.Arr[T] { return tk.Gen[T](r, s, tk.NonZero) }
	switch kind {
	case "add", "sub", "mul", "div":
		if r.P(0.05) {
			shape = []uint{}
		}
		w.in = []tk.Arr[T]{gen(shape), gen(other(r, shape))}
		if r.Bool() {
			w.in[0], w.in[1] = w.in[1], w.in[0]
		}
		switch kind {
		case "add":
			w.lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Add(x[0], x[1]) }
			w.eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return x[0].Add(x[1]) }
		case "sub":
			w.lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Sub(x[0], x[1]) }
			w.eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return x[0].Sub(x[1]) }
		case "mul":
			w.lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Mul(x[0], x[1]) }
			w.eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return x[0].Mul(x[1]) }
		case "div":
			w.lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Div(x[0], x[1]) }
			w.eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return x[0].Div(x[1]) }
		}
	case "dot", "dotat", "dotat-dim":
		sa, sb := tk.Shape(r, r.Range(1, 4), 200), tk.Shape(r, r.Range(1, 4), 200)
		da, db := tk.DotDims(sa, sb)
		if kind != "dot" {
			da, db = uint(r.Intn(len(sa))), uint(r.Intn(len(sb)))
		}
		sb[db] = sa[da]
		if kind == "dotat-dim" {
			switch r.Intn(3) {
			case 0:
				da = past(r, len(sa))
			case 1:
				db = past(r, len(sb))
			default:
				da, db = past(r, len(sa)), past(r, len(sb))
			}
		} else if sb[db] > 1 && r.Bool() {
			sb[db] -= uint(r.Range(1, int(sb[db]-1)))
		} else {
			sb[db] += uint(r.Range(1, 3))
		}
		w.in = []tk.Arr[T]{gen(sa), gen(sb)}
		if kind == "dot" {
			w.lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Dot(x[0], x[1]) }
			w.eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return x[0].Dot(x[1]) }
		} else {
			w.lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.DotAt(x[0], x[1], da, db) }
			w.eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return x[0].DotAt(x[1], da, db) }
		}
	case "dot-rank0":
		w.in = []tk.Arr[T]{gen([]uint{}), gen(shape)}
		if r.Bool() {
			w.in[0], w.in[1] = w.in[1], w.in[0]
		}
		w.lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Dot(x[0], x[1]) }
		w.eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return x[0].Dot(x[1]) }
	case "dotvector":
		n := uint(r.Range(1, 20))
		w.in = []tk.Arr[T]{gen([]uint{n}), gen([]uint{n + uint(r.Range(1, 9))})}
		if r.Bool() {
			w.in[0], w.in[1] = w.in[1], w.in[0]
		}
		w.eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return x[0].DotVector(x[1]) }
	case "dsum", "davg", "dmax", "dmin":
		d := past(r, len(shape))
		w.in = []tk.Arr[T]{gen(shape)}
		m := map[string]func(tensor.Tensor[T], uint) tensor.Tensor[T]{"dsum": tensor.DSum[T], "davg": tensor.DAvg[T], "dmax": tensor.DMax[T], "dmin": tensor.DMin[T]}[kind]
		e := map[string]func(*tensor.TensorMat[T], uint) (*tensor.TensorMat[T], error){"dsum": (*tensor.TensorMat[T]).DSum, "davg": (*tensor.TensorMat[T]).DAvg,
			"dmax": (*tensor.TensorMat[T]).DMax, "dmin": (*tensor.TensorMat[T]).DMin}[kind]
		w.lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return m(x[0], d) }
		w.eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return e(x[0], d) }
	case "cut-dim", "cut-range", "cut-end", "cut-start", "ext-dim", "ext-range":
		d := uint(r.Intn(len(shape)))
		from := uint(r.Intn(int(shape[d])))
		to := from + uint(r.Range(1, int(shape[d]-from)))
		switch kind[4:] {
		case "dim":
			d = past(r, len(shape))
		case "range":
			from = uint(r.Intn(int(shape[d]) + 1))
			to = uint(r.Intn(int(from) + 1))
		case "end":
			to = shape[d] + uint(r.Range(1, 3))
		case "start":
			from = shape[d] + uint(r.Intn(3))
			to = from + uint(r.Range(1, 3))
		}
		w.in = []tk.Arr[T]{gen(shape)}
		if kind[:3] == "cut" {
			w.lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.SubTensor(x[0], d, from, to) }
			w.eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return x[0].SubTensor(d, from, to) }
		} else {
			w.lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.SubExtendedTensor(x[0], d, from, to) }
			w.eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return x[0].FOSubTensor(d, from, to, 0) }
		}
	case "concat-rank", "concat-dim", "concat-shape":
		d := uint(r.Intn(len(shape)))
		sb := tk.CloneU(shape)
		switch kind {
		case "concat-rank":
			switch {
			case r.Bool():
				sb = append(sb, mon.Pick[uint](r, 1, 1, 2, 3))
			case r.Bool() || len(sb) == 1:
				sb = append([]uint{1}, sb...)
			default:
				sb = sb[:len(sb)-1]
				if int(d) >= len(sb) {
					d = uint(r.Intn(len(sb)))
				}
			}
		case "concat-dim":
			d = past(r, len(shape))
		case "concat-shape":
			if len(shape) == 1 {
				shape = append(shape, uint(r.Range(1, 5)))
				sb = tk.CloneU(shape)
			}
			k := uint(r.Intn(len(shape)))
			for k == d {
				k = uint(r.Intn(len(shape)))
			}
			if sb[k] > 1 && r.Bool() {
				sb[k]--
			} else {
				sb[k] += uint(r.Range(1, 3))
			}
			sb[d] = uint(r.Range(1, 4))
		}
		w.in = []tk.Arr[T]{gen(shape), gen(sb)}
		if r.Bool() {
			w.in[0], w.in[1] = w.in[1], w.in[0]
		}
		w.lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Concat(x[0], x[1], d) }
		w.eager = func(x []*tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return x[0].Concat(x[1], d) }
	case "copy":
		so := other(r, shape)
		for tk.Size(so) == tk.Size(shape) {
			so = other(r, shape)
		}
		w.in = []tk.Arr[T]{gen(shape), gen(so)}
		w.lazy = func(x []tensor.Tensor[T]) tensor.Tensor[T] { return tensor.CopyTo(x[0], x[1]) }
	default:
		panic(kind)
	}
	return w
}

type watch[T types.Number] struct {
	t    tensor.Tensor[T]
	val  tk.Arr[T]
	ptrs []*number.Scalar[T]
}

func (w watch[T]) check(c *mon.C, sig string) {
	tk.MustEqual(c, sig, tk.Read[T](c, sig, w.t), w.val)
	for i, o := range w.t.GetOperands() {
		if o != w.ptrs[i] {
			c.Fail(sig, "element %d of an operand was replaced", i)
		}
	}
	c.Ev("operands_watched", 1)
}

// nest puts t somewhere inside a bigger expression.
func nest[T types.Number](c *mon.C, t tensor.Tensor[T], depth int) (tensor.Tensor[T], string) {
	r := c.R
	how := ""
	// the shape of an invalid expression is unknown, so the other operands are guesses
	any1 := func() tensor.Tensor[T] { return tk.Ten(tk.Gen[T](r, tk.Shape(r, r.Range(1, 3), 60), tk.NonZero)) }
	for k := 0; k < depth; k++ {
		switch r.Intn(18) {
		case 0:
			t, how = tensor.Neg(t), how+" neg"
		case 1:
			t, how = tensor.Abs(t), how+" abs"
		case 2:
			t, how = tensor.AddScalar(t, tk.Sc[T](1)), how+" adds"
		case 3:
			t, how = tensor.Add(t, any1()), how+" add1"
		case 4:
			t, how = tensor.Mul(any1(), t), how+" mul2"
		case 5:
			t, how = tensor.Sum(t), how+" sum"
		case 6:
			t, how = tensor.DMax(t, 0), how+" dmax"
		case 7:
			t, how = tensor.SoftMax(t), how+" softmax"
		case 8:
			t, how = tensor.Reshape(t, 2, 3), how+" reshape"
		case 9:
			t, how = tensor.Flatten(t), how+" flatten"
		case 10:
			t, how = tensor.Transpose(t), how+" transpose"
		case 11:
			t, how = tensor.SubTensor(t, 0, 0, 1), how+" sub"
		case 12:
			t, how = tensor.Concat(any1(), t, 0), how+" concat2"
		case 13:
			t, how = tensor.Concat(t, any1(), 0), how+" concat1"
		case 14:
			t, how = tensor.Dot(t, any1()), how+" dot1"
		case 15:
			t, how = tensor.Dot(any1(), t), how+" dot2"
		case 16:
			t, how = tensor.Activate(t, func(x T) T { return x }), how+" activate"
		default:
			switch r.Intn(3) {
			case 0:
				t, how = tensor.CopyTo(t, any1()), how+" copy1"
			case 1:
				t, how = tensor.CopyTo(any1(), t), how+" copy2"
			default:
				t, how = tensor.FillWith(t, tk.Sc[T](4)), how+" fill"
			}
		}
	}
	return t, how
}

func run[T types.Number](c *mon.C, kind string) {
	r := c.R
	w := make1[T](r, kind)
	c.Desc("%s invalid %s of %v", tk.TypeName[T](), kind, w.in)
	mk := func() ([]*tensor.TensorMat[T], []tensor.Tensor[T], []watch[T]) {
		x := make([]*tensor.TensorMat[T], len(w.in))
		y := make([]tensor.Tensor[T], len(w.in))
		var ws []watch[T]
		for k := range x {
			x[k] = tk.Ten(w.in[k])
			y[k] = x[k]
			ws = append(ws, watch[T]{x[k], w.in[k], append([]*number.Scalar[T]{}, x[k].Operands...)})
		}
		return x, y, ws
	}
	if w.eager != nil {
		x, _, ws := mk()
		var out *tensor.TensorMat[T]
		var err error
		c.NoPanic("eager-"+kind, func() { out, err = w.eager(x) })
		if err == nil {
			c.Fail("eager-"+kind, "no error (result %v)", out)
		}
		if err.Error() == "" {
			c.Fail("eager-"+kind, "an error without a message")
		}
		if out != nil {
			c.Fail("eager-"+kind, "an error and a result")
		}
		for _, m := range ws {
			m.check(c, "eager-"+kind)
		}
		c.Ev("eager_rejections", 1)
	}
	if w.lazy != nil {
		depth := 0
		if r.P(0.6) {
			depth = r.Range(1, 5)
		}
		_, y, ws := mk()
		how := ""
		c.NoPanic("graph-"+kind, func() {
			bad := w.lazy(y)
			var t tensor.Tensor[T]
			t, how = nest(c, bad, depth)
			g, err := graph.NewGraph[T](t)
			if err == nil {
				c.Fail("graph-"+kind, "no error, inside%s", how)
			}
			if err.Error() == "" {
				c.Fail("graph-"+kind, "an error without a message")
			}
			if g != nil {
				c.Fail("graph-"+kind, "an error and a graph")
			}
			// the refusal stands: tried again, and as a part of another expression
			for k := r.Intn(3); k > 0; k-- {
				u, in := t, how
				if r.Bool() {
					u, in = nest(c, mon.Pick(r, t, bad), r.Intn(3))
				}
				if g, err := graph.NewGraph[T](u); err == nil || g != nil {
					c.Fail("again-"+kind, "refused inside%s, then accepted inside%s", how, in)
				}
				c.Ev("repeated_rejections", 1)
			}
		})
		c.Note("inside%s", how)
		for _, m := range ws {
			m.check(c, "graph-"+kind)
		}
		c.Ev("graph_rejections", 1)
		if depth > 0 {
			c.Ev("nested_rejections", 1)
		}
		c.Distinct("%s %s %s %v", tk.TypeName[T](), kind, how, shapes(w.in))
	}
	c.Eval(1)
}

func shapes[T types.Number](in []tk.Arr[T]) [][]uint {
	var out [][]uint
	for _, a := range in {
		out = append(out, a.Shape)
	}
	return out
}

// loads: data of the wrong size or shape is not loaded, not even partly.
func loads[T types.Number](c *mon.C) {
	r := c.R
	a := tk.Gen[T](r, tk.AnyShape(r), tk.Small)
	t := tk.Ten(a)
	ptrs := append([]*number.Scalar[T]{}, t.Operands...)
	w := watch[T]{t, a, ptrs}
	c.Desc("loading the wrong data into %v", a.Shape)
	n := len(a.Data)
	for k := 0; k < 4; k++ {
		m := n + mon.Pick(r, -1, 1, 2, -2, n, -n, -n/2, 10)
		if m < 0 || m == n {
			m = n + 1
		}
		var err error
		c.NoPanic("loaddata", func() { err = t.LoadData(tk.Gen[T](r, []uint{uint(m)}, tk.Wide).Data) })
		if err == nil {
			c.Fail("loaddata", "%d values accepted for a tensor of %d", m, n)
		}
		w.check(c, "loaddata")
		o := other(r, a.Shape)
		src := tk.Ten(tk.Gen[T](r, o, tk.Wide))
		sv := tk.Read[T](c, "loadtensor", src)
		c.NoPanic("loadtensor", func() { err = t.LoadFromTensor(src) })
		if err == nil {
			c.Fail("loadtensor", "shape %v accepted by a tensor of shape %v", o, a.Shape)
		}
		w.check(c, "loadtensor")
		tk.MustEqual(c, "loadtensor", tk.Read[T](c, "loadtensor", src), sv)
		x, y := tk.Gen[T](r, []uint{uint(n)}, tk.Small).Data, tk.Gen[T](r, []uint{uint(m)}, tk.Small).Data
		c.NoPanic("distant", func() { _, err = tools.Distant(x, y) })
		if err == nil {
			c.Fail("distant", "a distance between %d and %d values", n, m)
		}
		c.Ev("load_rejections", 3)
	}
	c.Distinct("loads %s %v", tk.TypeName[T](), a.Shape)
}

func main() {
	mon.Main(mon.Check{
		ID:    "C08",
		Scale: 12,
		Rule:  "one case = one invalid combination of operands, tried at once and inside a random expression, with the operands watched; distinct by element type, kind of mistake, surrounding expression and shapes",
		Need:  map[string]int64{"eager_rejections": 5000, "graph_rejections": 5000, "nested_rejections": 2000, "operands_watched": 10000, "load_rejections": 5000},
		Groups: []mon.Group{
			{Name: "ops", Quick: 6 * len(kinds) * 250, Thorough: 6 * len(kinds) * 4000, Run: func(c *mon.C) {
				k := kinds[(c.Index/6)%len(kinds)]
				tk.ForType(c.Index, func() { run[float32](c, k) }, func() { run[float64](c, k) }, func() { run[int](c, k) },
					func() { run[int16](c, k) }, func() { run[int32](c, k) }, func() { run[int64](c, k) })
			}},
			{Name: "loads", Quick: 6000, Thorough: 60000, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { loads[float32](c) }, func() { loads[float64](c) }, func() { loads[int](c) },
					func() { loads[int16](c) }, func() { loads[int32](c) }, func() { loads[int64](c) })
			}},
		},
	})
}
