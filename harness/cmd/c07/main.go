// C07: row-major addressing; bad indices are errors and change nothing.
package main

import (
	"math"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/tools"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/tk"
)

// origin makes a tensor with the values of a, in one of the ways a user gets one.
func origin[T types.Number](c *mon.C, a tk.Arr[T]) (tensor.Tensor[T], string) {
	r := c.R
	exec := func(t tensor.Tensor[T]) tensor.Tensor[T] {
		g, err := graph.NewGraph[T](t)
		if err != nil {
			c.Fail("origin", "%v", err)
		}
		g.Exec()
		return t
	}
	switch r.Intn(9) {
	case 0:
		return exec(tensor.AddScalar[T](tk.Ten(a), tk.Sc[T](0))), "graph result"
	case 1:
		return exec(tensor.Reshape[T](tk.Ten(tk.Reshape(a, []uint{uint(len(a.Data))})), tk.CloneU(a.Shape)...)), "graph reshape"
	case 2:
		return exec(tensor.Transpose[T](tk.Ten(tk.Transpose(a)))), "graph transpose"
	case 3:
		return tk.Ten(a).Copy(), "copy"
	case 4:
		t, err := tk.Ten(tk.Transpose(a)).Transpose()
		if err != nil {
			c.Fail("origin", "%v", err)
		}
		return t, "transpose"
	case 5:
		return tk.Ten(a).Reshape(tk.CloneU(a.Shape)...), "reshape"
	case 6:
		t := tensor.NewZeros[T](tk.CloneU(a.Shape)...)
		if err := t.LoadData(append([]T{}, a.Data...)); err != nil {
			c.Fail("origin", "%v", err)
		}
		return t, "load"
	case 7:
		if len(a.Shape) > 0 {
			// cut out of something bigger
			d := uint(r.Intn(len(a.Shape)))
			sh := tk.CloneU(a.Shape)
			sh[d] = uint(r.Range(1, 3))
			big := tk.Concat(tk.Concat(tk.Gen[T](r, sh, tk.Small), a, d), tk.Gen[T](r, sh, tk.Small), d)
			return exec(tensor.SubTensor[T](tk.Ten(big), d, sh[d], sh[d]+a.Shape[d])), "graph sub-tensor"
		}
	}
	return tk.Ten(a), "values"
}

func unchanged[T types.Number](c *mon.C, sig string, t tensor.Tensor[T], want tk.Arr[T]) {
	tk.MustEqual(c, sig, tk.Read[T](c, sig, t), want)
}

func run[T types.Number](c *mon.C) {
	r := c.R
	a := tk.Gen[T](r, tk.AnyShape(r), tk.Wide)
	for i := range a.Data { // recognisable elements
		if r.P(0.7) {
			a.Data[i] = T(i)
		}
	}
	t, how := origin(c, a)
	c.Desc("%s tensor %v from %s", tk.TypeName[T](), a.Shape, how)
	address(c, t, a, how)
}

// result: the result of any operation, at once or of an executed graph, is a
// tensor like any other.
func result[T types.Number](c *mon.C, op string) {
	in := tk.AnyInst[T](c.R, op)
	var t tensor.Tensor[T]
	how := "graph of " + op
	c.NoPanic("origin", func() {
		if in.Eager != nil && c.R.Bool() {
			how = "result of " + op
			x := make([]*tensor.TensorMat[T], len(in.In))
			for k := range x {
				x[k] = tk.Ten(in.In[k])
			}
			m, err := in.Eager(x)
			if err != nil {
				c.Fail("origin", "%v", err)
			}
			t = m
			return
		}
		x := make([]tensor.Tensor[T], len(in.In))
		for k := range x {
			x[k] = tk.Ten(in.In[k])
		}
		t = in.Lazy(x)
		g, err := graph.NewGraph[T](t)
		if err != nil {
			c.Fail("origin", "%v", err)
		}
		g.Exec()
	})
	c.Desc("%s %s: %s", tk.TypeName[T](), how, in.Desc())
	a := tk.Read[T](c, "read", t)
	if len(a.Data) == 0 {
		return
	}
	// recognisable elements
	for i := range a.Data {
		if err := t.Set(T(i), tk.Index(a.Shape, i)...); err != nil {
			c.Fail("set", "%v", err)
		}
		a.Data[i] = T(i)
	}
	address(c, t, a, how)
}

func address[T types.Number](c *mon.C, t tensor.Tensor[T], a tk.Arr[T], how string) {
	r := c.R
	unchanged(c, "read", t, a)
	n := len(a.Data)
	// every element through every accessor (or a random half of a large tensor)
	for i := 0; i < n; i++ {
		if n > 2000 && r.P(0.7) {
			continue
		}
		idx := tk.Index(a.Shape, i)
		o, err := t.GetOperand(idx...)
		if err != nil || o != t.GetOperands()[i] {
			c.Fail("operand", "element %v is not the %d-th element: %v", idx, i, err)
		}
		v, err := t.Get(idx...)
		if err != nil || !tk.Same(v, a.Data[i]) {
			c.Fail("get", "element %v is %v, want %v: %v", idx, v, a.Data[i], err)
		}
	}
	c.Ev("reads", n)
	// a history of writes
	for k := r.Range(1, 40); k > 0 && n > 0; k-- {
		i := r.Intn(n)
		idx := tk.Index(a.Shape, i)
		v := tk.Val[T](r, tk.Wide)
		if err := t.Set(v, idx...); err != nil {
			c.Fail("set", "%v of shape %v: %v", idx, a.Shape, err)
		}
		a.Data[i] = v
		c.Ev("writes", 1)
	}
	unchanged(c, "set", t, a)
	// indices that name no element
	bad := func(idx []uint) {
		var err error
		keep := tk.CloneU(idx)
		c.NoPanic("bad-get", func() { _, err = t.Get(idx...) })
		if err == nil {
			c.Fail("bad-get", "reading %v of shape %v gave no error", idx, a.Shape)
		}
		c.NoPanic("bad-set", func() { err = t.Set(T(111), idx...) })
		if err == nil {
			c.Fail("bad-set", "writing %v of shape %v gave no error", idx, a.Shape)
		}
		var o *number.Scalar[T]
		c.NoPanic("bad-operand", func() { o, err = t.GetOperand(idx...) })
		if err == nil || o != nil {
			c.Fail("bad-operand", "element %v of shape %v gave no error", idx, a.Shape)
		}
		c.NoPanic("bad-index", func() { _, err = tools.GetIndex(t.GetMulIndex(), t.GetShape(), idx) })
		if err == nil {
			c.Fail("bad-index", "offset of %v in shape %v gave no error", idx, a.Shape)
		}
		if !tk.EqShape(keep, idx) {
			c.Fail("bad-index", "the index %v became %v", keep, idx)
		}
		c.Ev("rejections", 4)
	}
	rank := len(a.Shape)
	for k := 0; k < 6; k++ {
		idx := tk.Index(a.Shape, r.Intn(n))
		switch {
		case r.P(0.35): // wrong rank
			if rank > 0 && r.Bool() {
				idx = idx[:r.Intn(rank)]
			} else {
				for m := r.Range(1, 3); m > 0; m-- {
					idx = append(idx, uint(r.Intn(2)))
				}
			}
		case rank > 0: // right rank, out of range somewhere
			d := r.Intn(rank)
			idx[d] = a.Shape[d] + mon.Pick[uint](r, 0, 0, 0, 1, 2, 7, math.MaxUint64-a.Shape[d], math.MaxInt64, 1<<32, 1<<63)
			if mul := t.GetMulIndex()[d]; r.P(0.2) && mul > 1 {
				// one whose offset wraps around to a valid one
				if x := math.MaxUint64/mul + 1; x >= a.Shape[d] {
					idx[d] = x
				}
			}
		default:
			continue
		}
		bad(idx)
	}
	if rank > 1 {
		idx := make([]uint, rank)
		// one element further than the tensor in the last dimension is not the next row
		idx[rank-1] = a.Shape[rank-1]
		bad(idx)
	}
	unchanged(c, "bad-access", t, a)
	c.Distinct("%s %v %s", tk.TypeName[T](), a.Shape, how)
}

// indexTools decides the index arithmetic itself for one shape, completely.
func indexTools(c *mon.C, shape []uint) {
	r := c.R
	c.Desc("index arithmetic of %v", shape)
	keep := tk.CloneU(shape)
	n := tk.Size(shape)
	if got := tools.GetDataSize(shape); got != uint(n) {
		c.Fail("size", "size of %v is %d, want %d", shape, got, n)
	}
	mul := tools.GetIndexMul(shape)
	if len(mul) != len(shape) {
		c.Fail("strides", "strides %v of %v", mul, shape)
	}
	for d := range shape {
		if want := uint(tk.Size(shape[d+1:])); mul[d] != want {
			c.Fail("strides", "strides %v of %v: want %d at %d", mul, shape, want, d)
		}
	}
	for i := 0; i < n; i++ {
		idx := tk.Index(shape, i)
		got := tools.ReverseIndex(mul, shape, uint(i))
		if !tk.EqShape(got, idx) {
			c.Fail("reverse", "element %d of %v is %v, want %v", i, shape, got, idx)
		}
		back, err := tools.GetIndex(mul, shape, idx)
		if err != nil || back != uint(i) {
			c.Fail("index", "%v of %v is at %d, want %d: %v", idx, shape, back, i, err)
		}
		inv := tools.GetInvertedIndex(idx)
		for k := range idx {
			if inv[k] != idx[len(idx)-1-k] {
				c.Fail("inverted", "%v inverted is %v", idx, inv)
			}
		}
	}
	c.Ev("offsets", n)
	// shape comparison
	other := tk.CloneU(shape)
	want := -1
	switch r.Intn(4) {
	case 0:
		if len(other) > 0 {
			d := r.Intn(len(other))
			other[d] += uint(r.Range(1, 4))
			want = d
			for k := d + 1; k < len(other); k++ {
				other[k] += uint(r.Intn(2))
			}
		}
	case 1:
		other = append(other, uint(r.Range(1, 3)))
		want = -2
	case 2:
		if len(other) > 0 {
			other = other[:len(other)-1]
			want = -2
		}
	}
	for k := 0; k < 2; k++ {
		got := tools.Equals(shape, other)
		if (got == -1) != (want == -1) || (want >= 0) != (got >= 0) {
			c.Fail("equals", "comparing %v and %v gives %d, want %d", shape, other, got, want)
		}
		if err := tools.GetEqShapeErr("x", shape, other); (err == nil) != (want == -1) {
			c.Fail("equals", "comparing %v and %v gives error %v", shape, other, err)
		}
		shape, other = other, shape
	}
	// shape was swapped an even number of times
	if !tk.EqShape(keep, shape) {
		c.Fail("index", "the shape %v became %v", keep, shape)
	}
	if len(mul) > 0 {
		if _, err := tools.GetIndex(mul[1:], shape, make([]uint, len(shape))); err == nil {
			c.Fail("index", "strides %v accepted for shape %v", mul[1:], shape)
		}
	}
	c.Eval(n + 4)
	c.Distinct("tools %v", shape)
}

// all the shapes of rank 0 to 4 with dimensions 1 to 4
var small = func() [][]uint {
	out := [][]uint{{}}
	for lo, rank := 0, 1; rank <= 4; rank++ {
		hi := len(out)
		for ; lo < hi; lo++ {
			for d := uint(1); d <= 4; d++ {
				out = append(out, append(tk.CloneU(out[lo]), d))
			}
		}
	}
	return out
}()

func main() {
	ops := tk.AllOps()
	mon.Main(mon.Check{
		ID:         "C07",
		Scale:      12,
		Rule:       "one case = one tensor (from any constructor or operation) read completely, written at random and probed with indices that name no element; distinct by element type, shape and origin",
		Need:       map[string]int64{"reads": 10000, "writes": 10000, "rejections": 10000, "offsets": 10000},
		Exhaustive: []string{"index arithmetic of every shape of rank 0 to 4 with dimensions 1 to 4"},
		Groups: []mon.Group{
			{Name: "tools-small", Quick: len(small), Thorough: len(small), Run: func(c *mon.C) { indexTools(c, small[c.Index]) }},
			{Name: "tools", Quick: 3000, Thorough: 60000, Run: func(c *mon.C) { indexTools(c, tk.AnyShape(c.R)) }},
			{Name: "access", Quick: 12000, Thorough: 250000, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { run[float32](c) }, func() { run[float64](c) }, func() { run[int](c) },
					func() { run[int16](c) }, func() { run[int32](c) }, func() { run[int64](c) })
			}},
			{Name: "results", Quick: 6000, Thorough: 120000, Run: func(c *mon.C) {
				op := ops[c.Index/6%len(ops)]
				tk.ForType(c.Index, func() { result[float32](c, op) }, func() { result[float64](c, op) }, func() { result[int](c, op) },
					func() { result[int16](c, op) }, func() { result[int32](c, op) }, func() { result[int64](c, op) })
			}},
		},
	})
}
