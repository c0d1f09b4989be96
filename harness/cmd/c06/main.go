// C06: the immediate and the graph form of an operation agree; operands stay as
// they were; an immediate result is independent of its operands.
package main

import (
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/tk"
)

type snap[T types.Number] struct {
	t    tensor.Tensor[T]
	val  tk.Arr[T]
	ptrs []*number.Scalar[T]
	mul  []uint
}

func take[T types.Number](c *mon.C, t tensor.Tensor[T]) snap[T] {
	return snap[T]{t, tk.Read[T](c, "operand", t), append([]*number.Scalar[T]{}, t.GetOperands()...), t.GetMulIndex()}
}

// unchanged is the monitor of an operand: same shape, same elements, same values.
func (s snap[T]) unchanged(c *mon.C, sig string) {
	tk.MustEqual(c, sig, tk.Read[T](c, sig, s.t), s.val)
	ops := s.t.GetOperands()
	for i := range ops {
		if ops[i] != s.ptrs[i] {
			c.Fail(sig, "element %d of an operand was replaced", i)
		}
	}
	if !tk.EqShape(s.mul, s.t.GetMulIndex()) {
		c.Fail(sig, "strides of an operand changed from %v to %v", s.mul, s.t.GetMulIndex())
	}
	c.Ev("operands_watched", 1)
}

func run[T types.Number](c *mon.C, op string) {
	r := c.R
	var in tk.Inst[T]
	for {
		in = tk.AnyInst[T](r, op)
		if in.Eager != nil {
			break
		}
		op = "t:reshape"
	}
	c.Desc("%s", in.Desc())
	same := len(in.In) == 2 && tk.EqShape(in.In[0].Shape, in.In[1].Shape) && r.P(0.3)
	if same && !tk.IsFloat[T]() && op == "e:div" {
		same = false
	}
	if same {
		in.In[1] = in.In[0].Clone()
		in.Want = in.Redo()
	}
	mk := func() []*tensor.TensorMat[T] {
		x := make([]*tensor.TensorMat[T], len(in.In))
		for k := range x {
			x[k] = tk.Ten(in.In[k])
		}
		if same {
			x[1] = x[0]
		}
		return x
	}
	x := mk()
	if r.P(0.2) { // an operand that is itself the result of a graph
		id := tensor.AddScalar[T](x[0], tk.Sc[T](0))
		g, err := graph.NewGraph[T](id)
		if err != nil {
			c.Fail("operand", "%v", err)
		}
		g.Exec()
		was := x[0]
		x[0] = id.GetMatrix()
		if len(x) == 2 && x[1] == was {
			x[1] = x[0]
		}
	}
	var snaps []snap[T]
	for _, t := range x {
		snaps = append(snaps, take[T](c, t))
	}
	var out *tensor.TensorMat[T]
	var err error
	c.NoPanic("eager-"+op, func() { out, err = in.Eager(x) })
	if err != nil {
		c.Fail("eager-"+op, "valid operands rejected: %v", err)
	}
	c.Ev("eager_ops", 1)
	for _, s := range snaps {
		s.unchanged(c, "operand-"+op)
	}
	got := tk.Read[T](c, "eager-"+op, out)

	// the same operation through a graph, on the same operand objects
	lx := make([]tensor.Tensor[T], len(x))
	if r.Bool() {
		for i := range x {
			lx[i] = x[i]
		}
	} else {
		y := mk()
		for i := range y {
			lx[i] = y[i]
		}
	}
	var lsnaps []snap[T]
	for _, t := range lx {
		lsnaps = append(lsnaps, take[T](c, t))
	}
	var lout tensor.Tensor[T]
	var g *graph.Graph
	c.NoPanic("graph-"+op, func() {
		lout = in.Lazy(lx)
		g, err = graph.NewGraph[T](lout)
		if err != nil {
			c.Fail("graph-"+op, "accepted at once, rejected by the graph: %v", err)
		}
		for k := r.Range(1, 3); k > 0; k-- {
			g.Exec()
		}
	})
	c.Ev("graph_ops", 1)
	lgot := tk.Read[T](c, "graph-"+op, lout)
	tk.MustClose(c, "agree-"+op, got, lgot, in.Tol, in.Scale)
	for _, s := range lsnaps {
		s.unchanged(c, "graph-operand-"+op)
	}
	for _, s := range snaps {
		s.unchanged(c, "operand-"+op)
	}

	// no element is shared between result and operands
	seen := map[*number.Scalar[T]]bool{}
	for _, s := range snaps {
		for _, p := range s.ptrs {
			seen[p] = true
		}
	}
	own := map[*number.Scalar[T]]bool{}
	for i, p := range out.GetOperands() {
		if seen[p] {
			c.Fail("alias-"+op, "element %d of the result is an element of an operand", i)
		}
		if own[p] {
			c.Fail("alias-"+op, "element %d of the result appears twice", i)
		}
		own[p] = true
	}
	c.Ev("results_checked_for_aliases", 1)

	// and behaviour says so too: write one side, watch the other
	order := r.Perm(2)
	for _, side := range order {
		if side == 0 && out.GetSize() > 0 {
			if r.Bool() {
				out.FillData(77)
			} else {
				idx := tk.Index(got.Shape, r.Intn(int(out.GetSize())))
				if err := out.Set(77, idx...); err != nil {
					c.Fail("eager-"+op, "result does not accept %v: %v", idx, err)
				}
			}
			for _, s := range snaps {
				s.unchanged(c, "independence-"+op)
			}
			got = tk.Read[T](c, "eager-"+op, out)
		} else {
			for i := range snaps {
				snaps[i].t.GetMatrix().FillData(T(-5 - i))
			}
			for i := range snaps {
				snaps[i].val = tk.Read[T](c, "operand", snaps[i].t)
			}
			tk.MustEqual(c, "independence-"+op, tk.Read[T](c, "eager-"+op, out), got)
		}
		c.Ev("writes_after_the_fact", 1)
	}
	// and the operation can be done again on the operands' new values
	in.Again(c, x)
	sh := ""
	for _, a := range in.In {
		sh += tk.Arr[T]{Shape: a.Shape}.String()
	}
	c.Distinct("%s %s %s %v", tk.TypeName[T](), in.Name, sh, same)
}

// scalarArg: the scalar operand of the *Scalar operations is read, not kept nor
// written.
func scalarArg[T types.Number](c *mon.C) {
	r := c.R
	a := tk.Gen[T](r, tk.AnyShape(r), tk.Small)
	s := tk.Sc(tk.Val[T](r, tk.NonZero))
	v := s.Value
	t := tk.Ten(a)
	c.Desc("scalar %v on %v", v, a)
	ops := []struct {
		n string
		f func() *tensor.TensorMat[T]
		w func(x T) T
	}{
		{"adds", func() *tensor.TensorMat[T] { return t.AddScalar(s) }, func(x T) T { return x + v }},
		{"subs", func() *tensor.TensorMat[T] { return t.SubScalar(s) }, func(x T) T { return x - v }},
		{"muls", func() *tensor.TensorMat[T] { return t.MulScalar(s) }, func(x T) T { return x * v }},
		{"divs", func() *tensor.TensorMat[T] { return t.DivScalar(s) }, func(x T) T { return x / v }},
	}
	o := ops[r.Intn(4)]
	out := o.f()
	if s.Value != v {
		c.Fail("scalar-"+o.n, "the scalar changed from %v to %v", v, s.Value)
	}
	s.Value = 55
	tk.MustEqual(c, "scalar-"+o.n, tk.Read[T](c, "scalar", out), tk.Map(a, o.w))
	out.FillData(3)
	if s.Value != 55 {
		c.Fail("scalar-"+o.n, "writing the result changed the scalar")
	}
	tk.MustEqual(c, "scalar-"+o.n, tk.Read[T](c, "scalar", t), a)
	// the scalar may be an element of the tensor itself
	if len(a.Data) > 0 {
		k := r.Intn(len(a.Data))
		if a.Data[k] != 0 {
			s = t.GetOperands()[k]
			v = s.Value
			out = o.f()
			tk.MustEqual(c, "scalar-own-"+o.n, tk.Read[T](c, "scalar", out), tk.Map(a, o.w))
			tk.MustEqual(c, "scalar-own-"+o.n, tk.Read[T](c, "scalar", t), a)
		}
	}
	// Fill copies the value of its scalar
	s = tk.Sc(tk.Val[T](r, tk.Small))
	v = s.Value
	t.Fill(s)
	s.Value++
	for i, x := range t.GetData() {
		if x != v {
			c.Fail("fill", "element %d is %v after a fill with %v", i, x, v)
		}
	}
	c.Eval(1)
	c.Ev("eager_ops", 3)
	c.Distinct("%s scalar %s %v", tk.TypeName[T](), o.n, a.Shape)
}

// subFill: FOSubTensor fills with the value it is given.
func subFill[T types.Number](c *mon.C) {
	r := c.R
	a := tk.Gen[T](r, tk.Shape(r, r.Range(1, 4), 300), tk.Small)
	d := uint(r.Intn(len(a.Shape)))
	from := uint(r.Intn(int(a.Shape[d]) + 3))
	to := from + uint(r.Range(1, 6))
	fill := tk.Val[T](r, tk.Wide)
	t := tk.Ten(a)
	c.Desc("FOSubTensor(%d,%d,%d,%v) of %v", d, from, to, fill, a)
	out, err := t.FOSubTensor(d, from, to, fill)
	if err != nil {
		c.Fail("subfill", "%v", err)
	}
	tk.MustEqual(c, "subfill", tk.Read[T](c, "subfill", out), tk.Slice(a, d, from, to, fill))
	own := map[*number.Scalar[T]]bool{}
	for i, p := range out.GetOperands() {
		if own[p] {
			c.Fail("subfill", "element %d of the result is stored twice", i)
		}
		own[p] = true
	}
	out.FillData(9)
	tk.MustEqual(c, "subfill", tk.Read[T](c, "subfill", t), a)
	c.Distinct("subfill %v %d %d %d", a.Shape, d, from, to)
}

func main() {
	ops := tk.AllOps()
	mon.Main(mon.Check{
		ID:    "C06",
		Scale: 3,
		Rule:  "one case = one operation run at once and through a graph on watched operands, followed by writes to the result and to the operands; distinct by element type, operation, parameters and shapes",
		Need:  map[string]int64{"eager_ops": 10000, "graph_ops": 10000, "operands_watched": 20000, "results_checked_for_aliases": 10000, "writes_after_the_fact": 10000},
		Groups: []mon.Group{
			{Name: "all", Quick: 6 * len(ops) * 250, Thorough: 6 * len(ops) * 4000, Run: func(c *mon.C) {
				op := ops[(c.Index/6)%len(ops)]
				tk.ForType(c.Index, func() { run[float32](c, op) }, func() { run[float64](c, op) }, func() { run[int](c, op) },
					func() { run[int16](c, op) }, func() { run[int32](c, op) }, func() { run[int64](c, op) })
			}},
			{Name: "scalars", Quick: 6000, Thorough: 100000, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { scalarArg[float32](c) }, func() { scalarArg[float64](c) }, func() { scalarArg[int](c) },
					func() { scalarArg[int16](c) }, func() { scalarArg[int32](c) }, func() { scalarArg[int64](c) })
			}},
			{Name: "fill", Quick: 3000, Thorough: 60000, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { subFill[float32](c) }, func() { subFill[float64](c) }, func() { subFill[int](c) },
					func() { subFill[int16](c) }, func() { subFill[int32](c) }, func() { subFill[int64](c) })
			}},
		},
	})
}
