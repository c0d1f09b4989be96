// C05: graphs compute their expression, for every history of executions.
package main

import (
	"math"

	"github.com/julioguillermo/godeep/context"
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/operation"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/tk"
)

type node[T types.Number] struct {
	t     tensor.Tensor[T]
	shape []uint
	mag   float64 // bound of the absolute values, so that float sums stay exact
	name  string
	in    []int
	ref   func(x []tk.Arr[T]) tk.Arr[T]
	comp  bool // holds elements of its own that every execution rewrites
	tol   float64
	val   tk.Arr[T]
	built bool
}

type dag[T types.Number] struct {
	c       *mon.C
	ns      []*node[T]
	ninputs int
	scalars []*number.Scalar[T]
	limit   float64
	calls   []*int // counting functions
	elems   []int  // how often one execution must call them
	callsOf []int  // node of each counter
}

func newDag[T types.Number](c *mon.C) *dag[T] {
	d := &dag[T]{c: c, limit: math.Inf(1)}
	if tk.IsFloat[T]() {
		d.limit = math.Ldexp(1, 22)
		if tk.Eps[T]() < 1e-10 {
			d.limit = math.Ldexp(1, 50)
		}
	}
	return d
}

const inMag = 3

func (d *dag[T]) input(shape []uint) int {
	a := tk.Gen[T](d.c.R, shape, tk.Tiny)
	d.ns = append(d.ns, &node[T]{t: tk.Ten(a), shape: tk.CloneU(shape), mag: inMag, name: "input", val: a, built: true})
	return len(d.ns) - 1
}

func (d *dag[T]) pickShape(shape []uint) int {
	var ok []int
	for i, n := range d.ns {
		if tk.EqShape(n.shape, shape) && n.tol == 0 {
			ok = append(ok, i)
		}
	}
	if len(ok) == 0 || d.c.R.P(0.2) {
		return d.input(shape)
	}
	return ok[d.c.R.Intn(len(ok))]
}

// grow adds one node to the expression.
func (d *dag[T]) grow() {
	r := d.c.R
	a := r.Intn(len(d.ns))
	if r.P(0.5) { // deep expressions
		a = len(d.ns) - 1 - r.Intn(min(3, len(d.ns)))
	}
	na := d.ns[a]
	if tk.Size(na.shape) > 600 {
		return
	}
	kind := r.Intn(10)
	if na.tol > 0 {
		kind = 9
	}
	n := &node[T]{}
	var inst tk.Inst[T]
	switch {
	case kind < 4:
		names := []string{"add", "sub", "mul", "neg", "abs", "adds", "subs", "muls", "activate", "mutscalar", "count"}
		if !tk.IsFloat[T]() {
			names = append(names, "divs")
		}
		name := mon.Pick(r, names...)
		n.comp = true
		switch name {
		case "mutscalar": // a scalar the history changes
			s := tk.Sc(tk.Val[T](r, tk.Tiny))
			d.scalars = append(d.scalars, s)
			n.name, n.in, n.mag = name, []int{a}, na.mag*inMag
			n.t = tensor.MulScalar(na.t, s)
			n.ref = func(x []tk.Arr[T]) tk.Arr[T] { return tk.Map(x[0], func(v T) T { return v * s.Value }) }
		case "count":
			calls := 0
			n.name, n.in, n.mag = name, []int{a}, na.mag+1
			n.t = tensor.Activate(na.t, func(v T) T { calls++; return v + 1 })
			n.ref = func(x []tk.Arr[T]) tk.Arr[T] { return tk.Map(x[0], func(v T) T { return v + 1 }) }
			d.calls = append(d.calls, &calls)
			d.elems = append(d.elems, tk.Size(na.shape))
			d.callsOf = append(d.callsOf, len(d.ns))
		default:
			inst = tk.ElemInst[T](r, name, na.shape, tk.NonZero)
			n.in = []int{a}
			if len(inst.In) == 2 {
				b := d.pickShape(na.shape)
				if r.P(0.15) {
					b = a
				}
				n.in = []int{a, b}
				if r.Bool() {
					n.in = []int{b, a}
				}
				if name == "mul" {
					n.mag = na.mag * d.ns[b].mag
				} else {
					n.mag = na.mag + d.ns[b].mag
				}
			} else {
				n.mag = na.mag*9 + 9
			}
		}
	case kind < 6:
		names := []string{"sum", "max", "min", "dsum", "dmax", "dmin", "avg", "davg"}
		if tk.IsFloat[T]() {
			names = append(names, "softmax")
		}
		name := mon.Pick(r, names...)
		if len(na.shape) == 0 {
			return
		}
		inst = tk.RedInst[T](r, name, tk.NewArr[T](na.shape), true)
		n.in = []int{a}
		n.mag = na.mag * float64(tk.Size(na.shape))
		n.comp = true
		if tk.IsFloat[T]() && (name == "avg" || name == "davg" || name == "softmax") {
			n.tol = tk.Eps[T]() * 64
		}
	case kind < 7:
		if len(na.shape) == 0 {
			return
		}
		da := uint(r.Intn(len(na.shape)))
		sb := tk.Shape(r, r.Range(1, 3), 40)
		db := uint(r.Intn(len(sb)))
		sb[db] = na.shape[da]
		at := true
		if r.Bool() {
			at = false
			da, db = tk.DotDims(na.shape, sb)
			sb[db] = na.shape[da]
		}
		if tk.Size(sb)*tk.Size(na.shape) > 4000 {
			return
		}
		b := d.pickShape(sb)
		inst = tk.DotOf[T](r, tk.Tiny, na.shape, sb, da, db, at)
		n.in = []int{a, b}
		n.mag = na.mag * d.ns[b].mag * float64(na.shape[da])
		n.comp = true
	default:
		name := mon.Pick(r, tk.Rearrangements...)
		if len(na.shape) == 0 {
			return
		}
		inst = tk.RearrInst[T](r, name, na.shape, tk.Tiny)
		n.in = []int{a}
		n.mag = na.mag
		n.tol = na.tol
		if len(inst.In) == 2 {
			b := d.pickShape(inst.In[1].Shape)
			n.in = []int{a, b}
			n.mag = math.Max(n.mag, d.ns[b].mag)
		}
	}
	if n.mag > d.limit {
		// drop the counter that belonged to it
		if k := len(d.callsOf); k > 0 && d.callsOf[k-1] == len(d.ns) {
			d.calls, d.elems, d.callsOf = d.calls[:k-1], d.elems[:k-1], d.callsOf[:k-1]
		}
		return
	}
	if n.t == nil {
		x := make([]tensor.Tensor[T], len(n.in))
		for k, i := range n.in {
			x[k] = d.ns[i].t
		}
		n.name, n.ref = inst.Name, inst.Ref
		n.t = inst.Lazy(x)
	}
	n.val = d.eval(n)
	n.shape = n.val.Shape
	d.ns = append(d.ns, n)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (d *dag[T]) eval(n *node[T]) tk.Arr[T] {
	x := make([]tk.Arr[T], len(n.in))
	for k, i := range n.in {
		x[k] = d.ns[i].val
	}
	return n.ref(x)
}

func (d *dag[T]) reach(i int) {
	n := d.ns[i]
	if n.built {
		return
	}
	n.built = true
	for _, k := range n.in {
		d.reach(k)
	}
}

func (d *dag[T]) check(sig string) {
	for i, n := range d.ns {
		if n.ref != nil {
			n.val = d.eval(n)
		}
		if !n.built {
			continue
		}
		got := tk.Read(d.c, sig, n.t)
		if n.tol > 0 {
			tk.MustClose(d.c, sig, got, n.val, n.tol*float64(len(n.val.Data)+8), n.mag)
		} else if !same(got, n.val) {
			d.c.Fail(sig, "node %d (%s of %v) holds %v, want %v", i, n.name, n.in, got, n.val)
		}
		d.c.Eval(1)
	}
}

func same[T types.Number](a, b tk.Arr[T]) bool {
	if !tk.EqShape(a.Shape, b.Shape) {
		return false
	}
	for i := range a.Data {
		if !tk.Same(a.Data[i], b.Data[i]) {
			return false
		}
	}
	return true
}

// mutate changes inputs and scalars the way a user does between executions.
func (d *dag[T]) mutate() {
	r := d.c.R
	for i, n := range d.ns {
		if n.ref != nil || r.P(0.3) {
			continue
		}
		_ = i
		switch r.Intn(5) {
		case 0:
			n.val = tk.Gen[T](r, n.shape, tk.Tiny)
			if err := n.t.LoadData(append([]T{}, n.val.Data...)); err != nil {
				d.c.Fail("loaddata", "%v", err)
			}
		case 1:
			n.val = tk.Gen[T](r, n.shape, tk.Tiny)
			if err := n.t.LoadFromTensor(tk.Ten(n.val)); err != nil {
				d.c.Fail("loadfrom", "%v", err)
			}
		case 2: // one element
			k := r.Intn(len(n.val.Data))
			v := tk.Val[T](r, tk.Tiny)
			n.val = n.val.Clone()
			n.val.Data[k] = v
			if err := n.t.Set(v, tk.Index(n.shape, k)...); err != nil {
				d.c.Fail("set", "%v", err)
			}
		case 3:
			k := r.Intn(len(n.val.Data))
			v := tk.Val[T](r, tk.Tiny)
			n.val = n.val.Clone()
			n.val.Data[k] = v
			n.t.GetOperands()[k].Value = v
		case 4:
			v := tk.Val[T](r, tk.Tiny)
			n.val = tk.Map(n.val, func(T) T { return v })
			n.t.GetMatrix().FillData(v)
		}
		d.c.Ev("input_changes", 1)
	}
	for _, s := range d.scalars {
		if r.P(0.6) {
			s.Value = tk.Val[T](r, tk.Tiny)
			d.c.Ev("scalar_changes", 1)
		}
	}
}

// poison overwrites everything an execution must recompute.
func (d *dag[T]) poison() {
	for _, n := range d.ns {
		if n.built && n.comp {
			for _, o := range n.t.GetOperands() {
				o.Value = 77
			}
		}
	}
	d.c.Ev("poisonings", 1)
}

func random[T types.Number](c *mon.C, maxNodes, steps int) {
	r := c.R
	d := newDag[T](c)
	for k := r.Range(1, 4); k > 0; k-- {
		d.input(tk.Shape(r, r.Range(1, 4), 60))
	}
	for k := r.Range(2, maxNodes); k > 0; k-- {
		d.grow()
	}
	desc := tk.TypeName[T]()
	for i, n := range d.ns {
		desc += " "
		desc += n.name
		_ = i
	}
	c.Desc("%s", desc)

	// one graph per root, built in turn; the later ones reuse what is built
	var roots []int
	roots = append(roots, len(d.ns)-1)
	for k := r.Intn(3); k > 0; k-- {
		roots = append(roots, r.Intn(len(d.ns)))
	}
	for k := len(roots) - 1; k > 0; k-- {
		j := r.Intn(k + 1)
		roots[k], roots[j] = roots[j], roots[k]
	}
	var gs []*graph.Graph
	for _, i := range roots {
		var g *graph.Graph
		var err error
		if r.Bool() {
			g, err = graph.NewGraph[T](d.ns[i].t)
		} else {
			ctx := context.NewCTX()
			err = d.ns[i].t.BuildGraph(ctx)
			if err == nil {
				g, err = graph.NewGraphFrom[T](ctx)
			}
		}
		if err != nil {
			c.Fail("build", "valid expression rejected: %v", err)
		}
		d.reach(i)
		gs = append(gs, g)
	}
	if r.Bool() { // merged into one
		m := graph.NewEmptyGraph[T]()
		if r.Bool() {
			m = graph.NewFromGraph[T](gs[0])
			for _, g := range gs[1:] {
				m.AddFromGraph(g)
			}
		} else {
			for _, g := range gs {
				m.AddFromGraph(g)
			}
		}
		gs = []*graph.Graph{m}
	}
	execs := 0
	for s := 0; s < steps; s++ {
		if s > 0 {
			switch r.Intn(4) {
			case 0: // again, unchanged
			case 1:
				d.poison()
			case 2:
				d.mutate()
				d.poison()
			default:
				d.mutate()
			}
		}
		for _, n := range d.calls {
			*n = 0
		}
		for _, g := range gs {
			g.Exec()
		}
		execs++
		for k, n := range d.calls {
			want := 0
			if d.ns[d.callsOf[k]].built {
				want = d.elems[k]
			}
			// how often is no part of the property, unless it blows up
			c.Ev("function_calls", *n)
			if *n > 100*want+100 {
				c.Fail("once", "the function of a node with %d elements was called %d times in one execution", want, *n)
			}
		}
		d.check("value")
	}
	c.Ev("executions", execs)
	c.Distinct("%s", desc)
}

func pick[T types.Number](c *mon.C, f func(*mon.C)) { f(c) }

// sharing: a node used many times is computed once; deep and wide expressions.
func sharing(c *mon.C) {
	r := c.R
	a := tk.Gen[int64](r, tk.Shape(r, r.Range(1, 3), 12), tk.Small)
	in := tk.Ten(a)
	calls := 0
	var t tensor.Tensor[int64] = tensor.Activate[int64](in, func(v int64) int64 { calls++; return v * 3 })
	want := func() tk.Arr[int64] { return tk.Map(a, func(v int64) int64 { return v * 3 }) }
	ops := []func(tk.Arr[int64]) tk.Arr[int64]{}
	depth := r.Range(10, 45)
	if c.Index%4 == 0 {
		depth = r.Range(200, 1500)
	}
	c.Desc("sharing depth %d on %v", depth, a)
	for k := 0; k < depth; k++ {
		switch r.Intn(4) {
		case 0:
			t = tensor.Add(t, t)
			ops = append(ops, func(x tk.Arr[int64]) tk.Arr[int64] {
				return tk.Map(x, func(v int64) int64 { return v + v })
			})
		case 1:
			t = tensor.Sub(tensor.Neg(t), t)
			ops = append(ops, func(x tk.Arr[int64]) tk.Arr[int64] {
				return tk.Map(x, func(v int64) int64 { return -v - v })
			})
		case 2:
			t = tensor.Add[int64](t, in)
			ops = append(ops, func(x tk.Arr[int64]) tk.Arr[int64] {
				return tk.Zip(x, a, func(v, w int64) int64 { return v + w })
			})
		default:
			t = tensor.Transpose(tensor.Transpose(t))
			ops = append(ops, func(x tk.Arr[int64]) tk.Arr[int64] { return x })
		}
	}
	g, err := graph.NewGraph[int64](t)
	if err != nil {
		c.Fail("sharing", "%v", err)
	}
	for k := 0; k < 3; k++ {
		calls = 0
		g.Exec()
		c.Ev("executions", 1)
		if calls > 100*len(a.Data)+100 {
			c.Fail("sharing-once", "a function of %d elements was called %d times in one execution", len(a.Data), calls)
		}
		w := want()
		for _, f := range ops {
			w = f(w)
		}
		tk.MustEqual(c, "sharing", tk.Read(c, "sharing", t), w)
		a = tk.Gen[int64](r, a.Shape, tk.Small)
		if err := in.LoadData(a.Data); err != nil {
			c.Fail("sharing", "%v", err)
		}
	}
	c.Distinct("sharing %d %v", depth, a.Shape)
}

// state: graphs that write back into their own inputs.
func state(c *mon.C) {
	r := c.R
	shape := tk.Shape(r, r.Range(1, 3), 40)
	st := tk.Gen[int64](r, shape, tk.Small)
	inc := tk.Gen[int64](r, shape, tk.Small)
	ts, ti := tk.Ten(st), tk.Ten(inc)
	sc := tk.Sc(int64(r.Range(-3, 3)))
	sum := tensor.Add[int64](tensor.MulScalar[int64](ts, sc), ti)
	seen := tk.NewArr[int64](shape)
	tseen := tk.Ten(seen)
	filled := tk.Gen[int64](r, tk.Shape(r, r.Range(1, 2), 20), tk.Small)
	tf := tk.Ten(filled)
	fv := tk.Sc(int64(4))
	steps := r.Range(3, 30)
	c.Desc("state of shape %v for %d executions", shape, steps)

	ctx := context.NewCTX()
	var err error
	use := r.Bool()
	if use {
		err = tensor.Transfer[int64](ctx, sum, ts)
		if err == nil {
			err = tensor.Transfer[int64](ctx, ts, tseen)
		}
		if err == nil {
			err = tensor.Fill[int64](ctx, tf, fv)
		}
	} else {
		err = tensor.CopyTo[int64](sum, ts).BuildGraph(ctx)
		if err == nil {
			err = tensor.CopyTo[int64](ts, tseen).BuildGraph(ctx)
		}
		if err == nil {
			err = tensor.FillWith[int64](tf, fv).BuildGraph(ctx)
		}
	}
	if err != nil {
		c.Fail("state", "%v", err)
	}
	g, err := graph.NewGraphFrom[int64](ctx)
	if err != nil {
		c.Fail("state", "%v", err)
	}
	for k := 0; k < steps; k++ {
		g.Exec()
		st = tk.Zip(st, inc, func(x, y int64) int64 { return x*sc.Value + y })
		tk.MustEqual(c, "state", tk.Read[int64](c, "state", ts), st)
		tk.MustEqual(c, "state-copy", tk.Read[int64](c, "state", tseen), st)
		tk.MustEqual(c, "state-input", tk.Read[int64](c, "state", ti), inc)
		tk.MustEqual(c, "state-fill", tk.Read[int64](c, "state", tf), tk.Map(filled, func(int64) int64 { return fv.Value }))
		if r.P(0.4) {
			inc = tk.Gen[int64](r, shape, tk.Small)
			if err := ti.LoadData(inc.Data); err != nil {
				c.Fail("state", "%v", err)
			}
		}
		if r.P(0.3) {
			sc.Value = int64(r.Range(-3, 3))
			fv.Value = int64(r.Range(-9, 9))
		}
		if r.P(0.2) {
			tf.FillData(int64(r.Range(-99, 99)))
		}
	}
	c.Ev("executions", steps)
	c.Distinct("state %v %d", shape, steps)
}

// raw: a random program of scalar operations over few cells runs in order.
func raw[T types.Number](c *mon.C) {
	r := c.R
	n := r.Range(2, 9)
	cells := make([]*number.Scalar[T], n)
	val := make([]T, n)
	for i := range cells {
		val[i] = tk.Val[T](r, tk.Small)
		cells[i] = tk.Sc(val[i])
	}
	type step func()
	var ref []step
	var ops []operation.Operation
	prog := r.Range(1, 60)
	c.Desc("program of %d operations over %d cells", prog, n)
	for k := 0; k < prog; k++ {
		o, a, b := r.Intn(n), r.Intn(n), r.Intn(n)
		m := r.Range(1, 5)
		args := make([]*number.Scalar[T], m)
		ai := make([]int, m)
		for j := range args {
			ai[j] = r.Intn(n)
			args[j] = cells[ai[j]]
		}
		get := func() []T {
			xs := make([]T, m)
			for j := range xs {
				xs[j] = val[ai[j]]
			}
			return xs
		}
		switch r.Intn(12) {
		case 0:
			ops = append(ops, &operation.Add[T]{Scalar: cells[o], A: cells[a], B: cells[b]})
			ref = append(ref, func() { val[o] = val[a] + val[b] })
		case 1:
			ops = append(ops, &operation.Sub[T]{Scalar: cells[o], A: cells[a], B: cells[b]})
			ref = append(ref, func() { val[o] = val[a] - val[b] })
		case 2:
			ops = append(ops, &operation.Mul[T]{Scalar: cells[o], A: cells[a], B: cells[b]})
			ref = append(ref, func() { val[o] = val[a] * val[b] })
		case 3:
			if tk.IsFloat[T]() {
				ops = append(ops, &operation.Div[T]{Scalar: cells[o], A: cells[a], B: cells[b]})
				ref = append(ref, func() { val[o] = val[a] / val[b] })
			} else {
				s := tk.Sc(T(r.Range(2, 5)))
				ops = append(ops, &operation.Div[T]{Scalar: cells[o], A: cells[a], B: s})
				ref = append(ref, func() { val[o] = val[a] / s.Value })
			}
		case 4:
			ops = append(ops, &operation.Neg[T]{Scalar: cells[o], O: cells[a]})
			ref = append(ref, func() { val[o] = -val[a] })
		case 5:
			ops = append(ops, &operation.Abs[T]{Scalar: cells[o], O: cells[a]})
			ref = append(ref, func() {
				if val[a] < 0 {
					val[o] = -val[a]
				} else {
					val[o] = val[a]
				}
			})
		case 6:
			ops = append(ops, &operation.Set[T]{Scalar: cells[o], O: cells[a]})
			ref = append(ref, func() { val[o] = val[a] })
		case 7:
			ops = append(ops, &operation.Func[T]{Scalar: cells[o], O: cells[a], F: func(v T) T { return v - 2 }})
			ref = append(ref, func() { val[o] = val[a] - 2 })
		case 8:
			ops = append(ops, &operation.Equals[T]{Scalar: cells[o], A: cells[a], B: cells[b]})
			ref = append(ref, func() {
				if val[a] == val[b] {
					val[o] = 1
				} else {
					val[o] = 0
				}
			})
		case 9:
			if tk.IsFloat[T]() {
				ops = append(ops, &operation.Set[T]{Scalar: cells[o], O: cells[b]})
				ref = append(ref, func() { val[o] = val[b] })
			} else {
				ops = append(ops, &operation.Sum[T]{Scalar: cells[o], Args: args})
				ref = append(ref, func() { val[o] = tk.RSum(get()) })
			}
		case 10:
			ops = append(ops, &operation.Max[T]{Scalar: cells[o], Args: args[:1]}, &operation.Max[T]{Scalar: cells[o], Args: []*number.Scalar[T]{cells[a], cells[b]}})
			ref = append(ref, func() { val[o] = val[ai[0]] }, func() {
				x := val[a]
				if x < val[b] {
					x = val[b]
				}
				val[o] = x
			})
		default:
			ops = append(ops, &operation.Min[T]{Scalar: cells[o], Args: []*number.Scalar[T]{cells[a], cells[b]}})
			ref = append(ref, func() {
				x := val[a]
				if x > val[b] {
					x = val[b]
				}
				val[o] = x
			})
		}
	}
	// pushed in pieces, copied, merged
	g := graph.NewEmptyGraph[T]()
	for i := 0; i < len(ops); {
		k := r.Range(1, len(ops)-i)
		switch r.Intn(3) {
		case 0:
			g.PushOperations(ops[i : i+k]...)
		case 1:
			h := graph.NewEmptyGraph[T]()
			h.PushOperations(ops[i : i+k]...)
			g.AddFromGraph(h)
		default:
			h := graph.NewFromGraph[T](g)
			h.PushOperations(ops[i : i+k]...)
			g = h
		}
		i += k
	}
	for e := 0; e < 3; e++ {
		g.Exec()
		for _, f := range ref {
			f()
		}
		for i := range cells {
			// NaN comparisons make max and min depend on order: stop there
			if val[i] != val[i] {
				c.Ev("nan_programs", 1)
				return
			}
		}
		for i := range cells {
			if !tk.Same(cells[i].Value, val[i]) {
				c.Fail("raw", "after execution %d cell %d holds %v, want %v", e+1, i, cells[i].Value, val[i])
			}
		}
		c.Eval(1)
	}
	c.Ev("executions", 3)
	c.Distinct("raw %s %d %d %d", tk.TypeName[T](), n, prog, c.Index)
}

// logOp is an operation that records that it was executed.
type logOp struct {
	log *[]int
	id  int
}

func (p logOp) Cal() { *p.log = append(*p.log, p.id) }

// isolation: extending a copy never changes the original, or other copies.
func isolation(c *mon.C) {
	r := c.R
	mk := func(n int, log *[]int, base int) []operation.Operation {
		var out []operation.Operation
		for i := 0; i < n; i++ {
			id := base + i
			out = append(out, logOp{log, id})
		}
		return out
	}
	var log []int
	type gm struct {
		g    *graph.Graph
		want []int
	}
	var gs []gm
	next := 0
	for k := r.Range(4, 25); k > 0; k-- {
		n := r.Range(0, 9)
		ids := make([]int, n)
		for i := range ids {
			ids[i] = next + i
		}
		switch {
		case len(gs) == 0 || r.P(0.2):
			g := graph.NewEmptyGraph[int64]()
			g.PushOperations(mk(n, &log, next)...)
			gs = append(gs, gm{g, ids})
		case r.P(0.4):
			src := gs[r.Intn(len(gs))]
			gs = append(gs, gm{graph.NewFromGraph[int64](src.g), append([]int{}, src.want...)})
		case r.P(0.5):
			x := &gs[r.Intn(len(gs))]
			x.g.PushOperations(mk(n, &log, next)...)
			x.want = append(append([]int{}, x.want...), ids...)
		default:
			x := &gs[r.Intn(len(gs))]
			y := gs[r.Intn(len(gs))]
			if len(x.want)+len(y.want) < 2000 {
				add := append([]int{}, y.want...)
				x.g.AddFromGraph(y.g)
				x.want = append(append([]int{}, x.want...), add...)
			}
		}
		next += n
	}
	for i, x := range gs {
		log = log[:0]
		x.g.Exec()
		if len(log) != len(x.want) {
			c.Fail("isolation", "graph %d ran %d operations, want %d", i, len(log), len(x.want))
		}
		for k := range log {
			if log[k] != x.want[k] {
				c.Fail("isolation", "graph %d ran %v, want %v", i, log, x.want)
			}
		}
		c.Eval(1)
		c.Ev("executions", 1)
	}
	c.Distinct("isolation %d %d", len(gs), next)
}

func main() {
	mon.Main(mon.Check{
		ID:    "C05",
		Scale: 12,
		Rule:  "one case = one random expression (or scalar program) with a history of executions, input changes and overwritten intermediates; every tensor of the expression is compared after every execution; distinct by the operations of the expression",
		Need:  map[string]int64{"oracle_decisions": 20000, "executions": 5000, "input_changes": 1000, "poisonings": 500},
		Groups: []mon.Group{
			{Name: "random", Quick: 5000, Thorough: 120000, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { random[float32](c, 20, 6) }, func() { random[float64](c, 30, 6) }, func() { random[int](c, 20, 6) },
					func() { random[int16](c, 20, 6) }, func() { random[int32](c, 20, 6) }, func() { random[int64](c, 30, 6) })
			}},
			{Name: "long", Quick: 40, Thorough: 300, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { random[float32](c, 6, 1500) }, func() { random[float64](c, 6, 1500) }, func() { random[int](c, 6, 1500) },
					func() { random[int16](c, 6, 1500) }, func() { random[int32](c, 6, 1500) }, func() { random[int64](c, 6, 1500) })
			}},
			{Name: "sharing", Quick: 300, Thorough: 4000, Run: sharing},
			{Name: "state", Quick: 600, Thorough: 10000, Run: state},
			{Name: "raw", Quick: 4000, Thorough: 100000, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { raw[float32](c) }, func() { raw[float64](c) }, func() { raw[int](c) },
					func() { raw[int16](c) }, func() { raw[int32](c) }, func() { raw[int64](c) })
			}},
			{Name: "isolation", Quick: 2000, Thorough: 30000, Run: isolation},
		},
	})
}
