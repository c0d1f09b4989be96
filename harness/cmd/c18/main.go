// C18: Train performs exactly epochs times batch steps, each with one of the
// given samples and its own target.
package main

import (
	"math"
	"time"

	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/nn"
	"verif/harness/tk"
)

// tap is an activation that records what goes through it.
type tap[T types.Number] struct {
	seen *[]T
	out  func(T) T
}

func (t tap[T]) Activate(x T) T { *t.seen = append(*t.seen, x); return t.out(x) }
func (t tap[T]) Derive(x T) T   { return 1 }

// sequence: the exact sequence of (sample, target) pairs. The first layer passes
// the sample to a recording activation that answers 0, so that the second layer
// only has its bias; with rate 1 that bias becomes the target of every step, and
// the second recording activation sees it in the next one.
func sequence[T types.Number](c *mon.C) {
	r := c.R
	var xs, bs []T
	l1 := layer.NewInDense[T](1, 1, tap[T]{&xs, func(T) T { return 0 }})
	l2 := layer.NewDense[T](1, tap[T]{&bs, func(x T) T { return x }})
	m := model.NewModel[T]().Push(l1).Push(l2)
	c.NoPanic("compile", func() {
		if err := m.Compile(); err != nil {
			c.Fail("compile", "%v", err)
		}
	})
	set := func(t tensor.Tensor[T], v T) {
		if err := t.LoadData([]T{v}); err != nil {
			c.Fail("setup", "%v", err)
		}
	}
	d1, d2 := l1.(*layer.Dense[T]), l2.(*layer.Dense[T])
	l1.SetTrainable(false)
	for call := r.Range(1, 4); call > 0; call-- {
		set(d1.Weights, 1)
		set(d1.Bias, 0)
		set(d2.Weights, 3)
		set(d2.Bias, -1)
		n := r.Range(1, 8)
		if r.P(0.1) {
			n = r.Range(9, 60)
		}
		epochs, batch := r.Range(0, 6), r.Range(0, 9)
		if r.P(0.1) {
			epochs = r.Range(7, 40)
		}
		if r.P(0.1) {
			batch = r.Range(10, 40)
		}
		// samples are 10+i, targets 100+i
		var ins, outs []tensor.Tensor[T]
		for i := 0; i < n; i++ {
			ins = append(ins, tk.Ten(tk.Arr[T]{Shape: []uint{1}, Data: []T{T(10 + i)}}))
			outs = append(outs, tk.Ten(tk.Arr[T]{Shape: []uint{1}, Data: []T{T(100 + i)}}))
		}
		c.Desc("%s Train with %d samples, %d epochs, batch %d", tk.TypeName[T](), n, epochs, batch)
		xs, bs = nil, nil
		// zero momentum, so that the bias is the target of the previous step
		c.NoPanic("train", func() {
			if err := m.Train(ins, outs, uint(epochs), uint(batch), 1, 0); err != nil {
				c.Fail("train", "valid samples were rejected: %v", err)
			}
		})
		per := batch
		if per == 0 {
			per = n
		}
		want := epochs * per
		if len(xs) != want {
			c.Fail("count", "%d epochs of %d (%d samples, batch %d) made %d passes, want %d", epochs, per, n, batch, len(xs), want)
		}
		if len(bs) != want {
			c.Fail("count", "%d passes through the last layer, want %d", len(bs), want)
		}
		bs = append(bs, d2.Bias.GetData()[0])
		used := map[int]int{}
		for k := range xs {
			i := int(xs[k]) - 10
			if i < 0 || i >= n || T(i+10) != xs[k] {
				c.Fail("sample", "step %d used %v, which is none of the samples", k, xs[k])
			}
			if bs[k+1] != T(100+i) {
				c.Fail("pair", "step %d used sample %d with target %v", k, i, bs[k+1]-100)
			}
			used[i]++
			c.Ev("steps_observed", 1)
		}
		if want == 0 && bs[0] != -1 {
			c.Fail("count", "training for no steps changed the bias to %v", bs[0])
		}
		// every sample can be drawn: missing one in that many draws is impossible
		if want > 0 && float64(n)*math.Pow(1-1/float64(n), float64(want)) < 1e-12 {
			if len(used) != n {
				c.Fail("coverage", "only %d of %d samples were used in %d steps", len(used), n, want)
			}
			c.Ev("coverage_checked", 1)
		}
		if w1, b1 := d1.Weights.GetData()[0], d1.Bias.GetData()[0]; w1 != 1 || b1 != 0 {
			c.Fail("frozen", "the frozen layer changed to %v, %v", w1, b1)
		}
		for i := range ins {
			if ins[i].GetData()[0] != T(10+i) || outs[i].GetData()[0] != T(100+i) {
				c.Fail("operands", "training changed sample %d to %v, %v", i, ins[i].GetData(), outs[i].GetData())
			}
		}
		c.Eval(1)
		c.Distinct("%s %d %d %d", tk.TypeName[T](), n, epochs, batch)
	}
}

// coverage: long runs reach every sample, in small sets and in large ones, with
// many epochs and with large batches.
func coverage(c *mon.C) {
	var xs, bs []float64
	r := c.R
	n := r.Range(2, 6)
	draws := 100
	switch {
	case c.Group == "huge":
		// 45 draws per sample: one that can be drawn is missed with a chance
		// below 1e-14
		n, draws = r.Range(66000, 70000), 45
	case r.P(0.25):
		n = r.Range(7, 300)
	case r.P(0.1):
		n = r.Range(300, 3000)
	}
	l1 := layer.NewInDense[float64](1, 1, tap[float64]{&xs, func(float64) float64 { return 0 }})
	l2 := layer.NewDense[float64](1, tap[float64]{&bs, func(x float64) float64 { return x }})
	m := model.NewModel[float64]().Push(l1).Push(l2)
	if err := m.Compile(); err != nil {
		c.Fail("compile", "%v", err)
	}
	l1.SetTrainable(false)
	d1, d2 := l1.(*layer.Dense[float64]), l2.(*layer.Dense[float64])
	d1.Weights.LoadData([]float64{1})
	d1.Bias.LoadData([]float64{0})
	var ins, outs []tensor.Tensor[float64]
	for i := 0; i < n; i++ {
		ins = append(ins, tk.Ten(tk.Arr[float64]{Shape: []uint{1}, Data: []float64{float64(i)}}))
		outs = append(outs, tk.Ten(tk.Arr[float64]{Shape: []uint{1}, Data: []float64{float64(-i)}}))
	}
	// 100 draws per sample or more: one that can be drawn is missed with a
	// chance below 1e-43
	batch, epochs := 0, draws
	switch r.Intn(3) {
	case 0:
		epochs = r.Range(1, 8)
		batch = (draws*n + epochs - 1) / epochs
	case 1:
		batch = r.Range(1, 20)
		epochs = (draws*n + batch - 1) / batch
	}
	per := batch
	if per == 0 {
		per = n
	}
	steps := epochs * per
	c.Desc("coverage of %d samples in %d epochs with batch %d", n, epochs, batch)
	c.NoPanic("train", func() {
		if err := m.Train(ins, outs, uint(epochs), uint(batch), 1, 0); err != nil {
			c.Fail("train", "%v", err)
		}
	})
	if len(xs) != steps || len(bs) != steps {
		c.Fail("count", "%d epochs of %d made %d and %d passes, want %d", epochs, per, len(xs), len(bs), steps)
	}
	bs = append(bs, d2.Bias.GetData()[0])
	count := make([]int, n)
	for k, x := range xs {
		if x < 0 || int(x) >= n || float64(int(x)) != x {
			c.Fail("sample", "step %d used %v, which is none of the samples", k, x)
		}
		if math.Abs(bs[k+1]+x) > 1e-6 {
			c.Fail("pair", "step %d used sample %v with target %v", k, x, -bs[k+1])
		}
		count[int(x)]++
	}
	for i, k := range count {
		if k == 0 {
			c.Fail("coverage", "sample %d of %d was never used in %d steps", i, n, steps)
		}
	}
	c.Ev("coverage_checked", 1)
	c.Ev("steps_observed", steps)
	if n > 6 {
		c.Ev("large_sets", 1)
	}
	c.Eval(1)
}

// loss and errors: what Train rejects, and that it rejects before any step.
func reject[T types.Number](c *mon.C) {
	r := c.R
	o := nn.Opt{NeedParam: 1, MaxNodes: 3}
	if !tk.IsFloat[T]() {
		o.Acts = nn.IntActs
	}
	s := nn.Gen(r, o)
	c.Desc("rejected training sets of %s", nn.Describe[T](s))
	net := nn.Make[T](s, r.Bool())
	if r.P(0.7) {
		net.Compile(c)
		net.Calm(c)
	}
	compiled := net.M.GraphFeedForward != nil
	var raw [][]T
	if compiled {
		raw = net.Raw()
	}
	n := r.Range(0, 4)
	mk := func(k int, sh []uint) (out []tensor.Tensor[T]) {
		for i := 0; i < k; i++ {
			out = append(out, tk.Ten(nn.Sample[T](r, sh)))
		}
		return out
	}
	ins, outs := mk(n, s.InShape()), mk(n, s.OutShape())
	what := ""
	alpha := T(1)
	switch r.Intn(4) {
	case 0:
		what = "different numbers of samples and targets"
		if r.Bool() {
			ins = append(ins, mk(1+r.Intn(2), s.InShape())...)
		} else {
			outs = append(outs, mk(1+r.Intn(2), s.OutShape())...)
		}
	case 1:
		what = "no samples"
		ins, outs = nil, nil
	case 2:
		what = "samples of the wrong shape"
		sh := nn.OtherShape(r, s.InShape())
		ins = mk(n+1, sh)
		outs = mk(n+1, s.OutShape())
	case 3:
		what = "targets of the wrong shape"
		sh := nn.OtherShape(r, s.OutShape())
		ins = mk(n+1, s.InShape())
		outs = mk(n+1, sh)
	}
	epochs, batch := uint(r.Range(1, 3)), uint(r.Range(1, 3))
	c.NoPanic("reject", func() {
		err := net.M.Train(ins, outs, epochs, batch, alpha, 0)
		if err == nil {
			c.Fail("reject", "Train accepted %s", what)
		}
	})
	if compiled {
		nn.MustRaw(c, "reject", "parameters after Train rejected "+what, net.Raw(), raw)
	}
	c.Ev("rejections", 1)
	// the model is still usable
	x, t := nn.Sample[T](r, s.InShape()), nn.Sample[T](r, s.OutShape())
	net.Predict(c, x)
	net.TrainOne(c, x, t, 0, 0)
	c.Distinct("reject %s %s %d", what, s.String(), n)
}

// twin: Train equals the same steps done one by one.
func twin[T types.Number](c *mon.C) {
	r := c.R
	s := nn.Gen(r, nn.Opt{Image: r.Bool(), NeedParam: 1, MaxNodes: 3, Pure: nn.AllPure, LastPure: true, MaxSize: 80})
	c.Desc("Train against single steps of %s", nn.Describe[T](s))
	a, b := nn.Make[T](s, r.Bool()), nn.Make[T](s, r.Bool())
	a.Compile(c)
	b.Compile(c)
	a.Calm(c)
	b.SetRaw(c, a.Raw())
	// one sample, so that the order is known
	x, t := nn.Sample[T](r, s.InShape()), nn.Sample[T](r, s.OutShape())
	al, mo := T(mon.Pick(r, 0.1, 0.02)), T(mon.Pick(r, 0, 0.5, 0.9))
	epochs, batch := r.Range(0, 4), r.Range(0, 4)
	c.NoPanic("train", func() {
		if err := a.M.Train([]tensor.Tensor[T]{tk.Ten(x)}, []tensor.Tensor[T]{tk.Ten(t)}, uint(epochs), uint(batch), al, mo); err != nil {
			c.Fail("train", "%v", err)
		}
	})
	if batch == 0 {
		batch = 1
	}
	for k := 0; k < epochs*batch; k++ {
		b.TrainOne(c, x, t, al, mo)
	}
	nn.MustRaw(c, "twin", "parameters after Train, compared with the same steps one by one", a.Raw(), b.Raw())
	c.Ev("twins_compared", 1)
	c.Distinct("twin %s %d %d", s.String(), epochs, batch)
}

// terminal: Train shows its progress where standard output is a terminal. That
// is the only difference.
func terminal[T types.Number](c *mon.C) {
	r := c.R
	var xs, bs []T
	slow := -1
	l1 := layer.NewInDense[T](1, 1, tap[T]{&xs, func(T) T {
		if len(xs) == slow {
			time.Sleep(320 * time.Millisecond)
		}
		return 0
	}})
	l2 := layer.NewDense[T](1, tap[T]{&bs, func(x T) T { return x }})
	m := model.NewModel[T]().Push(l1).Push(l2)
	c.NoPanic("compile", func() {
		if err := m.Compile(); err != nil {
			c.Fail("compile", "%v", err)
		}
	})
	l1.SetTrainable(false)
	d1, d2 := l1.(*layer.Dense[T]), l2.(*layer.Dense[T])
	d1.Weights.LoadData([]T{1})
	d1.Bias.LoadData([]T{0})
	d2.Weights.LoadData([]T{3})
	d2.Bias.LoadData([]T{-1})
	n := r.Range(1, 5)
	epochs, batch := r.Range(1, 12), r.Range(0, 12)
	per := batch
	if per == 0 {
		per = n
	}
	slow = r.Range(1, epochs*per)
	if r.P(0.3) {
		slow = epochs * per
	}
	base := T(100)
	switch r.Intn(4) {
	case 0:
		base = T(30000) // a long loss
	case 1:
		if tk.IsFloat[T]() {
			base = T(mon.Pick(r, 1e12, 1e30, -1e20))
		}
	}
	var ins, outs []tensor.Tensor[T]
	for i := 0; i < n; i++ {
		ins = append(ins, tk.Ten(tk.Arr[T]{Shape: []uint{1}, Data: []T{T(10 + i)}}))
		outs = append(outs, tk.Ten(tk.Arr[T]{Shape: []uint{1}, Data: []T{base}}))
	}
	columns := uint16(mon.Pick(r, 0, 1, 2, 3, 10, 40, 60, 70, 75, 80, 120, 1000))
	c.Desc("%s Train on a terminal of %d columns, %d samples, %d epochs, batch %d, a pause in step %d, targets %v", tk.TypeName[T](), columns, n, epochs, batch, slow, base)
	shown, ok := tk.OnTerminal(columns, func() {
		c.NoPanic("terminal", func() {
			if err := m.Train(ins, outs, uint(epochs), uint(batch), 1, 0); err != nil {
				c.Fail("terminal", "valid samples were rejected: %v", err)
			}
		})
	})
	if !ok {
		c.Ev("no_terminal", 1)
		return
	}
	if len(xs) != epochs*per || len(bs) != epochs*per {
		c.Fail("terminal", "%d epochs of %d made %d passes through the first and %d through the last layer", epochs, per, len(xs), len(bs))
	}
	for k, x := range xs {
		if i := int(x) - 10; i < 0 || i >= n || T(i+10) != x {
			c.Fail("terminal", "step %d used %v, which is none of the samples", k, x)
		}
	}
	if got := d2.Bias.GetData()[0]; !nn.EqNum(got, base) && base == 100 {
		c.Fail("terminal", "after training the bias is %v, not the target %v", got, base)
	}
	c.Ev("steps_observed", len(xs))
	c.Ev("terminal_bytes", shown)
	c.Ev("terminal_runs", 1)
	c.Eval(1)
	c.Distinct("terminal %d %d %d %d", columns, n, epochs, batch)
}

func main() {
	mon.Main(mon.Check{
		ID:    "C18",
		Scale: 8,
		Rule:  "one case = one or more Train calls whose complete sequence of (sample, target) pairs is recovered with recording activations, a rejected training set, or a comparison of Train with single steps; distinct by type, number of samples, epochs and batch, or architecture",
		Need:  map[string]int64{"steps_observed": 20000, "rejections": 1000, "coverage_checked": 20, "twins_compared": 500},
		Groups: []mon.Group{
			{Name: "sequence", Quick: 4000, Thorough: 60000, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { sequence[float32](c) }, func() { sequence[float64](c) }, func() { sequence[int](c) },
					func() { sequence[int16](c) }, func() { sequence[int32](c) }, func() { sequence[int64](c) })
			}},
			{Name: "coverage", Quick: 100, Thorough: 1000, Run: coverage},
			{Name: "huge", Fixed: true, Quick: 8, Thorough: 64, Run: coverage},
			{Name: "terminal", Fixed: true, Quick: 48, Thorough: 1200, Run: func(c *mon.C) {
				mon.Pick(c.R, terminal[float32], terminal[float64], terminal[int], terminal[int16])(c)
			}},
			{Name: "reject", Quick: 2000, Thorough: 30000, Run: func(c *mon.C) {
				mon.Pick(c.R, reject[float32], reject[float64], reject[int])(c)
			}},
			{Name: "twin", Quick: 1000, Thorough: 20000, Run: func(c *mon.C) {
				nn.ForTypeF(c.Index, func() { twin[float32](c) }, func() { twin[float64](c) })
			}},
		},
	})
}
