// C29: repeated use neither grows nor leaks. Work is counted (calls of the
// activations, operations of the graphs), memory is what stays reachable after
// a collection, and goroutines and open files are counted.
package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"

	"github.com/julioguillermo/godeep/context"
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/img"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/nn"
	"verif/harness/tk"
)

func heap() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func files() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(d)
}

// steady runs round over and over and reports what stays behind. The bytes are
// first compared loosely; only what keeps growing in a longer second run counts.
func steady(c *mon.C, what string, rounds, perRound int, round func(k int)) {
	for k := 0; k < 6; k++ {
		round(k)
	}
	g0, f0, h0 := runtime.NumGoroutine(), files(), heap()
	for k := 0; k < rounds; k++ {
		round(k)
	}
	grown := heap() - h0
	if grown > int64(rounds*perRound) {
		h1 := heap()
		for k := 0; k < 4*rounds; k++ {
			round(k)
		}
		more := heap() - h1
		if more > int64(4*rounds*perRound) && more > 2*grown {
			c.Fail("memory", "%s: %d bytes stay in use after %d rounds, %d more after %d more", what, grown, rounds, more, 4*rounds)
		}
		c.Ev("memory_remeasured", 1)
	}
	if g := runtime.NumGoroutine(); g > g0+3 {
		c.Fail("goroutines", "%s: %d goroutines after %d rounds, %d before", what, g, rounds, g0)
	}
	if f := files(); f > f0+2 {
		c.Fail("files", "%s: %d open files after %d rounds, %d before", what, f, rounds, f0)
	}
	c.Eval(3)
	c.Ev("rounds_watched", rounds)
}

// ops of the graphs of a model.
func ops[T types.Number](m *model.Model[T]) int {
	n := 0
	for _, g := range []*graph.Graph{m.GraphFeedForward, m.GraphBackPropagation, m.GraphCalDif, m.GraphReset, m.GraphResetFit} {
		if g != nil {
			n += len(g.Operations)
		}
	}
	return n
}

func use[T types.Number](c *mon.C, m *model.Model[T], calls *int, in, out []uint, train bool) {
	r := c.R
	x := []tensor.Tensor[T]{tk.Ten(nn.Sample[T](r, in)), tk.Ten(nn.Sample[T](r, in))}
	t := []tensor.Tensor[T]{tk.Ten(nn.Sample[T](r, out)), tk.Ten(nn.Sample[T](r, out))}
	bad := tk.Ten(nn.Sample[T](r, nn.OtherShape(r, in)))
	must := func(err error) {
		if err != nil {
			c.Fail("use", "%v", err)
		}
	}
	predict := func(k int) {
		_, err := m.Predict(x[k&1])
		must(err)
	}
	fit := func(k int) {
		_, err := m.TrainOne(x[k&1], t[k&1], 0, 0)
		must(err)
	}
	var saved bytes.Buffer
	predict(0)
	if train {
		fit(0)
	}
	m.ResetSave()
	must(m.Save(&saved))
	// the work of one prediction and of one step
	work := func(f func(k int), k int) int {
		*calls = 0
		f(k)
		return *calls
	}
	type kind struct {
		name string
		f    func(k int)
	}
	kinds := []kind{{"predict", predict}}
	if train {
		kinds = append(kinds, kind{"train", fit})
	}
	first := make([]int, len(kinds))
	for i, q := range kinds {
		first[i] = work(q.f, 0)
	}
	n0 := ops(m)
	other := []kind{
		{"refused", func(int) {
			if _, err := m.Predict(bad); err == nil {
				c.Fail("use", "a sample of another shape was accepted")
			}
			if train {
				if _, err := m.TrainOne(bad, t[0], 1, 1); err == nil {
					c.Fail("use", "a sample of another shape was accepted")
				}
			}
		}},
		{"save", func(int) { m.ResetSave(); must(m.Save(io.Discard)) }},
		{"load", func(int) { m.ResetLoad(); must(m.Load(bytes.NewReader(saved.Bytes()))) }},
		{"text", func(int) { _ = m.String() }},
		{"reset", func(int) { must(m.ResetIS()) }},
		{"compile", func(int) { must(m.Compile()); must(m.CompileBackPropagation()) }},
		{"freeze", func(k int) { m.SetTrainable(k&1 == 0) }},
	}
	all := append(append([]kind{}, kinds...), other...)
	if !train {
		// compiling for training adds to the model once
		must(m.CompileBackPropagation())
		n0 = ops(m)
	}
	// a few kinds of use in every round
	var some []kind
	some = append(some, kinds...)
	names := ""
	for _, q := range all {
		if r.P(0.5) {
			some = append(some, q)
			names += " " + q.name
		}
	}
	c.Note("rounds of%s", names)
	rounds := r.Range(60, 160)
	c.NoPanic("use", func() {
		steady(c, "a model", rounds, 40, func(k int) {
			for _, q := range some {
				q.f(k)
			}
		})
		// small losses show in many rounds of one kind of use
		if n0 < 1500 {
			q := all[r.Intn(len(all))]
			steady(c, "many times "+q.name, 3000, 6, q.f)
			c.Ev("long_runs", 1)
		}
		for i, q := range kinds {
			if w := work(q.f, 1); w > first[i] {
				c.Fail("work", "%s calls the activations %d times, %d at first", q.name, w, first[i])
			}
			c.Eval(1)
		}
		if n := ops(m); n > n0 {
			c.Fail("graph", "the graphs grew from %d to %d operations", n0, n)
		}
	})
	c.Ev("models_used", 1)
}

func single[T types.Number](c *mon.C) {
	r := c.R
	o := nn.Opt{Image: r.Bool(), Branch: r.P(0.4), Pure: nn.AllPure, NeedParam: 1, LastPure: true, MaxSize: 60, MaxNodes: 6, Nest: r.P(0.3)}
	if !tk.IsFloat[T]() {
		o.Acts = nn.IntActs
		o.Pure = []string{"flatten", "sub", "maxpool", "up"} // (the others divide)
	}
	s := nn.Gen(r, o)
	calls := 0
	s.Hook = func() { calls++ }
	c.Desc("use of %s", nn.Describe[T](s))
	net := nn.Make[T](s, r.Bool())
	net.Compile(c)
	net.Calm(c)
	use[T](c, net.M, &calls, s.InShape(), s.OutShape(), r.P(0.8))
	c.Distinct("use %s %s", tk.TypeName[T](), s.String())
}

func composed(c *mon.C) {
	r := c.R
	specs := nn.Parts(r, r.Range(2, 3), nn.Opt{NeedParam: 1, MaxNodes: 3, MaxSize: 40})
	calls := 0
	for i := range specs {
		specs[i].Hook = func() { calls++ }
	}
	c.Desc("use of a composition of %v", specs)
	w := nn.Compose[float64](c, specs, "")
	use[float64](c, w.M, &calls, specs[0].InShape(), specs[len(specs)-1].OutShape(), true)
	// composing the same parts again and again
	var ms []*model.Model[float64]
	n := 0
	for _, p := range w.Nets {
		ms = append(ms, p.M)
		n += ops(p.M)
	}
	c.NoPanic("recompose", func() {
		steady(c, "composing", 60, 40, func(int) {
			m, err := model.FromModels[float64](ms...)
			if err != nil {
				c.Fail("recompose", "%v", err)
			}
			if k := ops(m); k > n {
				c.Fail("recompose", "a composition has %d operations, its parts %d", k, n)
			}
		})
	})
	after := 0
	for _, p := range w.Nets {
		after += ops(p.M)
	}
	if after > n {
		c.Fail("recompose", "composing grew the parts from %d to %d operations", n, after)
	}
	c.Ev("compositions", 1)
	c.Distinct("composed %v", specs)
}

// size3 makes square operands so that every operation keeps the size.
var binary = []string{"add", "sub", "mul", "div", "dot", "copy"}
var unary = []string{"neg", "abs", "adds", "activate", "softmax", "reshape", "transpose", "sub", "subext", "sum", "dsum", "dmax", "concat", "fill", "flatten"}

func apply2[T types.Number](op string, a, b tensor.Tensor[T]) tensor.Tensor[T] {
	switch op {
	case "add":
		return tensor.Add(a, b)
	case "sub":
		return tensor.Sub(a, b)
	case "mul":
		return tensor.Mul(a, b)
	case "div":
		return tensor.Div(a, b)
	case "dot":
		return tensor.Dot(a, b)
	}
	return tensor.CopyTo(a, b)
}

func apply1[T types.Number](op string, a tensor.Tensor[T], n uint) tensor.Tensor[T] {
	switch op {
	case "neg":
		return tensor.Neg(a)
	case "abs":
		return tensor.Abs(a)
	case "adds":
		return tensor.AddScalar(a, number.NewScalar[T](2))
	case "activate":
		return tensor.Activate(a, func(x T) T { return x })
	case "softmax":
		return tensor.SoftMax(a)
	case "reshape":
		return tensor.Reshape(a, n*n, 1)
	case "flatten":
		return tensor.Flatten(a)
	case "transpose":
		return tensor.Transpose(a)
	case "sub":
		return tensor.SubTensor(a, 1, 0, n)
	case "subext":
		return tensor.SubExtendedTensor(a, 1, 0, n+1)
	case "sum":
		return tensor.Sum(a)
	case "dsum":
		return tensor.DSum(a, 0)
	case "dmax":
		return tensor.DMax(a, 0)
	case "concat":
		return tensor.Concat[T](a, tensor.NewOnes[T](n, 1), 1)
	}
	return tensor.FillWith(a, number.NewScalar[T](3))
}

func built[T types.Number](c *mon.C, t tensor.Tensor[T]) int {
	ctx := context.NewCTX()
	n := 0
	c.NoPanic("build", func() {
		if err := t.BuildGraph(ctx); err != nil {
			c.Fail("build", "%v", err)
		}
		n = len(ctx.GetOps())
	})
	return n
}

// sharing: an expression of d levels, each using the one before twice, has work
// for d levels and not for 2^d paths.
func sharing(c *mon.C) {
	r := c.R
	op := binary[c.Index%(len(binary)-1)]
	mix := r.P(0.5)
	n := uint(r.Range(1, 4))
	c.Desc("sharing %s (mixed %v) of %dx%d", op, mix, n, n)
	seed := r.U64()
	levels := func(d int) int {
		q := mon.NewRng(seed)
		var t tensor.Tensor[float64] = tk.Ten(tk.Gen[float64](r, []uint{n, n}, tk.Unit))
		prev := t
		for k := 0; k < d; k++ {
			o, u := op, t
			if mix {
				if q.P(0.3) {
					o = binary[q.Intn(len(binary)-1)]
				}
				if q.P(0.3) {
					u = prev
				}
				if q.P(0.3) {
					u = apply1(mon.Pick(q, "neg", "abs", "adds", "activate", "transpose"), u, n)
				}
			}
			prev, t = t, apply2(o, t, u)
		}
		return built(c, t)
	}
	a, b := levels(6), levels(14)
	// (14 levels have at most 14/6 of the work of 6, and the mix is not even)
	if b > 8*(a+int(n*n)) {
		c.Fail("sharing", "an expression of 6 levels has %d operations, one of 14 levels %d", a, b)
	}
	c.Eval(1)
	c.Ev("shared_expressions", 1)
	c.Distinct("sharing %s %v %d", op, mix, n)
}

// once: an operation read by many others is computed once per run.
func once(c *mon.C) {
	r := c.R
	n := uint(r.Range(12, 20))
	names := append(append([]string{}, unary...), binary...)
	op := names[c.Index%len(names)]
	c.Desc("%d x %d result of %s read by many", n, n, op)
	count := func(readers int) int {
		leaf := tensor.Activate[float64](tk.Ten(tk.Gen[float64](r, []uint{n, n}, tk.Unit)), func(x float64) float64 { return x })
		var u, t tensor.Tensor[float64]
		if c.Index%len(names) < len(unary) {
			u = apply1(op, leaf, n)
		} else {
			u = apply2[float64](op, leaf, tk.Ten(tk.Gen[float64](r, []uint{n, n}, tk.Unit)))
		}
		for k := 0; k < readers; k++ {
			if v := tensor.Max(u); t == nil {
				t = v
			} else {
				t = tensor.Add(t, v)
			}
		}
		return built(c, t)
	}
	a, b := count(4), count(44)
	if b-a > 40*int(n*n)/2 {
		c.Fail("once", "4 readers of %s need %d operations, 44 readers %d", op, a, b)
	}
	c.Eval(1)
	c.Ev("shared_results", 1)
	c.Distinct("once %s %d", op, n)
}

// runs: a graph does the same work in every run, and building new graphs over
// the same tensors leaves nothing in them.
func runs(c *mon.C) {
	r := c.R
	n := uint(r.Range(2, 6))
	calls := 0
	a, b := tk.Ten(tk.Gen[float64](r, []uint{n, n}, tk.Unit)), tk.Ten(tk.Gen[float64](r, []uint{n, n}, tk.Unit))
	op2, op1 := binary[c.Index%(len(binary)-1)], mon.Pick(r, unary...)
	c.Desc("runs of %s of %s of %dx%d", op1, op2, n, n)
	expr := func() tensor.Tensor[float64] {
		u := tensor.Activate[float64](a, func(x float64) float64 { calls++; return x })
		return apply1(op1, apply2[float64](op2, u, b), n)
	}
	c.NoPanic("runs", func() {
		g, err := graph.NewGraph[float64](expr())
		if err != nil {
			c.Fail("build", "%v", err)
		}
		calls = 0
		g.Exec()
		first := calls
		if first > int(n*n) {
			c.Fail("work", "%d elements were computed %d times in one run", n*n, first)
		}
		k0 := len(g.Operations)
		steady(c, "running a graph", 3000, 6, func(int) { g.Exec() })
		calls = 0
		g.Exec()
		if calls > first || len(g.Operations) > k0 {
			c.Fail("work", "a later run computes %d elements and has %d operations, the first %d and %d", calls, len(g.Operations), first, k0)
		}
		steady(c, "building graphs", 100, 40, func(int) {
			h, err := graph.NewGraph[float64](expr())
			if err != nil {
				c.Fail("build", "%v", err)
			}
			if len(h.Operations) > k0 {
				c.Fail("graph", "a later graph has %d operations, the first %d", len(h.Operations), k0)
			}
			h.Exec()
		})
	})
	c.Ev("graphs_run", 1)
	c.Distinct("runs %s %s %d", op1, op2, n)
}

// atOnce: operations that are done at once leave nothing behind.
func atOnce(c *mon.C) {
	names := tk.AllOps()
	in := tk.AnyInst[float64](c.R, names[c.Index%len(names)])
	c.Desc("at once %s", in.Desc())
	if in.Eager == nil || len(in.In[0].Data) > 400 {
		return
	}
	x := make([]*tensor.TensorMat[float64], len(in.In))
	for k := range x {
		x[k] = tk.Ten(in.In[k])
	}
	c.NoPanic("at-once", func() {
		steady(c, "an operation", 120, 40, func(int) {
			if _, err := in.Eager(x); err != nil {
				c.Fail("at-once", "%v", err)
			}
			_ = x[0].Copy()
			_ = x[0].GetData()
			_ = x[0].String()
		})
	})
	c.Ev("operations_repeated", 1)
	c.Distinct("at once %s", in.Desc())
}

// pictures: files under ever new names are written, loaded, scaled and removed.
func pictures(c *mon.C) {
	r := c.R
	dir, err := os.MkdirTemp("", "verif-img-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	w, h := uint(r.Range(1, 9)), uint(r.Range(1, 9))
	nw, nh := uint(r.Range(1, 12)), uint(r.Range(1, 12))
	t := tensor.NewRand[float64](0, 1, 4, w, h)
	c.Desc("pictures %dx%d scaled to %dx%d", w, h, nw, nh)
	n := 0
	c.NoPanic("pictures", func() {
		steady(c, "a picture", 60, 100, func(int) {
			n++
			path := filepath.Join(dir, fmt.Sprintf("%d.png", n))
			do := func(err error) {
				if err != nil {
					c.Fail("pictures", "%v", err)
				}
			}
			if n%3 == 0 {
				do(img.JpgSave[float64](t, path, 80))
			} else {
				do(img.PngSave[float64](t, path))
			}
			m, err := img.LoadImage[float64](path)
			do(err)
			_, err = img.LoadSimpleScaled[float32](path, nw, nh)
			do(err)
			_, err = img.LoadSmoothScaled[float64](path, nw, nh)
			do(err)
			_, err = img.SimpleScale(m, nw, nh)
			do(err)
			_, err = img.SmoothScale(m, nw, nh)
			do(err)
			_, err = img.ToImg(m)
			do(err)
			if os.Truncate(path, 20) != nil {
				panic("truncate")
			}
			if _, err = img.LoadImage[float64](path); err == nil {
				c.Fail("pictures", "a truncated file was loaded")
			}
			if img.PngSave[float64](t, filepath.Join(dir, "no", "x.png")) == nil {
				c.Fail("pictures", "saved in a directory that does not exist")
			}
			os.Remove(path)
		})
	})
	c.Ev("pictures_used", n)
	c.Distinct("pictures %d %d %d %d", w, h, nw, nh)
}

func main() {
	mon.Main(mon.Check{
		ID:    "C29",
		Scale: 3,
		Rule:  "one case = one model, composition, graph, operation or kind of picture used in 60 to 160 rounds (reachable memory, goroutines, open files, calls of activations and operations of graphs measured before and after), or one expression with shared parts built at two depths; distinct by element type and architecture or expression",
		Assumptions: []string{
			"memory counts as leaked when more than 40 bytes per round (6 in runs of 3000 rounds) stay reachable in two runs, the second four times as long"},
		Need: map[string]int64{"models_used": 200, "compositions": 60, "shared_expressions": 100, "shared_results": 100, "graphs_run": 100, "long_runs": 100, "pictures_used": 2000, "rounds_watched": 20000},
		Groups: []mon.Group{
			{Name: "model", Quick: 700, Thorough: 14000, Run: func(c *mon.C) {
				switch c.Index % 4 {
				case 0:
					single[float32](c)
				case 1:
					single[int64](c)
				default:
					single[float64](c)
				}
			}},
			{Name: "composed", Quick: 240, Thorough: 5000, Run: composed},
			{Name: "sharing", Quick: 400, Thorough: 6000, Run: sharing},
			{Name: "once", Quick: 400, Thorough: 6000, Run: once},
			{Name: "runs", Quick: 400, Thorough: 6000, Run: runs},
			{Name: "at-once", Quick: 400, Thorough: 6000, Run: atOnce},
			{Name: "pictures", Quick: 60, Thorough: 1200, Run: pictures},
		},
	})
}
