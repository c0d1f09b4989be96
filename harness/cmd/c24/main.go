// C24: work on separate models, tensors and images is isolated, in any
// interleaving.
package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/img"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/nn"
	"verif/harness/tk"
)

// shared is what the goroutines of a case have in common; all of it is only
// read.
type shared[T types.Number] struct {
	dir   string
	pool  map[nn.Act]activation.Activation[T]
	insts []tk.Inst[T]
	mats  [][]*tensor.TensorMat[T]
	pics  []string
	// a model that is only loaded from
	saved []byte
	spec  nn.Spec
	// samples and targets
	xs, ts []tensor.Tensor[T]
}

// task is the work of one goroutine. It keeps a record of everything it sees.
type task[T types.Number] struct {
	c     *mon.C
	kind  string
	yield func()
	trace []uint64
	// owner gives file names of its own
	owner string
}

func bits[T types.Number](v T) uint64 {
	f := float64(v)
	if f != f {
		return 1
	}
	return math.Float64bits(f)
}

func (t *task[T]) note(vs ...T) {
	for _, v := range vs {
		t.trace = append(t.trace, bits(v))
	}
}

func (t *task[T]) noteArr(a tk.Arr[T]) {
	for _, d := range a.Shape {
		t.trace = append(t.trace, uint64(d))
	}
	t.note(a.Data...)
}

func (t *task[T]) noteRaw(raw [][]T) {
	for _, x := range raw {
		t.note(x...)
	}
}

// slow readers and writers give way to the others between the pieces.
type slowWriter struct {
	b     bytes.Buffer
	yield func()
}

func (w *slowWriter) Write(b []byte) (int, error) {
	w.yield()
	n, err := w.b.Write(b)
	w.yield()
	return n, err
}

type slowReader struct {
	r     io.Reader
	yield func()
}

func (r *slowReader) Read(b []byte) (int, error) {
	r.yield()
	if len(b) > 7 {
		b = b[:7]
	}
	n, err := r.r.Read(b)
	r.yield()
	return n, err
}

func opts[T types.Number](r *mon.Rng) nn.Opt {
	o := nn.Opt{Image: r.Bool(), Pure: nn.AllPure, NeedParam: 1, LastPure: true, MaxSize: 80, MaxNodes: 4, Branch: r.P(0.3)}
	if !tk.IsFloat[T]() {
		o.Acts, o.Pure = nn.IntActs, []string{"flatten", "maxpool", "up", "sub"}
	}
	return o
}

func rate[T types.Number](r *mon.Rng) T {
	if tk.IsFloat[T]() {
		return T(mon.Pick(r, 0.05, 0.01))
	}
	return 1
}

// model: builds, predicts, trains, saves and loads a model of its own.
func (t *task[T]) model(sh *shared[T]) {
	c, r := t.c, t.c.R
	s := nn.Gen(r, opts[T](r))
	onShared := r.P(0.5)
	if onShared {
		s = sh.spec
	}
	s.Hook, s.Pool = t.yield, sh.pool
	net := nn.Make[T](s, r.Bool())
	t.yield()
	net.Compile(c)
	t.yield()
	if onShared {
		net.M.ResetLoad()
		if err := net.M.Load(&slowReader{bytes.NewReader(sh.saved), t.yield}); err != nil {
			c.Fail("load", "%v", err)
		}
	} else {
		net.Calm(c)
	}
	t.noteRaw(net.Raw())
	sample := func() (x, y tensor.Tensor[T]) {
		if onShared && r.Bool() {
			k := r.Intn(len(sh.xs))
			return sh.xs[k], sh.ts[k]
		}
		return tk.Ten(nn.Sample[T](r, s.InShape())), tk.Ten(nn.Sample[T](r, s.OutShape()))
	}
	for k := r.Range(3, 9); k > 0; k-- {
		t.yield()
		x, y := sample()
		switch r.Intn(7) {
		case 0, 1:
			p, err := net.M.Predict(x)
			if err != nil {
				c.Fail("predict", "%v", err)
			}
			t.yield()
			t.noteArr(tk.Read[T](c, "predict", p))
			c.Ev("predictions", 1)
		case 2, 3:
			l, err := net.M.TrainOne(x, y, rate[T](r), rate[T](r))
			if err != nil {
				c.Fail("train", "%v", err)
			}
			t.note(l)
			c.Ev("training_steps", 1)
		case 4:
			// one sample only: the choice of the sample is drawn from the common
			// source of random numbers
			if err := net.M.Train([]tensor.Tensor[T]{x}, []tensor.Tensor[T]{y}, uint(r.Range(1, 2)), uint(r.Range(0, 2)), rate[T](r), 0); err != nil {
				c.Fail("train", "%v", err)
			}
			c.Ev("train_calls", 1)
		case 5:
			w := &slowWriter{yield: t.yield}
			net.M.ResetSave()
			if err := net.M.Save(w); err != nil {
				c.Fail("save", "%v", err)
			}
			c.Ev("saves", 1)
			other := nn.Make[T](s, r.Bool())
			other.Compile(c)
			other.M.ResetLoad()
			if err := other.M.Load(&slowReader{&w.b, t.yield}); err != nil {
				c.Fail("load", "%v", err)
			}
			t.noteRaw(other.Raw())
			c.Ev("loads", 1)
			if r.Bool() {
				net = other
			}
		default:
			net.M.SetTrainable(true)
			t.trace = append(t.trace, mon.Hash(net.M.String()))
		}
		t.noteRaw(net.Raw())
	}
}

// composed: two models of its own, joined.
func (t *task[T]) composed(sh *shared[T]) {
	c, r := t.c, t.c.R
	o := opts[T](r)
	o.Branch, o.MaxNodes = false, 3
	a := nn.Gen(r, o)
	o.In = a.OutShape()
	o.Image = o.Image && len(o.In) == 3
	b := nn.Gen(r, o)
	a.Hook, b.Hook = t.yield, t.yield
	a.Pool, b.Pool = sh.pool, sh.pool
	na, nb := nn.Make[T](a, r.Bool()), nn.Make[T](b, r.Bool())
	t.yield()
	m, err := model.FromModels[T](na.M, nb.M)
	if err != nil {
		c.Fail("compose", "%v", err)
	}
	na.Calm(c)
	nb.Calm(c)
	for k := r.Range(2, 5); k > 0; k-- {
		t.yield()
		x, y := tk.Ten(nn.Sample[T](r, a.InShape())), tk.Ten(nn.Sample[T](r, b.OutShape()))
		if r.Bool() {
			p, err := m.Predict(x)
			if err != nil {
				c.Fail("predict", "%v", err)
			}
			t.noteArr(tk.Read[T](c, "predict", p))
			c.Ev("predictions", 1)
		} else {
			l, err := m.TrainOne(x, y, rate[T](r), 0)
			if err != nil {
				c.Fail("train", "%v", err)
			}
			t.note(l)
			c.Ev("training_steps", 1)
		}
		t.noteRaw(na.Raw())
		t.noteRaw(nb.Raw())
	}
}

// tensors: operations on tensors of its own and at-once operations on common
// ones.
func (t *task[T]) tensors(sh *shared[T]) {
	c, r := t.c, t.c.R
	ops := tk.AllOps()
	for k := r.Range(4, 12); k > 0; k-- {
		t.yield()
		switch r.Intn(4) {
		case 0:
			i := tk.AnyInst[T](r, ops[r.Intn(len(ops))])
			got := i.RunLazy(c)
			tk.MustClose(c, "graph", got, i.Want, i.Tol, i.Scale)
			t.noteArr(got)
		case 1:
			i := tk.AnyInst[T](r, ops[r.Intn(len(ops))])
			if i.Eager == nil {
				continue
			}
			got := i.RunEager(c)
			tk.MustClose(c, "eager", got, i.Want, i.Tol, i.Scale)
			t.noteArr(got)
		case 2:
			k := r.Intn(len(sh.insts))
			i := sh.insts[k]
			if i.Eager == nil {
				continue
			}
			out, err := i.Eager(sh.mats[k])
			if err != nil {
				c.Fail("eager", "%v", err)
			}
			t.yield()
			got := tk.Read[T](c, "eager", out)
			tk.MustClose(c, "common-operand", got, i.Want, i.Tol, i.Scale)
			t.noteArr(got)
			c.Ev("operations_on_common_operands", 1)
			// the result is this goroutine's own
			if err := out.LoadData(make([]T, out.GetSize())); err != nil {
				c.Fail("eager", "%v", err)
			}
		default:
			k := r.Intn(len(sh.mats))
			m := sh.mats[k][0]
			t.noteArr(tk.Read[T](c, "common", m))
			t.trace = append(t.trace, mon.Hash(m.String()))
			w := &slowWriter{yield: t.yield}
			if err := m.SaveFull(w); err != nil {
				c.Fail("save", "%v", err)
			}
			o := tensor.NewZeros[T](1)
			if err := o.LoadFull(&slowReader{&w.b, t.yield}); err != nil {
				c.Fail("load", "%v", err)
			}
			nn.MustData(c, "save", "a saved tensor", tk.Read[T](c, "load", o), sh.insts[k].In[0])
			c.Ev("tensors_saved", 1)
		}
	}
}

// graphs: one graph, run again and again with other numbers, with a function
// that gives way in the middle.
func (t *task[T]) graphs(sh *shared[T]) {
	c, r := t.c, t.c.R
	ops := tk.AllOps()
	i := tk.AnyInst[T](r, ops[r.Intn(len(ops))])
	x := make([]tensor.Tensor[T], len(i.In))
	for k := range x {
		x[k] = tk.Ten(i.In[k])
	}
	act := nn.Act{Name: "linear"}
	out := i.Lazy(x)
	end := tensor.Activate[T](out, nn.Hooked[T](nn.MakeAct[T](act), t.yield).Activate)
	g, err := graph.NewGraph[T](end)
	if err != nil {
		c.Fail("graph", "%v", err)
	}
	for k := r.Range(2, 5); k > 0; k-- {
		t.yield()
		g.Exec()
		c.Ev("graph_runs", 1)
		got := tk.Read[T](c, "graph", end)
		tk.MustClose(c, "graph", got, i.Want, i.Tol, i.Scale)
		t.noteArr(got)
		n := r.Intn(len(x))
		for a, b := 0, len(i.In[n].Data)-1; a < b; a, b = a+1, b-1 {
			i.In[n].Data[a], i.In[n].Data[b] = i.In[n].Data[b], i.In[n].Data[a]
		}
		if err := x[n].LoadData(append([]T{}, i.In[n].Data...)); err != nil {
			c.Fail("graph", "%v", err)
		}
		i.Want = i.Ref(i.In)
	}
}

// images: loads common files, saves and scales its own.
func (t *task[T]) images(sh *shared[T]) {
	c, r := t.c, t.c.R
	for k := r.Range(2, 5); k > 0; k-- {
		t.yield()
		p := sh.pics[r.Intn(len(sh.pics))]
		var a tensor.Tensor[T]
		var err error
		switch r.Intn(3) {
		case 0:
			a, err = img.LoadImage[T](p)
		case 1:
			a, err = img.LoadSimpleScaled[T](p, uint(r.Range(1, 9)), uint(r.Range(1, 9)))
		default:
			a, err = img.LoadSmoothScaled[T](p, uint(r.Range(1, 9)), uint(r.Range(1, 9)))
		}
		if err != nil {
			c.Fail("image", "%v", err)
		}
		t.yield()
		t.noteArr(tk.Read[T](c, "image", a))
		path := filepath.Join(sh.dir, fmt.Sprintf("%s-%d.png", t.owner, k))
		if err := img.PngSave[T](a, path); err != nil {
			c.Fail("image", "%v", err)
		}
		t.yield()
		b, err := img.LoadImage[T](path)
		if err != nil {
			c.Fail("image", "%v", err)
		}
		t.noteArr(tk.Read[T](c, "image", b))
		c.Ev("images", 2)
	}
}

// random tensors: nothing but their ranges can be said.
func (t *task[T]) random(sh *shared[T]) {
	c, r := t.c, t.c.R
	for k := r.Range(3, 8); k > 0; k-- {
		t.yield()
		shape := tk.AnyShape(r)
		for _, v := range tk.Read[T](c, "rand", tensor.NewRand[T](0, 5, shape...)).Data {
			if !(v >= 0 && v <= 5) {
				c.Fail("rand", "%v is not in [0, 5]", v)
			}
		}
		tk.Read[T](c, "rand", tensor.NewNormRand[T](shape...))
		c.Ev("random_tensors", 2)
	}
}

func (t *task[T]) run(sh *shared[T]) {
	switch t.kind {
	case "model":
		t.model(sh)
	case "composed":
		t.composed(sh)
	case "tensors":
		t.tensors(sh)
	case "graphs":
		t.graphs(sh)
	case "images":
		t.images(sh)
	case "random":
		t.random(sh)
	}
}

var kinds = []string{"model", "model", "model", "composed", "tensors", "tensors", "graphs", "images", "random"}

func prepare[T types.Number](c *mon.C, dir string) *shared[T] {
	r := c.R
	sh := &shared[T]{dir: dir, pool: map[nn.Act]activation.Activation[T]{}}
	acts := nn.AllActs
	if !tk.IsFloat[T]() {
		acts = nn.IntActs
	}
	for _, a := range acts {
		sh.pool[a] = nn.MakeAct[T](a)
	}
	ops := tk.AllOps()
	for k := 0; k < 6; k++ {
		i := tk.AnyInst[T](r, ops[r.Intn(len(ops))])
		var ms []*tensor.TensorMat[T]
		for _, a := range i.In {
			ms = append(ms, tk.Ten(a))
		}
		sh.insts, sh.mats = append(sh.insts, i), append(sh.mats, ms)
	}
	for k := 0; k < 2; k++ {
		m := image.NewNRGBA(image.Rect(0, 0, r.Range(1, 8), r.Range(1, 8)))
		for i := range m.Pix {
			m.Pix[i] = uint8(r.Intn(256))
		}
		m.Set(0, 0, color.RGBA{1, 2, 3, 255})
		p := filepath.Join(dir, fmt.Sprintf("common-%d.png", k))
		f, err := os.Create(p)
		if err == nil {
			err = png.Encode(f, m)
		}
		if err == nil {
			err = f.Close()
		}
		if err != nil {
			panic(err)
		}
		sh.pics = append(sh.pics, p)
	}
	sh.spec = nn.Gen(r, opts[T](r))
	net := nn.Make[T](sh.spec, true)
	net.Compile(c)
	net.Calm(c)
	var b bytes.Buffer
	net.M.ResetSave()
	if err := net.M.Save(&b); err != nil {
		c.Fail("save", "%v", err)
	}
	sh.saved = b.Bytes()
	for k := 0; k < 3; k++ {
		sh.xs = append(sh.xs, tk.Ten(nn.Sample[T](r, sh.spec.InShape())))
		sh.ts = append(sh.ts, tk.Ten(nn.Sample[T](r, sh.spec.OutShape())))
	}
	return sh
}

type plan struct {
	kinds []string
	seeds []uint64
}

func draw(r *mon.Rng, n int) plan {
	var p plan
	for i := 0; i < n; i++ {
		p.kinds = append(p.kinds, kinds[r.Intn(len(kinds))])
		p.seeds = append(p.seeds, r.U64())
	}
	if r.P(0.3) {
		// two goroutines doing exactly the same
		p.kinds[1], p.seeds[1] = p.kinds[0], p.seeds[0]
	}
	return p
}

func (p plan) tasks(c *mon.C, what string) (ts []*tsk) {
	for i := range p.kinds {
		ts = append(ts, &tsk{c: c.Sub(p.seeds[i]), kind: p.kinds[i], owner: fmt.Sprintf("%s%d", what, i)})
	}
	return ts
}

// tsk without the type
type tsk struct {
	c           *mon.C
	kind, owner string
	yield       func()
	trace       []uint64
	sig, msg    string
	failed      bool
}

func exec[T types.Number](x *tsk, sh *shared[T]) {
	t := &task[T]{c: x.c, kind: x.kind, owner: x.owner, yield: x.yield}
	x.sig, x.msg, x.failed = x.c.Try(func() { t.run(sh) })
	x.trace = t.trace
}

// free lets all goroutines run, with extra scheduling points.
func free[T types.Number](c *mon.C, ts []*tsk, sh *shared[T]) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	// nothing in here may order the goroutines among each other
	yields := make([]int, len(ts))
	began, ended := make([]time.Time, len(ts)), make([]time.Time, len(ts))
	for i, x := range ts {
		i, x := i, x
		yr := mon.NewRng(c.Seed + uint64(i))
		n := 0
		x.yield = func() {
			if yr.P(0.15) {
				n++
				runtime.Gosched()
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			began[i] = time.Now()
			exec(x, sh)
			ended[i] = time.Now()
			yields[i] = n
		}()
	}
	close(start)
	wg.Wait()
	c.Ev("goroutines", len(ts))
	for i := range ts {
		c.Ev("yields", yields[i])
		for j := range ts[:i] {
			if began[i].Before(ended[j]) && began[j].Before(ended[i]) {
				c.Ev("overlapping_pairs", 1)
			}
		}
	}
}

// woven runs one goroutine at a time and switches at drawn points, down to the
// middle of a forward pass or of a file.
func woven[T types.Number](c *mon.C, ts []*tsk, sh *shared[T]) (order uint64, switches int) {
	r := mon.NewRng(c.Seed ^ 0x77)
	n := len(ts)
	gate := make([]chan struct{}, n)
	live := make([]int, n)
	for i := range gate {
		gate[i] = make(chan struct{}, 1)
		live[i] = i
	}
	done := make(chan struct{})
	p := mon.Pick(r, 0.02, 0.1, 0.4)
	for i, x := range ts {
		i, x := i, x
		x.yield = func() {
			if !r.P(p) {
				return
			}
			k := live[r.Intn(len(live))]
			if k == i {
				return
			}
			switches++
			order = order*1099511628211 + uint64(k) + 1
			gate[k] <- struct{}{}
			<-gate[i]
		}
		go func() {
			<-gate[i]
			exec(x, sh)
			for j, k := range live {
				if k == i {
					live = append(live[:j], live[j+1:]...)
					break
				}
			}
			if len(live) == 0 {
				close(done)
				return
			}
			k := live[r.Intn(len(live))]
			order = order*1099511628211 + uint64(k) + 1
			gate[k] <- struct{}{}
		}()
	}
	gate[r.Intn(n)] <- struct{}{}
	<-done
	return order, switches
}

func alone[T types.Number](ts []*tsk, sh *shared[T]) {
	for _, x := range ts {
		x.yield = func() {}
		exec(x, sh)
	}
}

func compare(c *mon.C, how string, got, want []*tsk) {
	for i := range got {
		c.Absorb(got[i].c)
		c.Absorb(want[i].c)
	}
	for i := range got {
		g, w := got[i], want[i]
		if w.failed {
			c.Fail(w.sig, "on its own, %s: %s", w.kind, w.msg)
		}
		if g.failed {
			c.Fail(g.sig, "%s, goroutine %d (%s): %s", how, i, g.kind, g.msg)
		}
		if len(g.trace) != len(w.trace) {
			c.Fail("trace", "%s, goroutine %d (%s) saw %d numbers, alone %d", how, i, g.kind, len(g.trace), len(w.trace))
		}
		for k := range g.trace {
			if g.trace[k] != w.trace[k] {
				c.Fail("trace", "%s, goroutine %d (%s): number %d of %d is %v, alone it is %v", how, i, g.kind, k, len(g.trace),
					math.Float64frombits(g.trace[k]), math.Float64frombits(w.trace[k]))
			}
		}
		c.Ev("observations_compared", len(g.trace))
		c.Eval(1)
	}
}

func run[T types.Number](c *mon.C, weave bool) {
	dir, err := os.MkdirTemp("", "verif-conc-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	sh := prepare[T](c, dir)
	n := c.R.Range(2, 6)
	p := draw(c.R, n)
	c.Desc("%s %s", tk.TypeName[T](), strings.Join(p.kinds, " | "))
	// first all together, so that anything set up on first use is raced for
	a, b := p.tasks(c, "a"), p.tasks(c, "b")
	if weave {
		order, sw := woven(c, a, sh)
		c.Ev("switches", sw)
		c.Distinct("%s %v %x", tk.TypeName[T](), p.kinds, order)
	} else {
		free(c, a, sh)
		c.Distinct("%s %v %v", tk.TypeName[T](), p.kinds, p.seeds)
	}
	alone(b, sh)
	compare(c, map[bool]string{false: "in parallel", true: "interleaved"}[weave], a, b)
	// the common operands and samples are as they were
	for k := range sh.insts {
		for j, m := range sh.mats[k] {
			tk.MustEqual(c, "common", tk.Read[T](c, "common", m), sh.insts[k].In[j])
		}
	}
}

func main() {
	byType := func(weave bool) func(c *mon.C) {
		return func(c *mon.C) {
			tk.ForType(c.Index, func() { run[float32](c, weave) }, func() { run[float64](c, weave) }, func() { run[int](c, weave) },
				func() { run[int16](c, weave) }, func() { run[int32](c, weave) }, func() { run[int64](c, weave) })
		}
	}
	mon.Main(mon.Check{
		ID:    "C24",
		Scale: 2,
		Rule:  "one case = 2 to 6 goroutines, each working on models, graphs, tensors or image files of its own (sharing activations, samples, a saved model, operands of at-once operations and files to read), under the race detector; parallel: all run at once with extra scheduling points; interleaved: one at a time, switched at drawn points inside forward passes, saves and loads; everything a goroutine observes is compared with the same work done alone; distinct by the work and, interleaved, by the schedule",
		Assumptions: []string{"models are not shared between goroutines; tensors given to a graph are not shared either (only operands of at-once operations and samples are)",
			"the race detector reports conflicting accesses that executed without ordering between them"},
		Need: map[string]int64{"goroutines": 400, "overlapping_pairs": 400, "switches": 2000, "observations_compared": 50000, "predictions": 300, "training_steps": 300,
			"loads": 50, "images": 100, "operations_on_common_operands": 60},
		Groups: []mon.Group{
			{Name: "parallel", Quick: 400, Thorough: 12000, Run: byType(false)},
			{Name: "interleaved", Quick: 400, Thorough: 12000, Run: byType(true)},
		},
	})
}
