// C10: a model that is saved and loaded is the same model.
package main

import (
	"bytes"
	"errors"
	"unsafe"

	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/nn"
	"verif/harness/tk"
)

func arch[T types.Number](r *mon.Rng) nn.Spec {
	o := nn.Opt{Image: r.Bool(), Pure: nn.AllPure, NeedParam: 1, LastPure: true, MaxSize: 120, Branch: r.P(0.5), Share: r.P(0.6), Nest: r.P(0.3), Big: r.P(0.04), Deep: tk.IsFloat[T]() && r.P(0.02)}
	if !tk.IsFloat[T]() {
		o.Acts, o.MaxNodes, o.Pure = nn.IntActs, 3, []string{"flatten", "maxpool", "up", "sub"}
	}
	return nn.Gen(r, o)
}

func ready[T types.Number](c *mon.C, s nn.Spec) *nn.Net[T] {
	n := nn.Make[T](s, c.R.Bool())
	n.Compile(c)
	n.Calm(c)
	if c.R.Bool() && tk.IsFloat[T]() {
		for k := c.R.Range(1, 4); k > 0 && nn.Bounded(n.Raw()); k-- {
			n.Disturb(c, true, func() T { return T(mon.Pick(c.R, 0.0, 0.9)) })
		}
		if !nn.Bounded(n.Raw()) {
			// it diverged: what is left of its velocity is not a number either
			c.Ev("diverged", 1)
			return ready[T](c, s)
		}
	}
	return n
}

func save[T types.Number](c *mon.C, m *model.Model[T]) []byte {
	var b bytes.Buffer
	c.NoPanic("save", func() {
		m.ResetSave()
		if err := m.Save(&b); err != nil {
			c.Fail("save", "%v", err)
		}
	})
	c.Ev("saves", 1)
	return b.Bytes()
}

func width[T types.Number]() int {
	var v T
	return int(unsafe.Sizeof(v))
}

func numbers[T any](raw [][]T) int {
	n := 0
	for _, r := range raw {
		n += len(r)
	}
	return n
}

// roundtrip: several models of different architectures in one stream, loaded
// into models with a history of their own.
func roundtrip[T types.Number](c *mon.C) {
	r := c.R
	n := r.Range(1, 3)
	var stream []byte
	var specs []nn.Spec
	var nets []*nn.Net[T]
	var ends []int
	desc := ""
	for k := 0; k < n; k++ {
		s := arch[T](r)
		net := ready[T](c, s)
		raw := net.Raw()
		thaw := func() {}
		if r.P(0.3) {
			thaw = net.Freeze(c)
		}
		b := save(c, net.M)
		thaw()
		if want := numbers(raw) * width[T](); len(b) != want {
			c.Desc("%s", nn.Describe[T](s))
			c.Fail("size", "saving %d parameters wrote %d bytes, want %d", numbers(raw), len(b), want)
		}
		nn.MustRaw(c, "save-params", "parameters after saving", net.Raw(), raw)
		if again := save(c, net.M); !bytes.Equal(b, again) {
			c.Fail("again", "saving again wrote other bytes")
		}
		stream = append(stream, b...)
		specs, nets, ends = append(specs, s), append(nets, net), append(ends, len(stream))
		desc += nn.Describe[T](s) + " | "
	}
	c.Desc("%d models in a stream: %s", n, desc)
	for k := r.Intn(30); k > 0; k-- {
		stream = append(stream, byte(r.U64()))
	}
	rd := &tk.Chunked{B: stream, R: r, Max: mon.Pick(r, 0, 1, 3, 7, 64, 1000)}
	for k := range specs {
		dst := ready[T](c, specs[k])
		if r.P(0.3) {
			save(c, dst.M)
		}
		thaw := func() {}
		if r.P(0.3) {
			thaw = dst.Freeze(c)
		}
		c.NoPanic("load", func() {
			dst.M.ResetLoad()
			if err := dst.M.Load(rd); err != nil {
				c.Fail("load", "%v", err)
			}
		})
		thaw()
		c.Ev("loads", 1)
		if rd.Taken != ends[k] {
			c.Fail("consumed", "after model %d the stream is at byte %d, want %d", k, rd.Taken, ends[k])
		}
		nn.MustRaw(c, "params", "parameters of the loaded model", dst.Raw(), nets[k].Raw())
		for i := r.Range(1, 3); i > 0; i-- {
			x := nn.Sample[T](r, specs[k].InShape())
			nn.MustData(c, "predict", "the prediction of the loaded model", dst.Predict(c, x), nets[k].Predict(c, x))
		}
		b := save(c, dst.M)
		start := 0
		if k > 0 {
			start = ends[k-1]
		}
		if !bytes.Equal(b, stream[start:ends[k]]) {
			c.Fail("resave", "the loaded model saves other bytes")
		}
		// it trains on like the saved one
		for i := r.Range(0, 3); i > 0 && nn.Bounded(dst.Raw()); i-- {
			x, t := nn.Sample[T](r, specs[k].InShape()), nn.Sample[T](r, specs[k].OutShape())
			a := T(1)
			if tk.IsFloat[T]() {
				a = T(mon.Pick(r, 0.1, 0.02))
			}
			l1, l2 := dst.TrainOne(c, x, t, a, 0), nets[k].TrainOne(c, x, t, a, 0)
			if !nn.EqNum(l1, l2) {
				c.Fail("train", "loss of the loaded model %v, of the saved one %v", l1, l2)
			}
			nn.MustRaw(c, "train", "parameters of the loaded model after training", dst.Raw(), nets[k].Raw())
			c.Ev("steps_compared", 1)
		}
	}
	c.Distinct("%s %s", tk.TypeName[T](), desc)
}

// broken: a stream that ends too early, a reader or a writer that fails.
func broken[T types.Number](c *mon.C) {
	r := c.R
	s := arch[T](r)
	net := ready[T](c, s)
	raw := net.Raw()
	b := save(c, net.M)
	dst := ready[T](c, s)
	before := dst.Raw()
	cut := r.Intn(len(b))
	if r.P(0.3) {
		cut = len(b) - 1
	}
	kind := c.Index % 3
	c.Desc("%s broken at byte %d of %d (kind %d)", nn.Describe[T](s), cut, len(b), kind)
	var err error
	switch kind {
	case 0:
		c.NoPanic("truncated", func() {
			dst.M.ResetLoad()
			err = dst.M.Load(&tk.Chunked{B: b[:cut], R: r, Max: mon.Pick(r, 0, 1, 5)})
		})
		if err == nil {
			c.Fail("truncated", "a stream of %d bytes, cut to %d, was loaded without an error", len(b), cut)
		}
	case 1:
		c.NoPanic("reader", func() {
			dst.M.ResetLoad()
			err = dst.M.Load(&tk.FaultyReader{B: b, Left: cut})
		})
		if err == nil {
			c.Fail("reader", "the error of the reader after %d of %d bytes was lost", cut, len(b))
		}
		if !errors.Is(err, tk.ErrFault) {
			c.Ev("other_errors", 1)
		}
	default:
		w := &tk.FaultyWriter{Left: cut}
		c.NoPanic("writer", func() {
			net.M.ResetSave()
			err = net.M.Save(w)
		})
		if err == nil {
			c.Fail("writer", "the error of the writer after %d of %d bytes was lost", cut, len(b))
		}
		if !bytes.Equal(w.Got, b[:len(w.Got)]) {
			c.Fail("writer", "what was written before the fault is not a prefix of the stream")
		}
		nn.MustRaw(c, "writer", "parameters after the failed save", net.Raw(), raw)
		if again := save(c, net.M); !bytes.Equal(again, b) {
			c.Fail("writer", "after a failed save and a reset the model saves other bytes")
		}
	}
	c.Ev("faults_injected", 1)
	if kind < 2 {
		// what was not read is what it was, what was read is what was saved
		after := dst.Raw()
		for i := range after {
			for j := range after[i] {
				if !nn.EqNum(after[i][j], before[i][j]) && !nn.EqNum(after[i][j], raw[i][j]) {
					c.Fail("partial", "after a failed load parameter %d of tensor %d is %v, neither the old %v nor the saved %v", j, i, after[i][j], before[i][j], raw[i][j])
				}
			}
		}
	}
	// and the model can still be loaded
	c.NoPanic("recover", func() {
		dst.M.ResetLoad()
		if err := dst.M.Load(bytes.NewReader(b)); err != nil {
			c.Fail("recover", "%v", err)
		}
	})
	c.Ev("loads", 1)
	nn.MustRaw(c, "recover", "parameters after a failed and a successful load", dst.Raw(), raw)
	c.Distinct("broken %s %s %d", tk.TypeName[T](), s.String(), kind)
}

// once: without a reset a model is written and read only once (so that models
// which share layers store them once).
func shared[T types.Number](c *mon.C) {
	r := c.R
	s := arch[T](r)
	net := ready[T](c, s)
	raw := net.Raw()
	b := save(c, net.M)
	c.Desc("%s saved to and loaded from one stream over and over", nn.Describe[T](s))
	dst := ready[T](c, s)
	for k := r.Range(2, 4); k > 0; k-- {
		c.NoPanic("load", func() {
			dst.M.ResetLoad()
			if err := dst.M.Load(bytes.NewReader(b)); err != nil {
				c.Fail("load", "%v", err)
			}
		})
		c.Ev("loads", 1)
		nn.MustRaw(c, "reload", "parameters after loading", dst.Raw(), raw)
		for i := r.Range(1, 3); i > 0; i-- {
			dst.Disturb(c, true, func() T { return 0 })
		}
	}
	// the saved bytes are a snapshot
	for i := r.Range(1, 3); i > 0; i-- {
		net.Disturb(c, true, func() T { return 0 })
	}
	c.NoPanic("load", func() {
		net.M.ResetLoad()
		if err := net.M.Load(bytes.NewReader(b)); err != nil {
			c.Fail("load", "%v", err)
		}
	})
	nn.MustRaw(c, "rewind", "parameters after going back to the snapshot", net.Raw(), raw)
	c.Ev("loads", 1)
	c.Distinct("again %s %s", tk.TypeName[T](), s.String())
}

func six(c *mon.C, f32, f64, i, i16, i32, i64 func(*mon.C)) {
	tk.ForType(c.Index/3, func() { f32(c) }, func() { f64(c) }, func() { i(c) }, func() { i16(c) }, func() { i32(c) }, func() { i64(c) })
}

func main() {
	mon.Main(mon.Check{
		ID:          "C10",
		Scale:       5,
		Rule:        "one case = one to three random models (chains, branches, shared layers, all element types) saved to one stream and loaded by models with other parameters and histories, or one model with a stream cut or a reader or writer failing at a random byte; distinct by type and architectures",
		Need:        map[string]int64{"saves": 9000, "loads": 5000, "faults_injected": 1500, "steps_compared": 1500, "predictions": 5000},
		Assumptions: []string{"the models are compiled before they are saved or loaded, and reset in between, as the documentation does"},
		Groups: []mon.Group{
			{Name: "roundtrip", Quick: 3000, Thorough: 60000, Run: func(c *mon.C) {
				six(c, roundtrip[float32], roundtrip[float64], roundtrip[int], roundtrip[int16], roundtrip[int32], roundtrip[int64])
			}},
			{Name: "broken", Quick: 3000, Thorough: 60000, Run: func(c *mon.C) {
				six(c, broken[float32], broken[float64], broken[int], broken[int16], broken[int32], broken[int64])
			}},
			{Name: "again", Quick: 1500, Thorough: 30000, Run: func(c *mon.C) {
				six(c, shared[float32], shared[float64], shared[int], shared[int16], shared[int32], shared[int64])
			}},
		},
	})
}
