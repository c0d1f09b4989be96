// C21: a model composed of models computes their composition and trains them.
package main

import (
	"bytes"
	"fmt"

	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/nn"
	"verif/harness/tk"
)

// world is a composed model and what is asked of it.
type world[T types.Number] struct{ *nn.Composed[T] }

func (w world[T]) sync(c *mon.C) {
	for i := range w.Nets {
		w.Twins[i].SetRaw(c, w.Nets[i].Raw())
	}
}

func (w world[T]) predict(c *mon.C, hist string) {
	x := nn.Sample[T](c.R, w.Specs[0].InShape())
	y := x
	for _, t := range w.Twins {
		y = t.Predict(c, y)
	}
	var got tensor.Tensor[T]
	c.NoPanic("predict", func() {
		var err error
		if got, err = w.M.Predict(w.In.Ten(x)); err != nil {
			c.Fail("predict", "%v", err)
		}
	})
	c.Ev("composed_predictions", 1)
	nn.MustData(c, "predict", "the prediction of the composed model after ["+hist+"]", tk.Read[T](c, "predict", got), y)
}

// one part on its own still answers as before
func (w world[T]) partial(c *mon.C, hist string) {
	i := c.R.Intn(len(w.Nets))
	if i > 0 {
		// a recorded finding
		if pre, _ := nn.Join(w.Specs[:i]); pre.Repeats() {
			c.Ev("repeating_inputs_skipped", 1)
			return
		}
	}
	x := nn.Sample[T](c.R, w.Specs[i].InShape())
	nn.MustData(c, "part", fmt.Sprintf("the prediction of part %d after [%s]", i, hist), w.Nets[i].Predict(c, x), w.Twins[i].Predict(c, x))
	c.Ev("part_predictions", 1)
}

func (w world[T]) same(c *mon.C, hist string) {
	for i := range w.Nets {
		nn.MustRaw(c, "params", fmt.Sprintf("parameters of part %d after [%s]", i, hist), w.Nets[i].Raw(), w.Twins[i].Raw())
	}
}

// history: predictions of the whole and of the parts, steps, saves, freezing.
func history[T types.Number](c *mon.C) {
	r := c.R
	o := nn.Opt{Image: r.Bool(), Pure: nn.AllPure, LastPure: true, MaxSize: 80, MaxNodes: 3, Branch: r.P(0.3)}
	if !tk.IsFloat[T]() {
		o.Acts, o.Pure, o.MaxNodes = nn.IntActs, []string{"flatten", "maxpool", "up", "sub"}, 2
	}
	n := r.Range(1, 4)
	if r.P(0.05) {
		n, o.MaxNodes = r.Range(5, 9), 2
	}
	specs := nn.Parts(r, n, o)
	early := mon.Pick(r, "", "", "compiled", "predicted", "trained")
	if len(specs) == 1 {
		early = ""
	}
	c.Desc("%s %v first part %q", tk.TypeName[T](), specs, early)
	w := world[T]{nn.Compose[T](c, specs, early)}
	frozen := map[int]bool{}
	hist := ""
	for k := r.Range(4, 12); k > 0; k-- {
		switch r.Intn(8) {
		case 0, 1:
			w.predict(c, hist)
			hist += "predict "
		case 2:
			w.partial(c, hist)
			hist += "part "
		case 3: // freeze or thaw a part
			i := r.Intn(len(specs))
			frozen[i] = r.Bool()
			c.NoPanic("freeze", func() { w.Nets[i].M.SetTrainable(!frozen[i]) })
			hist += fmt.Sprintf("freeze%d=%v ", i, frozen[i])
		case 4: // save and load the whole
			c.NoPanic("save", func() {
				var b bytes.Buffer
				w.M.ResetSave()
				if err := w.M.Save(&b); err != nil {
					c.Fail("save", "%v", err)
				}
				for i := range w.Nets {
					w.Nets[i].Calm(c)
				}
				w.M.ResetLoad()
				if err := w.M.Load(bytes.NewReader(b.Bytes())); err != nil {
					c.Fail("save", "%v", err)
				}
			})
			c.Ev("saves", 1)
			hist += "save "
		case 5: // samples that do not fit
			c.NoPanic("bad", func() {
				in, out := w.Specs[0].InShape(), w.Specs[len(specs)-1].OutShape()
				if _, err := w.M.Predict(tk.Ten(nn.Sample[T](r, nn.OtherShape(r, in)))); err == nil {
					c.Fail("bad", "Predict accepted a sample of the wrong shape")
				}
				if r.Bool() {
					in = nn.OtherShape(r, in)
				} else {
					out = nn.OtherShape(r, out)
				}
				if _, err := w.M.TrainOne(tk.Ten(nn.Sample[T](r, in)), tk.Ten(nn.Sample[T](r, out)), 1, 0); err == nil {
					c.Fail("bad", "TrainOne accepted a sample of the wrong shape")
				}
			})
			c.Ev("rejected_samples", 2)
			hist += "bad "
		default: // one step of the whole
			x, t := nn.Sample[T](r, w.Specs[0].InShape()), nn.Sample[T](r, w.Specs[len(specs)-1].OutShape())
			al := T(1)
			if tk.IsFloat[T]() {
				al = T(mon.Pick(r, 0.1, 0.02, 0.5))
			}
			y := x
			var before [][][]T
			for i, tw := range w.Twins {
				before = append(before, w.Nets[i].Raw())
				if i < len(w.Twins)-1 {
					y = tw.Predict(c, y)
				}
			}
			last := len(specs) - 1
			want := w.Twins[last].TrainOne(c, y, t, al, 0)
			var loss T
			c.NoPanic("train", func() {
				var err error
				if r.P(0.7) {
					loss, err = w.M.TrainOne(w.In.Ten(x), w.Out.Ten(t), al, 0)
				} else {
					loss = want
					err = w.M.Train([]tensor.Tensor[T]{tk.Ten(x)}, []tensor.Tensor[T]{tk.Ten(t)}, 1, uint(r.Intn(2)), al, 0)
				}
				if err != nil {
					c.Fail("train", "%v", err)
				}
			})
			hist += "step "
			c.Ev("training_steps", 1)
			if !nn.EqNum(loss, want) {
				c.Fail("loss", "after [%s] the loss of the composed model is %v, of the last part on its own %v", hist, loss, want)
			}
			for i := range w.Nets {
				if frozen[i] {
					nn.MustRaw(c, "frozen", fmt.Sprintf("parameters of frozen part %d after [%s]", i, hist), w.Nets[i].Raw(), before[i])
					c.Ev("frozen_parts_observed", 1)
				} else if i == last {
					nn.MustRaw(c, "last", fmt.Sprintf("parameters of the last part after [%s]", hist), w.Nets[i].Raw(), w.Twins[i].Raw())
				}
			}
			bad := false
			for i := range w.Nets {
				bad = bad || !nn.Bounded(w.Nets[i].Raw())
			}
			w.sync(c)
			if bad {
				k = 0
			}
		}
		w.same(c, hist)
		c.Ev("operations", 1)
	}
	c.Distinct("%s %v %s", tk.TypeName[T](), specs, hist)
}

// refused: what cannot be composed.
func refused(c *mon.C) {
	r := c.R
	specs := nn.Parts(r, 2, nn.Opt{Pure: nn.AllPure, LastPure: true, NeedParam: 1, MaxSize: 60, MaxNodes: 3})
	a, b := nn.Make[float64](specs[0], r.Bool()), nn.Make[float64](specs[1], r.Bool())
	var err error
	what := ""
	c.NoPanic("refused", func() {
		switch c.Index % 5 {
		case 0:
			what = "no models"
			_, err = model.FromModels[float64]()
		case 1:
			what = "a second model that was compiled on its own"
			if e := b.M.Compile(); e != nil {
				c.Fail("setup", "%v", e)
			}
			_, err = model.FromModels[float64](a.M, b.M)
		case 2:
			what = "a second model that was trained on its own"
			b.TrainOne(c, nn.Sample[float64](r, specs[1].InShape()), nn.Sample[float64](r, specs[1].OutShape()), 0.1, 0)
			_, err = model.FromModels[float64](a.M, b.M)
		case 3:
			what = "a second model that is composed with another first one"
			a2 := nn.Make[float64](specs[0], r.Bool())
			if _, e := model.FromModels[float64](a.M, b.M); e != nil {
				c.Fail("setup", "%v", e)
			}
			_, err = model.FromModels[float64](a2.M, b.M)
		default:
			what = "a part that cannot be built"
			s := specs[0]
			s.Nodes = append(append([]nn.Node{}, s.Nodes...), nn.Node{Kind: "sub", In: []int{len(s.Nodes) - 1}, Dim: 0, From: 5, To: 5, Shape: []uint{1}})
			bad := nn.Make[float64](s, r.Bool())
			if r.Bool() {
				_, err = model.FromModels[float64](bad.M, b.M)
			} else {
				_, err = model.FromModels[float64](bad.M)
			}
		}
	})
	c.Desc("%s: %v", what, specs)
	if err == nil {
		c.Fail("refused", "FromModels accepted %s", what)
	}
	c.Ev("refused", 1)
	c.Eval(1)
	c.Distinct("refused %s %v", what, specs)
}

// alone: the recorded finding. Training one part on its own after it was
// composed: fixed small models.
func alone(c *mon.C) {
	lin := nn.Act{Name: "linear"}
	mk := func(in, out uint) nn.Spec {
		return nn.Spec{Nodes: []nn.Node{{Kind: "input", InShape: []uint{in}, Shape: []uint{in}}, {Kind: "dense", In: []int{0}, N: out, Act: lin, Shape: []uint{out}}}}
	}
	w := nn.Compose[float64](c, []nn.Spec{mk(2, 3), mk(3, 1)}, "")
	i := c.Index
	if i == 2 {
		in := []uint{1}
		twice := nn.Spec{Nodes: []nn.Node{{Kind: "input", InShape: in, Shape: in}, {Kind: "dense", In: []int{0}, N: 1, Act: lin, Shape: in}, {Kind: "concat", In: []int{1, 1}, Shape: []uint{2}}}}
		w := nn.Compose[float64](c, []nn.Spec{twice, mk(2, 1)}, "")
		c.Desc("part 1 behind a model whose output holds one value twice")
		x := nn.Sample[float64](c.R, []uint{2})
		nn.MustData(c, "repeat", "the prediction of part 1", w.Nets[1].Predict(c, x), w.Twins[1].Predict(c, x))
		return
	}
	c.Desc("training part %d alone", i)
	before := w.Nets[1-i].Raw()
	x, t := nn.Sample[float64](c.R, w.Specs[i].InShape()), nn.Sample[float64](c.R, w.Specs[i].OutShape())
	w.Nets[i].TrainOne(c, x, t, 0.1, 0)
	w.Twins[i].TrainOne(c, x, t, 0.1, 0)
	nn.MustRaw(c, fmt.Sprintf("alone-%d-own", i), "own parameters", w.Nets[i].Raw(), w.Twins[i].Raw())
	nn.MustRaw(c, fmt.Sprintf("alone-%d-other", i), "parameters of the other part", w.Nets[1-i].Raw(), before)
}

func main() {
	mon.Main(mon.Check{
		ID:    "C21",
		Scale: 11,
		Rule:  "one case = one to nine random models composed, and a history of predictions of the whole and the parts, steps of the whole, freezing of parts, saves, loads and rejected samples, compared with the same parts on their own; or steps of the whole compared with the descent direction of the joined architecture; distinct by type, architectures and history",
		Assumptions: []string{
			"an earlier part may move at a fixed positive fraction of the exact step (errors are averaged over the readers of a layer)",
			"training one part on its own after composing is a recorded finding and only checked there"},
		Need: map[string]int64{"composed_predictions": 4000, "part_predictions": 2000, "training_steps": 4000, "frozen_parts_observed": 500, "directions_compared": 2000, "saves": 1000, "refused": 200},
		Groups: []mon.Group{
			{Name: "history", Quick: 2500, Thorough: 50000, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { history[float32](c) }, func() { history[float64](c) }, func() { history[int](c) },
					func() { history[int16](c) }, func() { history[int32](c) }, func() { history[int64](c) })
			}},
			{Name: "direction", Quick: 2500, Thorough: 50000, Run: func(c *mon.C) {
				nn.ForTypeF(c.Index, func() { nn.DecideComposed[float32](c, false) }, func() { nn.DecideComposed[float64](c, false) })
			}},
			{Name: "refused", Quick: 400, Thorough: 4000, Run: refused},
			{Name: "alone", Quick: 3, Thorough: 3, Run: alone},
		},
	})
}
