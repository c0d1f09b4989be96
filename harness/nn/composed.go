package nn

import (
	"math"

	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/tk"
)

// Parts draws architectures that fit one behind the other.
func Parts(r *mon.Rng, n int, o Opt) []Spec {
	var out []Spec
	for i := 0; i < n; i++ {
		if i > 0 {
			o.In = out[i-1].OutShape()
			o.Image = o.Image && len(o.In) == 3
		}
		s := Gen(r, o)
		if s.Nodes[0].Kind == "input" && i > 0 && len(o.In) == 1 && !o.Branch && r.P(0.3) {
			// a part that starts with a dense layer instead of an input
			d := Node{Kind: "indense", Ins: o.In[0], N: uint(r.Range(1, 4)), Act: AllActs[r.Intn(len(AllActs))], InShape: tk.CloneU(o.In)}
			if o.Acts != nil {
				d.Act = o.Acts[r.Intn(len(o.Acts))]
			}
			d.Shape = []uint{d.N}
			s = Spec{Nodes: []Node{d}}
		}
		out = append(out, s)
	}
	return out
}

type Composed[T types.Number] struct {
	Specs []Spec
	Nets  []*Net[T] // parts of the composed model
	Twins []*Net[T] // the same parts on their own
	M     *model.Model[T]
	In    Held[T]
	Out   Held[T]
}

func Compose[T types.Number](c *mon.C, specs []Spec, early string) *Composed[T] {
	w := &Composed[T]{Specs: specs}
	var ms []*model.Model[T]
	for i, s := range specs {
		a, b := Make[T](s, c.R.Bool()), Make[T](s, c.R.Bool())
		b.Compile(c)
		if i == 0 && early == "trained" {
			a.Compile(c)
			a.Calm(c)
		}
		if i == 0 {
			c.NoPanic("early", func() {
				var err error
				switch early {
				case "compiled":
					err = a.M.Compile()
				case "predicted":
					_, err = a.M.Predict(tk.Ten(Sample[T](c.R, s.InShape())))
				case "trained":
					st, _, ok := DrawStep[T](c.R, s, a.Params(c), 20)
					if ok {
						// (not where the step gives no numbers: its velocity stays behind)
						_, err = a.M.TrainOne(tk.Ten(st.X), tk.Ten(st.T), 0, 0)
					} else {
						err = a.M.Compile()
					}
				}
				if err != nil {
					c.Fail("early", "%v", err)
				}
			})
		}
		w.Nets, w.Twins, ms = append(w.Nets, a), append(w.Twins, b), append(ms, a.M)
	}
	c.NoPanic("compose", func() {
		if len(ms) > 2 && c.R.P(0.6) {
			// composed in steps: a model of models before or behind others
			k := c.R.Range(2, len(ms)-1)
			front, err := model.FromModels[T](ms[:k]...)
			if err != nil {
				c.Fail("compose", "the first %d: %v", k, err)
			}
			if c.R.P(0.6) {
				ms = append([]*model.Model[T]{front}, ms[k:]...)
			} else {
				// the last of the first ones is part of both
				back, err := model.FromModels[T](ms[k-1:]...)
				if err != nil {
					c.Fail("compose", "from %d on: %v", k-1, err)
				}
				ms = append(append([]*model.Model[T]{}, ms[:k-1]...), back)
			}
			c.Ev("nested_compositions", 1)
		}
		list := append(make([]*model.Model[T], 0, len(ms)+c.R.Intn(2)), ms...)
		m, err := model.FromModels[T](list...)
		if err != nil {
			c.Fail("compose", "%v", err)
		}
		w.M = m
		if c.R.Bool() {
			// the list is the caller's and is used for something else
			for i := range list {
				list[i] = nil
			}
			_ = append(list, nil)
		}
		if c.R.P(0.2) {
			// once more: nothing changes
			if w.M, err = model.FromModels[T](ms...); err != nil {
				c.Fail("compose", "the second time: %v", err)
			}
		}
	})
	for i := range w.Nets {
		w.Nets[i].Calm(c)
		w.Twins[i].SetRaw(c, w.Nets[i].Raw())
	}
	c.Ev("models_composed", 1)
	return w
}

// Join is the architecture of the composed model.
func Join(specs []Spec) (Spec, []int) {
	var s Spec
	var owner []int
	for p, q := range specs {
		base := len(s.Nodes)
		shift := func(i int) int {
			if p == 0 {
				return i
			}
			if q.Nodes[0].Kind == "input" {
				return base - 1 + i
			}
			return base + i
		}
		for i, n := range q.Nodes {
			if p > 0 && i == 0 {
				if n.Kind == "input" {
					continue
				}
				n.Kind, n.In = "dense", []int{base - 1}
				n.InShape = nil
			} else {
				in := []int{}
				for _, k := range n.In {
					in = append(in, shift(k))
				}
				n.In = in
			}
			s.Nodes = append(s.Nodes, n)
			owner = append(owner, p)
		}
	}
	return s, owner
}

// DecideComposed: a step of the composed model moves every part downhill: along the
// exact descent direction of the whole, at one rate per part.
func DecideComposed[T types.Number](c *mon.C, momentum bool) {
	r := c.R
	o := Opt{Image: r.Bool(), Pure: AllPure, LastPure: true, NeedParam: 1, MaxSize: 60, MaxNodes: 3}
	n := r.Range(2, 4)
	if r.P(0.1) {
		n, o.MaxNodes = r.Range(5, 8), 2
	}
	specs := Parts(r, n, o)
	early := mon.Pick(r, "", "", "compiled", "trained")
	whole, owner := Join(specs)
	c.Desc("%s %v first part %q", tk.TypeName[T](), specs, early)
	w := Compose[T](c, specs, early)
	flat := &Net[T]{Spec: whole}
	for p, n := range w.Nets {
		for i, l := range n.Layers {
			if p > 0 && i == 0 && n.Spec.Nodes[0].Kind == "input" {
				continue
			}
			flat.Layers = append(flat.Layers, l)
		}
	}
	rates := map[int]float64{}
	moves := map[int][]float64{}
	n = r.Range(1, 3)
	if momentum {
		n = r.Range(2, 6)
	}
	frozen := map[int]bool{}
	if r.P(0.4) {
		// one part is only passed through
		p := r.Intn(len(specs))
		frozen[p] = true
		c.NoPanic("freeze", func() { w.Nets[p].M.SetTrainable(false) })
	}
	for k := 0; k < n; k++ {
		par := flat.Params(c)
		st, vals, ok := DrawStep[T](r, whole, par, 12)
		if !ok {
			c.Ev("ill_conditioned_skipped", 1)
			return
		}
		g, mags := whole.Backward(par, vals, To64(st.X), To64(st.T), true)
		scale := Scale(par, g, mags, vals)
		if !(scale < StepLimit[T]()) {
			c.Ev("ill_conditioned_skipped", 1)
			return
		}
		mom := T(0)
		if momentum {
			mom = T(mon.Pick(r, 0.3, 0.5, 0.9))
		}
		c.NoPanic("train", func() {
			if _, err := w.M.TrainOne(w.In.Ten(st.X), w.Out.Ten(st.T), st.Alpha, mom); err != nil {
				c.Fail("train", "%v", err)
			}
		})
		c.Ev("training_steps", 1)
		now := flat.Params(c)
		al := float64(st.Alpha)
		for p := range specs {
			var got, want []float64
			for i := range whole.Nodes {
				if owner[i] != p || !whole.Nodes[i].HasParams() {
					continue
				}
				for j := range par[i].W.Data {
					got = append(got, now[i].W.Data[j]-par[i].W.Data[j])
					want = append(want, al*g[i].W.Data[j])
				}
				for j := range par[i].B.Data {
					got = append(got, now[i].B.Data[j]-par[i].B.Data[j])
					want = append(want, al*g[i].B.Data[j])
				}
			}
			if frozen[p] {
				for i := range got {
					if got[i] != 0 {
						c.Fail("frozen", "part %d is frozen and moved by %v", p, got[i])
					}
				}
				c.Ev("frozen_parts_observed", 1)
				continue
			}
			// what the step before adds
			last := moves[p]
			moves[p] = append([]float64{}, got...)
			moved := 0.0
			for i := range last {
				got[i] -= float64(mom) * last[i]
				moved = math.Max(moved, math.Abs(last[i]))
			}
			dot, sq := 0.0, 0.0
			for i := range got {
				dot += got[i] * want[i]
				sq += want[i] * want[i]
			}
			tol := 1e-6
			if tk.Eps[T]() > 1e-10 {
				tol = 1e-3
			}
			tol *= math.Max(scale*math.Max(1, al), moved)
			if !(math.Sqrt(sq) > 100*tol) {
				c.Ev("flat_steps", 1)
				// no direction to speak of, but no other move either
				for i := range got {
					if !(math.Abs(got[i]) <= 101*tol) {
						c.Fail("direction", "part %d: a parameter moves by %v where the descent direction gives no more than %v", p, got[i], 101*tol)
					}
				}
				continue
			}
			if len(last) > 0 && mom != 0 {
				c.Ev("velocity_updates_compared", 1)
			}
			rate := dot / sq
			if !(rate > 0) || rate > 1.001 {
				c.Fail("rate", "part %d moves %v times as far as the descent direction", p, rate)
			}
			if p == len(specs)-1 && math.Abs(rate-1) > 0.01 {
				c.Fail("rate", "the last part moves %v times as far as the descent direction", rate)
			}
			for i := range got {
				if !(math.Abs(got[i]-rate*want[i]) <= tol) {
					c.Fail("direction", "part %d: a parameter moves by %v where the descent direction at the rate of the others (%v) gives %v", p, got[i], rate, rate*want[i])
				}
			}
			if old, ok := rates[p]; ok && math.Abs(old-rate) > 0.03*old {
				c.Fail("rate", "part %d moves %v times as far as the descent direction after %v times before", p, rate, old)
			}
			rates[p] = rate
			c.Ev("directions_compared", 1)
			c.Eval(1)
		}
	}
	c.Distinct("direction %s %v %v", tk.TypeName[T](), specs, momentum)
}
