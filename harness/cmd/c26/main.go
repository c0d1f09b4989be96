// C26: with momentum m a step adds rate times direction plus m times the
// previous change of the same parameter.
package main

import (
	"fmt"
	"math"

	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/nn"
	"verif/harness/tk"
)

func run[T types.Number](c *mon.C, big bool) {
	r := c.R
	o := nn.Opt{Image: r.Bool(), NeedParam: 1, MaxNodes: 4, MaxSize: 120, Nest: r.P(0.2), Big: big}
	if r.P(0.4) {
		o.Pure, o.LastPure = nn.AllPure, true
		o.Branch = r.P(0.4)
	}
	if !tk.IsFloat[T]() {
		o.Acts, o.MaxNodes, o.Pure, o.Branch = nn.IntActs, 2, nil, false
	}
	long := c.Group == "long"
	if long {
		o.MaxNodes, o.MaxSize, o.Big = 2, 12, false
		o.Acts = []nn.Act{{Name: "tanh"}, {Name: "sigmoid"}, {Name: "linear"}}
	}
	s := nn.Gen(r, o)
	c.Desc("%s", nn.Describe[T](s))
	net := nn.Make[T](s, r.Bool())
	net.Compile(c)
	net.Calm(c)
	var vel []nn.Params
	hist := ""
	steps := r.Range(2, 8)
	if long {
		steps = mon.Pick(r, 300, 600, 1300)
	}
	fixed := mon.Pick(r, -1, 0.5, 0.9)
	for k := 0; k < steps; k++ {
		par := net.Params(c)
		if vel == nil {
			vel = make([]nn.Params, len(par))
			for i := range par {
				if s.Nodes[i].HasParams() {
					vel[i] = nn.Params{W: tk.NewArr[float64](par[i].W.Shape), B: tk.NewArr[float64](par[i].B.Shape)}
				}
			}
		}
		st, vals, ok := nn.DrawStep[T](r, s, par, 12)
		if !ok {
			break
		}
		if tk.IsFloat[T]() {
			st.Alpha = T(mon.Pick(r, 0.1, 0.05, 0.02, 0))
			if long {
				st.Alpha = T(mon.Pick(r, 0.01, 0.001, 0.02))
			}
		}
		m := T(mon.Pick(r, 0, 1, 2))
		if tk.IsFloat[T]() {
			m = T(mon.Pick(r, 0, 0.3, 0.5, 0.9, 1))
			if long {
				m = T(mon.Pick(r, 0, 0.3, 0.5, 0.8))
			}
			if fixed >= 0 {
				m = T(fixed)
			}
		}
		// what happens in between does not count as a step
		if r.P(0.3) {
			hist += net.Disturb(c, false, func() T { return m }) + " "
		}
		g, mags := s.Backward(par, vals, nn.To64(st.X), nn.To64(st.T), true)
		scale := nn.Scale(par, g, mags, vals)
		if !(scale < nn.StepLimit[T]()) {
			break
		}
		if !tk.IsFloat[T]() && scale > 1e4 {
			break
		}
		net.TrainOne(c, st.X, st.T, st.Alpha, m)
		hist += fmt.Sprintf("step(%v,%v) ", st.Alpha, m)
		want := make([]nn.Params, len(par))
		for i := range par {
			want[i] = par[i].Clone()
			if !s.Nodes[i].HasParams() {
				continue
			}
			update(want[i].W.Data, vel[i].W.Data, g[i].W.Data, float64(st.Alpha), float64(m))
			update(want[i].B.Data, vel[i].B.Data, g[i].B.Data, float64(st.Alpha), float64(m))
			for _, v := range vel[i].W.Data {
				scale = math.Max(scale, math.Abs(v))
			}
			c.Ev("layer_updates_compared", 1)
			if k > 0 && m != 0 {
				c.Ev("velocity_updates_compared", 1)
			}
		}
		nn.CheckParams(c, "momentum", net, want, nn.TolScale[T](scale))
		// follow the observed change, so that rounding does not accumulate
		got := net.Params(c)
		for i := range got {
			if s.Nodes[i].HasParams() && tk.IsFloat[T]() {
				follow(vel[i].W.Data, got[i].W.Data, par[i].W.Data, scale, tk.Eps[T]())
				follow(vel[i].B.Data, got[i].B.Data, par[i].B.Data, scale, tk.Eps[T]())
			}
		}
	}
	c.Distinct("%s %s %s", tk.TypeName[T](), s.String(), hist)
}

func update(w, v, g []float64, a, m float64) {
	for j := range w {
		v[j] = a*g[j] + m*v[j]
		w[j] += v[j]
	}
}

// follow keeps the reference velocity unless the observed change is more exact.
func follow(v, after, before []float64, scale, eps float64) {
	for j := range v {
		d := after[j] - before[j]
		if math.Abs(d-v[j]) > 64*eps*scale {
			v[j] = d
		}
	}
}

func main() {
	mon.Main(mon.Check{
		ID:    "C26",
		Scale: 12,
		Rule:  "one case = one random network trained for several steps with changing rates and momenta, with predictions, saves and rejected samples in between; every parameter compared after every step; or a model composed of two to four models trained with momentum, each part's move compared with its descent direction plus momentum times its move before; distinct by type, architecture and history",
		Need:  map[string]int64{"training_steps": 8000, "velocity_updates_compared": 10000},
		Groups: []mon.Group{
			{Name: "history", Quick: 4000, Thorough: 80000, Run: func(c *mon.C) {
				switch c.Index % 5 {
				case 0:
					run[float32](c, false)
				case 1:
					mon.Pick(c.R, run[int], run[int64])(c, false)
				default:
					run[float64](c, false)
				}
			}},
			{Name: "long", Quick: 6, Thorough: 120, Run: func(c *mon.C) { run[float64](c, false) }},
			{Name: "large", Quick: 200, Thorough: 6000, Run: func(c *mon.C) {
				run[float64](c, true)
			}},
			{Name: "composed", Quick: 1500, Thorough: 30000, Run: func(c *mon.C) {
				nn.ForTypeF(c.Index, func() { nn.DecideComposed[float32](c, true) }, func() { nn.DecideComposed[float64](c, true) })
			}},
		},
	})
}
