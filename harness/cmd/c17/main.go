// C17: a training step depends only on the parameters, the sample and the rate
// (and the momentum), not on what the model did before.
package main

import (
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/nn"
	"verif/harness/tk"
)

func run[T types.Number](c *mon.C) {
	r := c.R
	o := nn.Opt{Image: r.Bool(), Pure: nn.AllPure, NeedParam: 1, LastPure: true, MaxSize: 120, Nest: r.P(0.3), Big: r.P(0.04), Deep: tk.IsFloat[T]() && r.P(0.02)}
	if r.P(0.3) {
		o.Branch, o.Share = true, r.Bool()
	}
	if !tk.IsFloat[T]() {
		o.Acts, o.MaxNodes, o.Pure = nn.IntActs, 2, []string{"flatten", "maxpool", "up", "sub"}
	}
	s := nn.Gen(r, o)
	c.Desc("%s", nn.Describe[T](s))
	used := nn.Make[T](s, r.Bool())
	used.Compile(c)
	used.Calm(c)
	hist := ""
	for round := r.Range(1, 3); round > 0; round-- {
		for k := r.Range(1, 6); k > 0; k-- {
			hist += used.Disturb(c, true, func() T {
				if tk.IsFloat[T]() {
					return T(mon.Pick(r, 0, 0.5, 0.9))
				}
				return 0
			}) + " "
			c.Ev("history_operations", 1)
		}
		if !nn.Bounded(used.Raw()) {
			// it diverged: what is left of its velocity is not a number either
			c.Ev("diverged", 1)
			return
		}
		fresh := nn.Make[T](s, r.Bool())
		fresh.Compile(c)
		fresh.SetRaw(c, used.Raw())
		for k := r.Range(1, 3); k > 0; k-- {
			x, t := nn.Sample[T](r, s.InShape()), nn.Sample[T](r, s.OutShape())
			a := T(1)
			if tk.IsFloat[T]() {
				a = T(mon.Pick(r, 0.1, 0.5, 0.01))
			}
			// with zero momentum what the previous steps left behind must not show
			l1 := used.TrainOne(c, x, t, a, 0)
			l2 := fresh.TrainOne(c, x, t, a, 0)
			if !nn.EqNum(l1, l2) {
				c.Fail("loss", "after [%s] the loss is %v, on a fresh model %v", hist, l1, l2)
			}
			nn.MustRaw(c, "params", "after ["+hist+"] the parameters differ from those of a fresh model", used.Raw(), fresh.Raw())
			nn.MustData(c, "predict", "prediction after ["+hist+"]", used.Predict(c, x), fresh.Predict(c, x))
			c.Ev("steps_compared", 1)
			if !nn.Bounded(used.Raw()) {
				return
			}
		}
	}
	c.Distinct("%s %s %s", tk.TypeName[T](), s.String(), hist)
}

// repeat: the same step from the same parameters, over and over.
func repeat[T types.Number](c *mon.C, long bool) {
	r := c.R
	n := r.Range(5, 40)
	o := nn.Opt{Image: r.Bool(), Pure: nn.AllPure, NeedParam: 1, LastPure: true, MaxSize: 120, Branch: r.P(0.3), Nest: r.P(0.3), Big: r.P(0.04), Deep: tk.IsFloat[T]() && r.P(0.02)}
	if long {
		n = mon.Pick(r, 300, 600, 1300, 3000)
		o.MaxSize, o.MaxNodes, o.Big, o.Deep = 12, 3, false, false
	}
	s := nn.Gen(r, o)
	c.Desc("repeated step of %s", nn.Describe[T](s))
	net := nn.Make[T](s, r.Bool())
	net.Compile(c)
	net.Calm(c)
	raw := net.Raw()
	x, t := nn.Sample[T](r, s.InShape()), nn.Sample[T](r, s.OutShape())
	var loss T
	var after [][]T
	for k := 0; k < n; k++ {
		net.SetRaw(c, raw)
		if k > 0 && !nn.Bounded(after) {
			return
		}
		if long && r.P(0.1) {
			net.Predict(c, nn.Sample[T](r, s.InShape()))
		}
		l := net.TrainOne(c, x, t, T(mon.Pick(r, 0.1)), 0)
		if k == 0 {
			loss, after = l, net.Raw()
			continue
		}
		if !nn.EqNum(l, loss) {
			c.Fail("repeat-loss", "repetition %d of a step has loss %v, the first %v", k, l, loss)
		}
		nn.MustRaw(c, "repeat", "repetition of a step", net.Raw(), after)
		c.Ev("steps_compared", 1)
	}
	c.Distinct("repeat %s %s", tk.TypeName[T](), s.String())
}

func main() {
	mon.Main(mon.Check{
		ID:    "C17",
		Scale: 11,
		Rule:  "one case = one random network with a random history of trainings, predictions, rejected samples, saves and resets, then steps compared number by number with a fresh network holding the same parameters; distinct by type, architecture and history",
		Need:  map[string]int64{"steps_compared": 5000, "history_operations": 8000, "rejected_samples": 1000},
		Groups: []mon.Group{
			{Name: "history", Quick: 3000, Thorough: 60000, Run: func(c *mon.C) {
				switch c.Index % 4 {
				case 0:
					run[float32](c)
				case 1:
					mon.Pick(c.R, run[int], run[int64], run[int32])(c)
				default:
					run[float64](c)
				}
			}},
			{Name: "long", Quick: 10, Thorough: 200, Run: func(c *mon.C) {
				nn.ForTypeF(c.Index, func() { repeat[float32](c, true) }, func() { repeat[float64](c, true) })
			}},
			{Name: "repeat", Quick: 600, Thorough: 12000, Run: func(c *mon.C) {
				nn.ForTypeF(c.Index, func() { repeat[float32](c, false) }, func() { repeat[float64](c, false) })
			}},
		},
	})
}
