// C15: one training step moves every parameter of a chain of dense, convolution
// and transposed-convolution layers along the descent direction of its error.
package main

import (
	"math"

	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/nn"
	"verif/harness/tk"
)

func run[T types.Number](c *mon.C, o nn.Opt) {
	if !tk.IsFloat[T]() {
		o.Acts = nn.IntActs
		o.MaxNodes = 2
	}
	nn.DecideSteps[T](c, nn.Gen(c.R, o))
}

func types4(c *mon.C, o nn.Opt) {
	switch c.Index % 8 {
	case 0, 1:
		run[float32](c, o)
	case 2:
		run[int64](c, o)
	case 3:
		mon.Pick(c.R, run[int32], run[int], run[int16])(c, o)
	default:
		run[float64](c, o)
	}
}

// large: one layer of unusual size.
func large(c *mon.C) {
	r := c.R
	act := nn.AllActs[r.Intn(len(nn.AllActs))]
	in := nn.Node{Kind: "input"}
	var s nn.Spec
	switch c.Index % 3 {
	case 0:
		in.InShape = []uint{uint(r.Range(1, 200))}
		a, b := uint(r.Range(1, 80)), uint(r.Range(1, 40))
		s.Nodes = []nn.Node{in, {Kind: "dense", In: []int{0}, N: a, Act: act, Shape: []uint{a}},
			{Kind: "dense", In: []int{1}, N: b, Act: nn.AllActs[r.Intn(len(nn.AllActs))], Shape: []uint{b}}}
	case 1:
		ch, w, h := uint(r.Range(1, 4)), uint(r.Range(3, 20)), uint(r.Range(3, 20))
		in.InShape = []uint{ch, w, h}
		n1 := nn.Node{Kind: "conv", In: []int{0}, N: uint(r.Range(1, 4)), Act: act, SX: uint(r.Range(1, 4)), SY: uint(r.Range(1, 4)), KW: uint(r.Range(1, 3)), KH: uint(r.Range(1, 3))}
		n1.Shape = []uint{n1.N, (w-n1.KW)/n1.SX + 1, (h-n1.KH)/n1.SY + 1}
		n2 := nn.Node{Kind: "conv", In: []int{1}, N: uint(r.Range(1, 4)), Act: nn.AllActs[r.Intn(len(nn.AllActs))], SX: uint(r.Range(1, 3)), SY: uint(r.Range(1, 3)), KW: uint(r.Range(1, int(n1.Shape[1]))), KH: uint(r.Range(1, int(n1.Shape[2])))}
		n2.Shape = []uint{n2.N, (n1.Shape[1]-n2.KW)/n2.SX + 1, (n1.Shape[2]-n2.KH)/n2.SY + 1}
		s.Nodes = []nn.Node{in, n1, n2}
	case 2:
		ch, w, h := uint(r.Range(1, 3)), uint(r.Range(1, 6)), uint(r.Range(1, 6))
		in.InShape = []uint{ch, w, h}
		n1 := nn.Node{Kind: "deconv", In: []int{0}, N: uint(r.Range(1, 3)), Act: act, SX: uint(r.Range(1, 3)), SY: uint(r.Range(1, 3)), KW: uint(r.Range(1, 4)), KH: uint(r.Range(1, 4))}
		n1.Shape = []uint{n1.N, (w-1)*n1.SX + n1.KW, (h-1)*n1.SY + n1.KH}
		n2 := nn.Node{Kind: "deconv", In: []int{1}, N: uint(r.Range(1, 2)), Act: nn.AllActs[r.Intn(len(nn.AllActs))], SX: 1, SY: uint(r.Range(1, 2)), KW: uint(r.Range(1, 3)), KH: uint(r.Range(1, 3))}
		n2.Shape = []uint{n2.N, (n1.Shape[1]-1)*n2.SX + n2.KW, (n1.Shape[2]-1)*n2.SY + n2.KH}
		s.Nodes = []nn.Node{in, n1, n2}
	}
	s.Nodes[0].Shape = s.Nodes[0].InShape
	nn.DecideSteps[float64](c, s)
}

// difference: the update against the slope of the squared error measured with
// the model's own predictions (no reference implementation involved). The
// output layer is linear, where the error signal is the exact gradient.
func difference(c *mon.C) {
	r := c.R
	o := nn.Opt{NeedParam: 1, MaxNodes: 3}
	if c.Index%2 == 0 {
		o.Image = true
		o.MaxSize = 60
	}
	s := nn.Gen(r, o)
	s.Nodes[len(s.Nodes)-1].Act = nn.Act{Name: "linear"}
	c.Desc("finite differences of %v", s)
	net := nn.Make[float64](s, r.Bool())
	net.Compile(c)
	net.Calm(c)
	par := net.Params(c)
	st, vals, ok := nn.DrawStep[float64](r, s, par, 12)
	if !ok || nn.Margin(vals) < 1e-3 {
		c.Ev("ill_conditioned_skipped", 1)
		return
	}
	raw := net.Raw()
	cost := func() float64 {
		out := net.Predict(c, st.X)
		e := 0.0
		for i := range out.Data {
			d := st.T.Data[i] - out.Data[i]
			e += 0.5 * d * d
		}
		return e
	}
	type probe struct {
		t, i int
		want float64
	}
	const h = 1e-5
	var ps []probe
	big := 1.0
	for k := 0; k < 12; k++ {
		t := r.Intn(len(raw))
		i := r.Intn(len(raw[t]))
		cp := clone(raw)
		cp[t][i] += h
		net.SetRaw(c, cp)
		up := cost()
		cp[t][i] -= 2 * h
		net.SetRaw(c, cp)
		down := cost()
		ps = append(ps, probe{t, i, (down - up) / (2 * h)})
		big = math.Max(big, math.Max(up, math.Abs((down-up)/(2*h))))
	}
	if big > 1e4 {
		return
	}
	net.SetRaw(c, raw)
	net.TrainOne(c, st.X, st.T, 1, 0)
	after := net.Raw()
	for _, p := range ps {
		got := after[p.t][p.i] - raw[p.t][p.i]
		if !(math.Abs(got-p.want) <= 2e-3*big) {
			c.Fail("slope", "parameter %d of tensor %d moved by %v, the slope of the error is %v", p.i, p.t, got, p.want)
		}
		c.Eval(1)
		c.Ev("slopes_compared", 1)
	}
	c.Distinct("difference %s", s.String())
}

func clone(r [][]float64) [][]float64 {
	o := make([][]float64, len(r))
	for i := range r {
		o[i] = append([]float64{}, r[i]...)
	}
	return o
}

func main() {
	mon.Main(mon.Check{
		ID:    "C15",
		Scale: 7,
		Rule:  "one case = one random chain of dense, convolution and transposed-convolution layers trained for up to three single-sample steps; loss and every parameter compared after each step; distinct by element type and architecture with sizes",
		Assumptions: []string{
			"samples within 1e-6 (float64) or 1e-3 (float32) of a jump of an activation's derivative, or with values beyond the moderate range, are drawn again",
			"zero momentum (momentum is C26)"},
		Need: map[string]int64{"training_steps": 4000, "layer_updates_compared": 6000, "visible_bias_updates": 10000, "slopes_compared": 2000, "scaled_updates_compared": 2000, "bad_targets": 200},
		Groups: []mon.Group{
			{Name: "dense", Quick: 4000, Thorough: 80000, Run: func(c *mon.C) { types4(c, nn.Opt{NeedParam: 1, Nest: c.R.P(0.3)}) }},
			{Name: "image", Quick: 4000, Thorough: 80000, Run: func(c *mon.C) { types4(c, nn.Opt{Image: true, NeedParam: 1, MaxSize: 200, Nest: c.R.P(0.3)}) }},
			{Name: "deep", Quick: 400, Thorough: 8000, Run: func(c *mon.C) {
				nn.DecideSteps[float64](c, nn.Gen(c.R, nn.Opt{Image: c.Index%3 == 0, NeedParam: 7, MaxNodes: 16, MaxSize: 60, Nest: c.R.P(0.3), Acts: nn.AllActs}))
			}},
			{Name: "sizes", Quick: 300, Thorough: 6000, Run: func(c *mon.C) {
				nn.DecideSteps[float64](c, nn.Gen(c.R, nn.Opt{Image: c.Index%4 != 0, NeedParam: 1, Big: true}))
			}},
			{Name: "large", Quick: 300, Thorough: 5000, Run: large},
			{Name: "scales", Quick: 1200, Thorough: 25000, Run: func(c *mon.C) {
				o := nn.Opt{Image: c.Index%2 == 0, NeedParam: 1, MaxSize: 60, MaxNodes: 4, Nest: c.R.P(0.2)}
				if c.Index%4 >= 2 {
					o.Acts = nn.Homogeneous
				}
				nn.DecideScales(c, nn.Gen(c.R, o), o.Acts != nil)
			}},
			{Name: "difference", Quick: 800, Thorough: 15000, Run: difference},
		},
	})
}
