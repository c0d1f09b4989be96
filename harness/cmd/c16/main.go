// C16: the error passes unchanged in meaning through parameterless layers and
// branches: the layers in front of them get the update of the chain rule.
package main

import (
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/nn"
	"verif/harness/tk"
)

func run[T types.Number](c *mon.C, o nn.Opt) {
	if !tk.IsFloat[T]() {
		o.Acts = nn.IntActs
		o.MaxNodes = 3
		o.Pure = []string{"flatten", "maxpool", "up", "sub"}
	}
	nn.DecideSteps[T](c, nn.Gen(c.R, o))
}

func kinds(c *mon.C, o nn.Opt) {
	switch c.Index % 8 {
	case 0, 1:
		run[float32](c, o)
	case 2:
		mon.Pick(c.R, run[int64], run[int32], run[int])(c, o)
	default:
		run[float64](c, o)
	}
}

// between: parameters, then one to three layers of one kind of interest, then
// parameters or the end.
func between(c *mon.C) {
	kind := nn.AllPure[c.Index%len(nn.AllPure)]
	o := nn.Opt{Image: true, Pure: []string{kind}, NeedParam: 2, MaxNodes: 5, LastPure: true, MaxSize: 220}
	if c.R.P(0.3) {
		o.Pure = append(o.Pure, nn.AllPure[c.R.Intn(len(nn.AllPure))])
	}
	for {
		s := nn.Gen(c.R, o)
		seen, used := false, false
		for _, n := range s.Nodes {
			if n.HasParams() {
				seen = true
			}
			if n.Kind == kind && seen {
				used = true
			}
		}
		if !used {
			continue
		}
		c.Ev("through_"+kind, 1)
		if c.Index%5 == 0 {
			nn.DecideSteps[float32](c, s)
		} else {
			nn.DecideSteps[float64](c, s)
		}
		return
	}
}

// behind: layers behind a hidden layer with several readers are updated as
// usual, whatever becomes of that layer.
func behind(c *mon.C) {
	for {
		o := nn.Opt{Image: c.R.Bool(), Branch: true, Share: true, Once: true, Pure: nn.AllPure, NeedParam: 2, LastPure: true, MaxSize: 200, Nest: c.R.P(0.3)}
		s := nn.Gen(c.R, o)
		shared, free := false, 0
		for i, b := range s.Behind() {
			shared = shared || b && s.Nodes[i].HasParams()
			if !b && s.Nodes[i].HasParams() {
				free++
			}
		}
		if !shared || free == 0 {
			continue
		}
		c.Ev("layers_behind_shared_ones", free)
		if c.Index%5 == 0 {
			nn.DecideSteps[float32](c, s)
		} else {
			nn.DecideSteps[float64](c, s)
		}
		return
	}
}

// fanout: a hidden layer that several others read (see known_findings.jsonl).
func fanout(c *mon.C) {
	if c.Index == 1 {
		twice(c)
		return
	}
	lin := nn.Act{Name: "linear"}
	s := nn.Spec{Nodes: []nn.Node{
		{Kind: "input", InShape: []uint{2}, Shape: []uint{2}},
		{Kind: "dense", In: []int{0}, N: 4, Act: lin, Shape: []uint{4}},
		{Kind: "sub", In: []int{1}, Dim: 0, From: 0, To: 2, Shape: []uint{2}},
		{Kind: "sub", In: []int{1}, Dim: 0, From: 2, To: 4, Shape: []uint{2}},
		{Kind: "concat", In: []int{2, 3}, Dim: 0, Shape: []uint{4}},
		{Kind: "dense", In: []int{4}, N: 2, Act: lin, Shape: []uint{2}},
	}}
	c.Desc("a hidden layer read by two layers: %v", s)
	net := nn.Make[float64](s, false)
	net.Compile(c)
	net.Calm(c)
	par := net.Params(c)
	x, t := nn.Sample[float64](c.R, s.InShape()), nn.Sample[float64](c.R, s.OutShape())
	vals := s.Forward(par, x)
	g, _ := s.Backward(par, vals, x, t, false)
	net.TrainOne(c, x, t, 0.1, 0)
	after := net.Params(c)
	// any positive multiple of the descent direction would do
	ratio := 0.0
	for j, v := range g[1].B.Data {
		if d := after[1].B.Data[j] - par[1].B.Data[j]; v != 0 {
			q := d / v
			if ratio == 0 {
				ratio = q
			}
			if q <= 0 || q/ratio < 0.999 || q/ratio > 1.001 {
				c.Fail("fan-out", "the bias of the shared layer moved by %v, its descent direction is %v", sub(after[1].B, par[1].B), g[1].B.Data)
			}
		}
	}
	c.Eval(1)
}

// twice: an output that holds the same layer twice.
func twice(c *mon.C) {
	lin := nn.Act{Name: "linear"}
	s := nn.Spec{Nodes: []nn.Node{
		{Kind: "input", InShape: []uint{2}, Shape: []uint{2}},
		{Kind: "dense", In: []int{0}, N: 3, Act: lin, Shape: []uint{3}},
		{Kind: "concat", In: []int{0, 1}, Dim: 0, Shape: []uint{5}},
		{Kind: "concat", In: []int{2, 0}, Dim: 0, Shape: []uint{7}},
	}}
	c.Desc("an output that holds the input twice: %v", s)
	net := nn.Make[float64](s, false)
	net.Compile(c)
	net.Calm(c)
	par := net.Params(c)
	x, t := nn.Sample[float64](c.R, s.InShape()), nn.Sample[float64](c.R, s.OutShape())
	vals := s.Forward(par, x)
	loss := net.TrainOne(c, x, t, 0.1, 0)
	if want := nn.Loss(vals[3].Out, t); loss < want-1e-6 || loss > want+1e-6 {
		c.Fail("same-layer-twice", "the loss is %v, want %v", loss, want)
	}
	c.Eval(1)
}

func sub(a, b nn.A) []float64 {
	o := make([]float64, len(a.Data))
	for i := range o {
		o[i] = a.Data[i] - b.Data[i]
	}
	return o
}

func main() {
	need := map[string]int64{"training_steps": 4000, "layer_updates_compared": 6000}
	for _, k := range nn.AllPure {
		need["through_"+k] = 100
	}
	mon.Main(mon.Check{
		ID:    "C16",
		Scale: 5,
		Rule:  "one case = one random network with parameterless layers or with branches joined by concatenation, trained for up to three single-sample steps; loss and every parameter compared after each step; distinct by element type and architecture with sizes",
		Assumptions: []string{
			"samples close to a jump of a derivative (an activation's kink, tied maxima of a pooling window) are drawn again",
			"only the model's input is read by several layers; the updates of hidden layers with several readers, and of those they read, are a recorded finding and not compared (the layers behind them are)"},
		Need: need,
		Groups: []mon.Group{
			{Name: "between", Quick: 4900, Thorough: 98000, Run: between},
			{Name: "chain", Quick: 2000, Thorough: 50000, Run: func(c *mon.C) {
				kinds(c, nn.Opt{Image: c.Index%3 != 0, Pure: nn.AllPure, NeedParam: 1, LastPure: true, MaxSize: 200, MaxNodes: 7, Nest: c.R.P(0.3)})
			}},
			{Name: "branch", Quick: 4000, Thorough: 80000, Run: func(c *mon.C) {
				kinds(c, nn.Opt{Image: c.Index%2 == 0, Branch: true, Pure: nn.AllPure, NeedParam: 1, LastPure: true, MaxSize: 240, Nest: c.R.P(0.3)})
			}},
			{Name: "large", Quick: 600, Thorough: 16000, Run: func(c *mon.C) {
				run[float64](c, nn.Opt{Image: c.Index%4 != 0, Branch: c.Index%3 == 0, Pure: nn.AllPure, NeedParam: 1, LastPure: true, Big: true, Nest: c.R.P(0.2)})
			}},
			{Name: "scales", Quick: 800, Thorough: 20000, Run: func(c *mon.C) {
				nn.DecideScales(c, nn.Gen(c.R, nn.Opt{Image: c.Index%4 != 0, Branch: c.Index%3 == 0, Pure: nn.AllPure, NeedParam: 1, LastPure: true, MaxSize: 100, Nest: c.R.P(0.2)}), false)
			}},
			{Name: "behind", Quick: 1500, Thorough: 40000, Run: behind},
			{Name: "fanout", Quick: 2, Thorough: 2, Run: fanout},
		},
	})
}
