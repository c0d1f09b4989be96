// C12: the parameterless layers transform as documented, wherever they stand.
package main

import (
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/nn"
	"verif/harness/tk"
)

func net[T types.Number](c *mon.C, o nn.Opt) {
	if !tk.IsFloat[T]() {
		o.Acts = nn.IntActs
		o.MaxNodes = 4
		o.Pure = []string{"flatten", "maxpool", "up", "sub"}
	}
	nn.DecideForward[T](c, nn.Gen(c.R, o))
}

func any6(c *mon.C, o nn.Opt) {
	tk.ForType(c.Index, func() { net[float32](c, o) }, func() { net[float64](c, o) }, func() { net[int](c, o) },
		func() { net[int16](c, o) }, func() { net[int32](c, o) }, func() { net[int64](c, o) })
}

// direct: pools and their like straight behind the input, larger sizes.
func direct[T types.Number](c *mon.C) {
	r := c.R
	ch, w, h := uint(r.Range(1, 4)), uint(r.Range(1, 20)), uint(r.Range(1, 20))
	in := []uint{ch, w, h}
	var s nn.Spec
	kinds := nn.AllPure
	if !tk.IsFloat[T]() {
		kinds = []string{"flatten", "maxpool", "up", "sub"}
	}
	kind := kinds[(c.Index/6)%len(kinds)]
	n := nn.Node{Kind: kind, In: []int{0}, Shape: in}
	switch kind {
	case "flatten", "norm", "enorm", "softmax", "sub":
		in = tk.AnyShape(r)
		if len(in) == 0 || tk.Size(in) < 2 {
			in = []uint{uint(r.Range(2, 50))}
		}
		n.Shape = tk.CloneU(in)
		if kind == "flatten" {
			n.Shape = []uint{uint(tk.Size(in))}
		}
		if kind == "sub" {
			n.Dim = uint(r.Intn(len(in)))
			n.From = uint(r.Intn(int(in[n.Dim])))
			n.To = n.From + uint(r.Range(1, int(in[n.Dim]-n.From)))
			n.Shape[n.Dim] = n.To - n.From
		}
	case "maxpool":
		n.SX, n.SY = uint(r.Range(1, 6)), uint(r.Range(1, 6))
		if r.P(0.2) {
			n.SX = uint(r.Range(1, 25))
		}
		n.Shape = []uint{ch, (w + n.SX - 1) / n.SX, (h + n.SY - 1) / n.SY}
	case "up":
		n.SX, n.SY = uint(r.Range(1, 5)), uint(r.Range(1, 5))
		n.Shape = []uint{ch, w * n.SX, h * n.SY}
	}
	s.Nodes = []nn.Node{{Kind: "input", InShape: in, Shape: in}, n}
	nn.DecideForward[T](c, s)
}

func main() {
	mon.Main(mon.Check{
		ID:          "C12",
		Scale:       5,
		Rule:        "one case = one random network with parameterless layers (flatten, sub-tensor, concat, pooling, up-sampling, normalisation, soft-max); every layer's output is compared with the reference for several inputs; distinct by element type and architecture with sizes",
		Need:        map[string]int64{"predictions": 4000, "layer_outputs_compared": 5000, "scaled_predictions": 500},
		Assumptions: []string{"normalisations are compared where the largest magnitude (the sum for soft-max) is above 0.05"},
		Groups: []mon.Group{
			{Name: "direct", Quick: 6000, Thorough: 100000, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { direct[float32](c) }, func() { direct[float64](c) }, func() { direct[int](c) },
					func() { direct[int16](c) }, func() { direct[int32](c) }, func() { direct[int64](c) })
			}},
			{Name: "chain", Quick: 4000, Thorough: 80000, Run: func(c *mon.C) {
				any6(c, nn.Opt{Image: true, Pure: nn.AllPure, MaxNodes: 7, LastPure: true, Nest: c.R.P(0.3), Big: c.R.P(0.04)})
			}},
			{Name: "branch", Quick: 4000, Thorough: 80000, Run: func(c *mon.C) {
				any6(c, nn.Opt{Image: c.R.Bool(), Branch: true, Share: c.R.Bool(), Nest: c.R.P(0.3), Big: c.R.P(0.04), Pure: nn.AllPure, LastPure: true, MaxSize: 300})
			}},
			{Name: "scaled", Quick: 1500, Thorough: 30000, Run: func(c *mon.C) {
				o := nn.Opt{Image: c.R.P(0.8), Branch: c.R.P(0.3), Pure: nn.AllPure, LastPure: true, MaxSize: 150, Acts: nn.Homogeneous}
				nn.ForTypeF(c.Index, func() { nn.DecideHomogeneous[float32](c, nn.Gen(c.R, o)) }, func() { nn.DecideHomogeneous[float64](c, nn.Gen(c.R, o)) })
			}},
		},
	})
}
