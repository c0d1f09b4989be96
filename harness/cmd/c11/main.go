// C11: dense, convolution and transposed-convolution layers compute their formula.
package main

import (
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/nn"
	"verif/harness/tk"
)

func run[T types.Number](c *mon.C, o nn.Opt) {
	if !tk.IsFloat[T]() {
		o.Acts = nn.IntActs
		o.MaxNodes = 2
	}
	nn.DecideForward[T](c, nn.Gen(c.R, o))
}

func any6(c *mon.C, o nn.Opt) {
	tk.ForType(c.Index, func() { run[float32](c, o) }, func() { run[float64](c, o) }, func() { run[int](c, o) },
		func() { run[int16](c, o) }, func() { run[int32](c, o) }, func() { run[int64](c, o) })
}

// single: one layer behind an input, any sizes.
func single[T types.Number](c *mon.C) {
	r := c.R
	acts := nn.AllActs
	if !tk.IsFloat[T]() {
		acts = nn.IntActs
	}
	act := acts[r.Intn(len(acts))]
	var s nn.Spec
	switch (c.Index / 6) % 3 {
	case 0:
		in := tk.AnyShape(r)
		if len(in) == 0 || tk.Size(in) > 1500 {
			in = []uint{uint(r.Range(1, 300))}
		}
		out := uint(r.Range(1, 12))
		if r.P(0.2) {
			out = uint(r.Range(13, 200))
		}
		if tk.Size(in)*int(out) > 40000 {
			out = 1
		}
		s.Nodes = []nn.Node{{Kind: "input", InShape: in, Shape: in}, {Kind: "dense", In: []int{0}, N: out, Act: act, Shape: []uint{out}}}
	case 1, 2:
		ch, w, h := uint(r.Range(1, 5)), uint(r.Range(1, 14)), uint(r.Range(1, 14))
		if r.P(0.1) {
			w = uint(r.Range(15, 40))
		}
		if r.P(0.1) {
			h = uint(r.Range(15, 40))
		}
		for ch*w*h > 500 {
			ch = 1
			if w*h > 500 {
				h = 10
			}
		}
		n := nn.Node{In: []int{0}, N: uint(r.Range(1, 5)), Act: act, SX: uint(r.Range(1, 5)), SY: uint(r.Range(1, 5))}
		if (c.Index/6)%3 == 1 {
			n.Kind = "conv"
			n.KW, n.KH = uint(r.Range(1, int(w))), uint(r.Range(1, int(h)))
			if n.KW > 6 && r.P(0.8) {
				n.KW = uint(r.Range(1, 6))
			}
			if n.KH > 6 && r.P(0.8) {
				n.KH = uint(r.Range(1, 6))
			}
			n.Shape = []uint{n.N, (w-n.KW)/n.SX + 1, (h-n.KH)/n.SY + 1}
		} else {
			n.Kind = "deconv"
			n.KW, n.KH = uint(r.Range(1, 5)), uint(r.Range(1, 5))
			for int(n.SX*w*n.SY*h) > 1500 {
				n.SX, n.SY = 1, 1
			}
			n.Shape = []uint{n.N, (w-1)*n.SX + n.KW, (h-1)*n.SY + n.KH}
		}
		s.Nodes = []nn.Node{{Kind: "input", InShape: []uint{ch, w, h}, Shape: []uint{ch, w, h}}, n}
	}
	nn.DecideForward[T](c, s)
}

func main() {
	mon.Main(mon.Check{
		ID:    "C11",
		Scale: 3,
		Rule:  "one case = one random network of dense, convolution and transposed-convolution layers; every layer's output is compared with the formula for several inputs; distinct by element type and architecture with sizes",
		Need:  map[string]int64{"predictions": 4000, "layer_outputs_compared": 5000, "scaled_predictions": 500},
		Groups: []mon.Group{
			{Name: "single", Quick: 6000, Thorough: 120000, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { single[float32](c) }, func() { single[float64](c) }, func() { single[int](c) },
					func() { single[int16](c) }, func() { single[int32](c) }, func() { single[int64](c) })
			}},
			{Name: "dense", Quick: 3000, Thorough: 60000, Run: func(c *mon.C) { any6(c, nn.Opt{NeedParam: 1}) }},
			{Name: "image", Quick: 3000, Thorough: 60000, Run: func(c *mon.C) { any6(c, nn.Opt{Image: true, NeedParam: 1, MaxSize: 200}) }},
			{Name: "large", Quick: 500, Thorough: 10000, Run: func(c *mon.C) { any6(c, nn.Opt{Image: c.Index%5 != 0, NeedParam: 1, Big: true}) }},
			{Name: "deep", Quick: 150, Thorough: 3000, Run: func(c *mon.C) {
				o := nn.Opt{Image: c.Index%3 == 0, NeedParam: 10, Deep: true, Acts: []nn.Act{{Name: "tanh"}, {Name: "sigmoid"}, {Name: "sin"}}}
				nn.ForTypeF(c.Index, func() { nn.DecideForward[float32](c, nn.Gen(c.R, o)) }, func() { nn.DecideForward[float64](c, nn.Gen(c.R, o)) })
			}},
			{Name: "scaled", Quick: 1500, Thorough: 30000, Run: func(c *mon.C) {
				o := nn.Opt{Image: c.Index%2 == 0, NeedParam: 1, MaxSize: 100, Acts: nn.Homogeneous}
				nn.ForTypeF(c.Index/2, func() { nn.DecideHomogeneous[float32](c, nn.Gen(c.R, o)) }, func() { nn.DecideHomogeneous[float64](c, nn.Gen(c.R, o)) })
			}},
		},
	})
}
