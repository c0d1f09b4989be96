// C13: architectures and samples that do not fit are errors, never panics, and
// leave a model as it was.
package main

import (
	"fmt"

	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/nn"
	"verif/harness/tk"
)

func linear() nn.Act { return nn.Act{Name: "linear"} }

// bad is a layer that does not fit behind a layer of shape sh.
func bad(r *mon.Rng, sh []uint) (nn.Node, string) {
	small := func(lo, hi int) uint { return uint(r.Range(lo, hi)) }
	n := nn.Node{Shape: []uint{1, 1, 1}, N: small(1, 3), Act: linear(), KW: small(1, 2), KH: small(1, 2), SX: small(1, 3), SY: small(1, 3)}
	if len(sh) != 3 && r.P(0.6) {
		n.Kind = mon.Pick(r, "conv", "deconv", "maxpool", "up")
		return n, n.Kind + " behind rank " + fmt.Sprint(len(sh))
	}
	if len(sh) == 3 && r.P(0.7) {
		switch r.Intn(6) {
		case 0:
			n.Kind, n.KW = "conv", sh[1]+small(1, 3)
			return n, "kernel too wide"
		case 1:
			n.Kind, n.KH = "conv", sh[2]+small(1, 3)
			return n, "kernel too high"
		case 2:
			n.Kind = "conv"
			if r.Bool() {
				n.KW = 0
			} else {
				n.KH = 0
			}
			return n, "kernel 0"
		case 3:
			n.Kind = "conv"
			if r.Bool() {
				n.SX = 0
			} else {
				n.SY = 0
			}
			return n, "stride 0"
		case 4:
			n.Kind = "maxpool"
			if r.Bool() {
				n.SX = 0
			} else {
				n.SY = 0
			}
			return n, "pool 0"
		default:
			// the kernel fits when turned
			if sh[1] != sh[2] {
				n.Kind, n.KW, n.KH = "conv", sh[2], sh[1]
				return n, "kernel turned"
			}
			n.Kind, n.KW, n.KH = "conv", sh[1]+1, sh[2]+1
			return n, "kernel too large"
		}
	}
	n.Kind = "sub"
	switch r.Intn(4) {
	case 0:
		n.Dim, n.From, n.To = uint(len(sh))+small(0, 2), 0, 1
		return n, "sub dimension"
	case 1:
		n.Dim = uint(r.Intn(len(sh)))
		n.From = uint(r.Intn(int(sh[n.Dim])))
		n.To = sh[n.Dim] + small(1, 3)
		return n, "sub end"
	case 2:
		n.Dim = uint(r.Intn(len(sh)))
		n.From = uint(r.Intn(int(sh[n.Dim])))
		n.To = uint(r.Intn(int(n.From) + 1))
		return n, "sub empty"
	default:
		n.Dim = uint(r.Intn(len(sh)))
		n.From = sh[n.Dim] + small(0, 2)
		n.To = n.From + small(1, 2)
		return n, "sub start"
	}
}

// entry points that must report the error.
func refuse[T types.Number](c *mon.C, m *model.Model[T], in, out []uint) {
	refuse1(c, m, in, out)
	// and the refusal stands, whatever is tried next
	for k := c.R.Intn(3); k > 0; k-- {
		refuse1(c, m, in, out)
		c.Ev("refused_again", 1)
	}
}

func refuse1[T types.Number](c *mon.C, m *model.Model[T], in, out []uint) {
	how := c.R.Intn(7)
	x := func() tensor.Tensor[T] { return tk.Ten(nn.Sample[T](c.R, in)) }
	t := func() tensor.Tensor[T] { return tk.Ten(nn.Sample[T](c.R, out)) }
	var err error
	name := ""
	c.NoPanic("architecture", func() {
		switch how {
		case 0:
			name = "Compile"
			err = m.Compile()
		case 1:
			name = "CompileBackPropagation"
			err = m.CompileBackPropagation()
		case 2:
			name = "Predict"
			_, err = m.Predict(x())
		case 3:
			name = "TrainOne"
			_, err = m.TrainOne(x(), t(), 1, 0)
		case 4:
			name = "Train"
			err = m.Train([]tensor.Tensor[T]{x()}, []tensor.Tensor[T]{t()}, 2, 1, 1, 0)
		case 5:
			name = "ResetIS"
			err = m.ResetIS()
		default:
			name = "FromModels"
			_, err = model.FromModels[T](m)
		}
	})
	if err == nil {
		c.Fail("architecture", "%s accepted it", name)
	}
	if err.Error() == "" {
		c.Fail("architecture", "%s reports an empty error", name)
	}
	c.Ev("architectures_refused", 1)
	c.Eval(1)
}

func architecture[T types.Number](c *mon.C) {
	r := c.R
	o := nn.Opt{Image: r.P(0.6), Pure: nn.AllPure, LastPure: true, MaxSize: 100, Branch: r.P(0.4), Share: r.Bool(), MaxNodes: 3}
	if !tk.IsFloat[T]() {
		o.Acts = nn.IntActs
	}
	s := nn.Gen(r, o)
	if r.P(0.3) {
		// straight behind an input of any rank
		in := tk.Shape(r, r.Range(1, 5), 60)
		s = nn.Spec{Nodes: []nn.Node{{Kind: "input", InShape: in, Shape: in}}}
	}
	last := len(s.Nodes) - 1
	what := ""
	if r.P(0.75) {
		n, w := bad(r, s.OutShape())
		n.In, what = []int{last}, w
		s.Nodes = append(s.Nodes, n)
	} else {
		// a second branch that does not fit the first
		a := s.OutShape()
		k := 0
		if r.P(0.3) {
			k = last
		}
		b := nn.Node{Kind: "flatten", In: []int{k}, Shape: []uint{uint(tk.Size(s.Nodes[k].Shape))}}
		if r.Bool() {
			b = nn.Node{Kind: "dense", In: []int{k}, N: uint(r.Range(1, 5)), Act: linear()}
			b.Shape = []uint{b.N}
		}
		s.Nodes = append(s.Nodes, b)
		cc := nn.Node{Kind: "concat", In: []int{last, len(s.Nodes) - 1}, Shape: []uint{1}}
		if r.Bool() {
			cc.In[0], cc.In[1] = cc.In[1], cc.In[0]
		}
		if len(a) == 1 {
			cc.Dim, what = uint(r.Range(1, 3)), "concat dimension"
		} else {
			cc.Dim, what = uint(r.Intn(len(a))), "concat rank"
		}
		if len(a) > 1 && r.Bool() {
			// same rank, other sizes away from the joined dimension
			what = "concat sizes"
			d := uint(r.Intn(len(a)))
			if a[d] > 1 {
				x := tk.CloneU(a)
				x[d] = uint(r.Range(1, int(a[d])-1))
				s.Nodes[len(s.Nodes)-1] = nn.Node{Kind: "sub", In: []int{last}, Dim: d, From: 0, To: x[d], Shape: x}
				cc.Dim = (d + uint(r.Range(1, len(a)-1))) % uint(len(a))
			} else {
				s.Nodes[len(s.Nodes)-1] = nn.Node{Kind: "norm", In: []int{last}, Shape: a}
				cc.Dim, what = uint(len(a))+uint(r.Intn(2)), "concat dimension"
			}
		}
		s.Nodes = append(s.Nodes, cc)
	}
	// whatever comes behind it
	for k := r.Intn(3); k > 0; k-- {
		n := nn.Node{Kind: mon.Pick(r, "dense", "flatten", "norm", "softmax", "dense"), In: []int{len(s.Nodes) - 1}, N: 2, Act: linear(), Shape: []uint{2}}
		s.Nodes = append(s.Nodes, n)
	}
	c.Desc("%s: %s", what, nn.Describe[T](s))
	net := nn.Make[T](s, r.Bool())
	refuse(c, net.M, s.InShape(), s.OutShape())
	c.Ev("refused "+what, 1)
	c.Distinct("%s %s", tk.TypeName[T](), s.String())
}

// headless: a model that does not start with an input.
func headless[T types.Number](c *mon.C) {
	r := c.R
	first := nn.Node{Kind: mon.Pick(r, "flatten", "maxpool", "up", "norm", "enorm", "softmax", "sub", "dense", "conv", "deconv"), To: 1, N: 2, KW: 1, KH: 1, SX: 1, SY: 1, Act: linear(), Shape: []uint{2}}
	s := nn.Spec{Nodes: []nn.Node{first}}
	for k := r.Intn(3); k > 0; k-- {
		s.Nodes = append(s.Nodes, nn.Node{Kind: mon.Pick(r, "dense", "flatten", "norm"), In: []int{len(s.Nodes) - 1}, N: 2, Act: linear(), Shape: []uint{2}})
	}
	c.Desc("a model that starts with %s", nn.Describe[T](s))
	if r.P(0.2) {
		in := layer.NewInput[T](3)
		var a, b layer.Layer[T] = in, nil
		if r.Bool() {
			a, b = nil, in
		}
		if r.P(0.3) {
			a, b = nil, nil
		}
		l := layer.NewConcat[T](a, b, 0)
		if r.Bool() {
			d := layer.NewDense[T](2, nn.MakeAct[T](linear()))
			d.Connect(l)
			l = d
		}
		m, err := model.FromInOut[T](in, l)
		if err != nil {
			c.Fail("setup", "%v", err)
		}
		c.Desc("a concatenation without one of its branches")
		refuse(c, m, []uint{3}, []uint{2})
		return
	}
	net := nn.Make[T](s, r.Bool())
	refuse(c, net.M, []uint{2}, []uint{2})
	c.Distinct("headless %s %s", tk.TypeName[T](), s.String())
}

// samples: samples of any other shape are refused and leave no trace.
func samples[T types.Number](c *mon.C) {
	r := c.R
	o := nn.Opt{Image: r.Bool(), Pure: nn.AllPure, NeedParam: 1, LastPure: true, MaxSize: 120, Branch: r.P(0.3), Share: r.Bool()}
	if !tk.IsFloat[T]() {
		o.Acts, o.MaxNodes, o.Pure = nn.IntActs, 3, []string{"flatten", "maxpool", "up", "sub"}
	}
	s := nn.Gen(r, o)
	c.Desc("%s", nn.Describe[T](s))
	net, twin := nn.Make[T](s, r.Bool()), nn.Make[T](s, r.Bool())
	net.Compile(c)
	twin.Compile(c)
	net.Calm(c)
	twin.SetRaw(c, net.Raw())
	al := T(1)
	mom := T(0)
	if tk.IsFloat[T]() {
		al, mom = T(mon.Pick(r, 0.1, 0.02)), T(mon.Pick(r, 0, 0.9))
	}
	hist := ""
	for k := r.Range(2, 8); k > 0; k-- {
		before := net.Raw()
		in, out := s.InShape(), s.OutShape()
		good := r.P(0.3)
		if !good {
			switch r.Intn(3) {
			case 0:
				in = nn.OtherShape(r, in)
			case 1:
				out = nn.OtherShape(r, out)
			default:
				in, out = nn.OtherShape(r, in), nn.OtherShape(r, out)
			}
		}
		xa, ta := nn.Sample[T](r, in), nn.Sample[T](r, out)
		x, t := tk.Ten(xa), tk.Ten(ta)
		var err error
		name := ""
		c.NoPanic("sample", func() {
			switch j := r.Intn(5); {
			case good:
				name = "good"
				_, err = net.M.TrainOne(x, t, al, mom)
				_, err2 := twin.M.TrainOne(tk.Ten(xa), tk.Ten(ta), al, mom)
				if err != nil || err2 != nil {
					c.Fail("sample", "a valid sample was refused: %v %v", err, err2)
				}
				nn.MustRaw(c, "trace", "parameters after ["+hist+"]", net.Raw(), twin.Raw())
			case j == 0:
				name = "Predict"
				if tk.EqShape(in, s.InShape()) {
					in = nn.OtherShape(r, in)
					x = tk.Ten(nn.Sample[T](r, in))
				}
				var y tensor.Tensor[T]
				y, err = net.M.Predict(x)
				if err != nil && y != nil {
					c.Fail("sample", "Predict returns both an error and an answer")
				}
			case j == 1:
				name = "Train"
				err = net.M.Train([]tensor.Tensor[T]{x, x}, []tensor.Tensor[T]{t, t}, uint(r.Range(1, 3)), uint(r.Range(0, 2)), al, mom)
			case j == 2:
				name = "TrainLengths"
				n := r.Range(0, 3)
				m := n + r.Range(1, 2)
				if r.Bool() {
					n, m = m, n
				}
				var xs, ts []tensor.Tensor[T]
				for i := 0; i < n; i++ {
					xs = append(xs, tk.Ten(nn.Sample[T](r, s.InShape())))
				}
				for i := 0; i < m; i++ {
					ts = append(ts, tk.Ten(nn.Sample[T](r, s.OutShape())))
				}
				err = net.M.Train(xs, ts, uint(r.Intn(3)), uint(r.Intn(3)), al, mom)
			case j == 3:
				name = "TrainNothing"
				err = net.M.Train(nil, nil, uint(r.Range(1, 3)), uint(r.Range(1, 3)), al, mom)
			default:
				name = "TrainOne"
				_, err = net.M.TrainOne(x, t, al, mom)
			}
		})
		hist += name + " "
		if good {
			if !nn.Bounded(net.Raw()) {
				return
			}
			c.Ev("steps_compared", 1)
			continue
		}
		if err == nil {
			c.Fail("sample", "%s accepted a sample %v with target %v (want %v and %v)", name, in, out, s.InShape(), s.OutShape())
		}
		nn.MustRaw(c, "trace", "parameters after ["+hist+"]", net.Raw(), before)
		p := nn.Sample[T](r, s.InShape())
		nn.MustData(c, "trace", "the prediction after ["+hist+"]", net.Predict(c, p), twin.Predict(c, p))
		c.Ev("samples_refused", 1)
	}
	c.Distinct("samples %s %s %s", tk.TypeName[T](), s.String(), hist)
}

func six(c *mon.C, f32, f64, i, i16, i32, i64 func(*mon.C)) {
	tk.ForType(c.Index, func() { f32(c) }, func() { f64(c) }, func() { i(c) }, func() { i16(c) }, func() { i32(c) }, func() { i64(c) })
}

func main() {
	mon.Main(mon.Check{
		ID:          "C13",
		Scale:       12,
		Rule:        "one case = a random valid architecture made invalid at one place (layer rank, kernel, stride, pool, range, branches, missing input) and handed to one of the entry points, or a random model and a history of samples of wrong shapes and counts between valid steps; distinct by type, architecture and history",
		Need:        map[string]int64{"architectures_refused": 4000, "samples_refused": 4000, "steps_compared": 1500},
		Assumptions: []string{"what other models made of the same layers do after one failed to build is not specified"},
		Groups: []mon.Group{
			{Name: "architecture", Quick: 6000, Thorough: 120000, Run: func(c *mon.C) {
				six(c, architecture[float32], architecture[float64], architecture[int], architecture[int16], architecture[int32], architecture[int64])
			}},
			{Name: "headless", Quick: 600, Thorough: 6000, Run: func(c *mon.C) {
				six(c, headless[float32], headless[float64], headless[int], headless[int16], headless[int32], headless[int64])
			}},
			{Name: "samples", Quick: 2500, Thorough: 50000, Run: func(c *mon.C) {
				six(c, samples[float32], samples[float64], samples[int], samples[int16], samples[int32], samples[int64])
			}},
		},
	})
}
