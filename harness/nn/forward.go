package nn

import (
	"math"

	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/tk"
)

// Sample draws an input.
func Sample[T types.Number](r *mon.Rng, shape []uint) tk.Arr[T] {
	a := tk.NewArr[T](shape)
	for i := range a.Data {
		if tk.IsFloat[T]() {
			a.Data[i] = T(r.Norm())
			if r.P(0.05) {
				a.Data[i] = 0
			}
		} else {
			a.Data[i] = T(r.Range(-4, 4))
		}
	}
	return a
}

// Limit bounds the values a case may reach.
func Limit[T types.Number]() float64 {
	switch tk.TypeName[T]() {
	case "float32":
		return 1e3
	case "float64":
		return 1e5
	case "int16":
		return 30000
	}
	return 1e9
}

// DecideForward compiles a network and compares every layer's output for a few
// inputs, before and after other inputs went through the model.
func DecideForward[T types.Number](c *mon.C, s Spec) {
	c.Desc("%s", Describe[T](s))
	net := Make[T](s, c.R.Bool())
	if c.R.P(0.8) {
		net.Compile(c)
	} else {
		// prediction compiles on demand
		net.Predict(c, Sample[T](c.R, s.InShape()))
	}
	if c.R.P(0.7) || !tk.IsFloat[T]() {
		net.Calm(c)
	}
	par := net.Params(c)
	n := c.R.Range(1, 3)
	decided := 0
	for k := 0; k < n; k++ {
		x := Sample[T](c.R, s.InShape())
		if k > 0 && c.R.P(0.2) {
			x = tk.NewArr[T](s.InShape())
		}
		vals := s.Forward(par, To64(x))
		// ill-conditioned points are not compared (0 is a fine input, but a norm
		// of zeros is not a number)
		bad := !Finite(vals, Limit[T]())
		for i, nd := range s.Nodes {
			switch nd.Kind {
			case "norm", "enorm", "softmax":
				if !(vals[i].Margin > 0.05) {
					bad = true
				}
			}
			if vals[i].Mag > Limit[T]() {
				bad = true
			}
		}
		got := net.Predict(c, x)
		if bad {
			c.Ev("ill_conditioned_skipped", 1)
			continue
		}
		decided++
		mag := 1.0
		for i := range vals {
			mag = math.Max(mag, vals[i].Mag)
		}
		CheckClose(c, "predict", "prediction", got, vals[len(vals)-1].Out, mag)
		// the layers in between
		for i, l := range net.Layers {
			if _, ok := l.(*layer.Input[T]); ok {
				continue
			}
			o := l.GetOutputs()
			if o == nil {
				c.Fail("layer", "layer %d has no output", i)
			}
			CheckClose(c, "layer-"+s.Nodes[i].Kind, "output of layer "+s.Nodes[i].String(), tk.Read[T](c, "layer", o), vals[i].Out, mag)
			c.Ev("layer_outputs_compared", 1)
		}
	}
	if decided > 0 {
		c.Distinct("%s %s", tk.TypeName[T](), s.String())
	}
}

func ForTypeF(i int, f32, f64 func()) {
	if i%4 == 0 {
		f32()
	} else {
		f64()
	}
}

// DecideHomogeneous scales the sample and the biases by a power of two. With
// activations that are linear on either side of zero every output must scale
// exactly (or, behind a normalisation, not change at all), however small or
// large the numbers are.
func DecideHomogeneous[T types.Number](c *mon.C, s Spec) {
	r := c.R
	c.Desc("scaled %s", Describe[T](s))
	degree := make([]int, len(s.Nodes))
	for i, n := range s.Nodes {
		switch n.Kind {
		case "input", "indense":
			degree[i] = 1
		case "norm", "enorm", "softmax":
		case "concat":
			degree[i] = degree[n.In[0]]
			for _, j := range n.In {
				if degree[j] != degree[i] {
					c.Ev("mixed_degrees_skipped", 1)
					return
				}
			}
		default:
			degree[i] = degree[n.In[0]]
		}
	}
	net := Make[T](s, r.Bool())
	net.Compile(c)
	net.Calm(c)
	x := Sample[T](r, s.InShape())
	read := func(x tk.Arr[T]) []tk.Arr[T] {
		got := net.Predict(c, x)
		out := make([]tk.Arr[T], len(s.Nodes))
		for i, l := range net.Layers {
			if s.Nodes[i].Kind != "input" && l.GetOutputs() != nil {
				out[i] = tk.Read[T](c, "layer", l.GetOutputs())
			}
		}
		return append(out, got)
	}
	base := read(x)
	p := r.Range(-60, 60)
	if tk.Eps[T]() > 1e-10 {
		p = r.Range(-25, 25)
	}
	k := T(math.Ldexp(1, p))
	c.Note("factor 2^%d", p)
	sx := x.Clone()
	for i := range sx.Data {
		sx.Data[i] *= k
	}
	for i, n := range s.Nodes {
		if _, b := net.Tensors(i); b != nil && n.HasParams() && (n.Kind == "indense" || degree[n.In[0]] == 1) {
			d := b.GetData()
			for j := range d {
				d[j] *= k
			}
			if err := b.LoadData(d); err != nil {
				c.Fail("params", "%v", err)
			}
		}
	}
	got := read(sx)
	for i := range got {
		f, what := k, "the prediction"
		if i < len(s.Nodes) {
			what = "the output of layer " + s.Nodes[i].String()
		}
		if d := i; degree[lesser(d, len(s.Nodes)-1)] == 0 {
			f = 1
		}
		for j := range got[i].Data {
			if !tk.Same(got[i].Data[j], base[i].Data[j]*f) {
				c.Fail("scaled", "%s: element %d is %v for inputs and biases times 2^%d, %v for the plain ones", what, j, got[i].Data[j], p, base[i].Data[j])
			}
		}
		c.Eval(1)
	}
	c.Ev("scaled_predictions", 1)
	c.Distinct("scaled %s %s %d", tk.TypeName[T](), s.String(), p)
}
