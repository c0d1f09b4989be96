package nn

import (
	"math"

	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/tk"
)

// Step is one training step the reference can decide.
type Step[T types.Number] struct {
	X, T  tk.Arr[T]
	Alpha T
}

// Usable says that the reference decides the network at this point: moderate
// values and no point where a derivative jumps close by.
func Usable[T types.Number](s Spec, vals []Val) bool {
	if !Finite(vals, StepLimit[T]()) {
		return false
	}
	if tk.IsFloat[T]() {
		lim := 1e-6
		if tk.Eps[T]() > 1e-10 {
			lim = 1e-3
		}
		if !(Margin(vals) > lim) {
			return false
		}
	} else if tied(s, vals) {
		return false
	}
	for i, n := range s.Nodes {
		switch n.Kind {
		case "norm", "enorm", "softmax":
			if !(vals[i].Margin > 0.2) {
				return false
			}
		}
		if vals[i].Mag > StepLimit[T]() {
			return false
		}
	}
	return true
}

// tied: two equal maxima in a pooling window.
func tied(s Spec, vals []Val) bool {
	for i, n := range s.Nodes {
		if n.Kind == "maxpool" && !(vals[i].Margin > 0) {
			return true
		}
	}
	return false
}

// DrawStep draws a sample that the reference decides, or fails to.
func DrawStep[T types.Number](r *mon.Rng, s Spec, par []Params, tries int) (st Step[T], vals []Val, ok bool) {
	for k := 0; k < tries; k++ {
		st.X = Sample[T](r, s.InShape())
		vals = s.Forward(par, To64(st.X))
		if !Usable[T](s, vals) {
			continue
		}
		st.T = Sample[T](r, s.OutShape())
		if r.P(0.1) {
			// some outputs are exactly right
			for i := range st.T.Data {
				if r.Bool() {
					st.T.Data[i] = T(vals[len(vals)-1].Out.Data[i])
				}
			}
		}
		if tk.IsFloat[T]() {
			st.Alpha = T(mon.Pick(r, 1, 0.5, 0.1, 0.05, 0.01, 2, 1, 0.5, 0.1, 0.05, 0.01, -0.2))
		} else {
			st.Alpha = T(mon.Pick(r, 1, 1, 2, 3))
		}
		return st, vals, true
	}
	return st, nil, false
}

func big(a A) float64 {
	m := 0.0
	for _, v := range a.Data {
		m = math.Max(m, math.Abs(v))
	}
	return m
}

// Scale bounds the numbers of one step.
func Scale(par, g []Params, mags []float64, vals []Val) float64 {
	m := 1.0
	for i := range g {
		m = math.Max(m, mags[i])
		m = math.Max(m, vals[i].Mag)
		m = math.Max(m, big(vals[i].Out))
		for _, a := range []A{par[i].W, par[i].B, g[i].W, g[i].B} {
			m = math.Max(m, big(a))
		}
	}
	return m
}

// CheckParams compares the parameters of the network with the expected ones.
func CheckParams[T types.Number](c *mon.C, sig string, net *Net[T], want []Params, scale float64) {
	got := net.Params(c)
	for i, n := range net.Spec.Nodes {
		if !n.HasParams() {
			continue
		}
		CheckClose(c, sig+"-"+n.Kind+"-weights", "weights of layer "+n.String(), got[i].W, want[i].W, scale)
		CheckClose(c, sig+"-"+n.Kind+"-bias", "bias of layer "+n.String(), got[i].B, want[i].B, scale)
	}
}

// StepLimit bounds the numbers of a step that is compared.
func StepLimit[T types.Number]() float64 {
	switch tk.TypeName[T]() {
	case "float32":
		return 100
	case "float64":
		return 1000
	}
	return Limit[T]()
}

// TolScale widens the scale for the float64 view of a float32 network.
func TolScale[T types.Number](scale float64) float64 {
	if tk.Eps[T]() > 1e-10 {
		return scale * 1e-3 / 1e-8
	}
	if tk.IsFloat[T]() {
		return scale * 1e-6 / 1e-8
	}
	// exact
	return 0
}

// Behind marks the hidden nodes with several readers and all that they read.
func (s Spec) Behind() []bool {
	b := make([]bool, len(s.Nodes))
	cons := s.Consumers()
	for i := len(s.Nodes) - 1; i >= 0; i-- {
		if cons[i] > 1 && s.Nodes[i].Kind != "input" {
			b[i] = true
		}
		if b[i] {
			for _, j := range s.Nodes[i].In {
				b[j] = true
			}
		}
	}
	return b
}

// DecideSteps trains a network step by step and compares the loss and every
// parameter after every step with the reference.
func DecideSteps[T types.Number](c *mon.C, s Spec) bool {
	c.Desc("%s", Describe[T](s))
	// nothing is said about hidden layers with several readers and what they read
	behind := s.Behind()
	net := Make[T](s, c.R.Bool())
	switch c.R.Intn(3) {
	case 0:
		net.Compile(c)
	case 1:
		c.NoPanic("compile", func() {
			if err := net.M.CompileBackPropagation(); err != nil {
				c.Fail("compile", "a valid architecture was rejected: %v", err)
			}
		})
	default:
		net.Predict(c, Sample[T](c.R, s.InShape()))
	}
	if c.R.P(0.85) || !tk.IsFloat[T]() {
		net.Calm(c)
	}
	decided := false
	for k := c.R.Range(1, 3); k > 0; k-- {
		par := net.Params(c)
		st, vals, ok := DrawStep[T](c.R, s, par, 12)
		if !ok {
			c.Ev("ill_conditioned_skipped", 1)
			break
		}
		if c.R.P(0.2) {
			net.Predict(c, Sample[T](c.R, s.InShape()))
		}
		g, mags := s.Backward(par, vals, To64(st.X), To64(st.T), true)
		scale := Scale(par, g, mags, vals)
		if !(scale < StepLimit[T]()) {
			c.Ev("ill_conditioned_skipped", 1)
			break
		}
		if !tk.IsFloat[T]() && scale*float64(st.Alpha) > Limit[T]() {
			break
		}
		if !tk.IsFloat[T]() && scale+2*Loss(vals[len(vals)-1].Out, To64(st.T))*float64(st.Alpha) > Limit[T]() {
			break
		}
		loss := net.TrainOne(c, st.X, st.T, st.Alpha, 0)
		lossTol := tk.Arr[T]{Data: []T{loss}}
		CheckClose(c, "loss", "the loss", lossTol, A{Data: []float64{Loss(vals[len(vals)-1].Out, To64(st.T))}}, scale*float64(len(st.T.Data)))
		want := make([]Params, len(par))
		moved := 0
		after := net.Params(c)
		for i := range par {
			want[i] = par[i].Clone()
			if !s.Nodes[i].HasParams() {
				continue
			}
			if behind[i] {
				want[i] = after[i]
				continue
			}
			for j := range want[i].W.Data {
				want[i].W.Data[j] += float64(st.Alpha) * g[i].W.Data[j]
			}
			for j := range want[i].B.Data {
				d := float64(st.Alpha) * g[i].B.Data[j]
				want[i].B.Data[j] += d
				if math.Abs(d) > 1e-3 {
					moved++
				}
			}
			c.Ev("layer_updates_compared", 1)
		}
		c.Ev("visible_bias_updates", moved)
		CheckParams(c, "update", net, want, TolScale[T](scale*math.Max(1, math.Abs(float64(st.Alpha)))))
		decided = true
	}
	if decided {
		c.Distinct("%s %s", tk.TypeName[T](), s.String())
	}
	return decided
}

// Homogeneous are the activations whose slope does not depend on the size of
// their argument.
var Homogeneous = pickActs("linear", "relu")

func pickActs(names ...string) []Act {
	var out []Act
	for _, a := range AllActs {
		for _, n := range names {
			if a.Name == n {
				out = append(out, a)
			}
		}
	}
	return out
}

// DecideScales makes one step whose error, learning rate and, with inputs,
// samples are many orders of magnitude away from one, and compares the loss and
// the move of every parameter relative to their own size. Bad targets must show
// in the loss.
func DecideScales(c *mon.C, s Spec, inputs bool) {
	r := c.R
	c.Desc("scales %v", s)
	behind := s.Behind()
	net := Make[float64](s, r.Bool())
	net.Compile(c)
	net.Calm(c)
	par := net.Params(c)
	k := math.Pow(10, float64(r.Range(-7, 12)))
	var x, t A
	var vals []Val
	ok := false
	last := len(s.Nodes) - 1
	for try := 0; try < 12 && !ok; try++ {
		x = Sample[float64](r, s.InShape())
		if !inputs {
			vals = s.Forward(par, x)
			ok = Usable[float64](s, vals)
			t = vals[last].Out.Clone()
			for i := range t.Data {
				t.Data[i] += r.Norm() * k
			}
			continue
		}
		t = Sample[float64](r, s.OutShape())
		for i := range x.Data {
			x.Data[i] *= k
		}
		for i := range t.Data {
			t.Data[i] *= k
		}
		vals = s.Forward(par, x)
		ok = Finite(vals, 1e15) && Margin(vals) > 1e-6*math.Max(1, k)
	}
	if !ok {
		c.Ev("ill_conditioned_skipped", 1)
		return
	}
	g, mags := s.Backward(par, vals, x, t, true)
	size, psize, osize := 0.0, 1.0, big(vals[last].Out)
	for i := range g {
		size = math.Max(size, math.Max(mags[i], math.Max(big(g[i].W), big(g[i].B))))
		psize = math.Max(psize, math.Max(big(par[i].W), big(par[i].B)))
	}
	if !(size > 0) || !(size < 1e40) {
		return
	}
	alpha := math.Pow(10, float64(r.Range(-6, 4))) / size * mon.Pick(r, 1, 1, 1, 0.3, -1)
	switch r.Intn(12) {
	case 0:
		alpha = 0
	case 1:
		alpha = mon.Pick(r, 1e-12, 1e-5, 10, 1e6)
	}
	c.Note("error scale %g, rate %g", k, alpha)
	loss := net.TrainOne(c, x, t, alpha, 0)
	want := Loss(vals[last].Out, t)
	tol := 1e-8*want + 1e-13*float64(len(t.Data))*(osize+big(t))
	for _, v := range vals {
		tol += 1e-13 * v.Mag
	}
	if !(math.Abs(loss-want) <= tol) {
		c.Fail("loss", "the loss is %v, want %v", loss, want)
	}
	c.Eval(1)
	after := net.Params(c)
	for i, n := range s.Nodes {
		if !n.HasParams() || behind[i] {
			continue
		}
		cmp := func(what string, was, is, d A) {
			for j := range d.Data {
				got, want := is.Data[j]-was.Data[j], alpha*d.Data[j]
				// the error is a difference of the output and the target
				lim := 1e-6*math.Abs(alpha)*size*(1+1e-7*osize/k) + 1e-15*(math.Abs(was.Data[j])+math.Abs(is.Data[j]))
				if !(math.Abs(got-want) <= lim) {
					c.Fail("move-"+n.Kind, "%s %v of layer %s moved by %v, want %v (limit %g)", what, tk.Index(d.Shape, j), n, got, want, lim)
				}
			}
			c.Eval(1)
		}
		cmp("weight", par[i].W, after[i].W, g[i].W)
		cmp("bias", par[i].B, after[i].B, g[i].B)
		c.Ev("scaled_updates_compared", 1)
	}
	c.Distinct("scales %v %g %g", s, k, alpha)
	// bad targets
	if !Finite(vals, 1e6) || !r.P(0.3) {
		return
	}
	net.SetRaw(c, rawOf(par))
	i := r.Intn(len(t.Data))
	bad := mon.Pick(r, math.NaN(), math.Inf(1), math.Inf(-1))
	t.Data[i] = bad
	loss = net.TrainOne(c, x, t, 0.1, 0)
	if bad != bad && loss == loss || bad == bad && !math.IsInf(loss, 1) {
		c.Fail("loss-bad", "the loss for a target of %v is %v", bad, loss)
	}
	c.Ev("bad_targets", 1)
}

func rawOf(par []Params) [][]float64 {
	var out [][]float64
	for _, p := range par {
		if p.W.Shape != nil {
			out = append(out, p.W.Data, p.B.Data)
		}
	}
	return out
}
