// C14: a prediction is a pure function of the parameters and the sample.
package main

import (
	"fmt"

	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/nn"
	"verif/harness/tk"
)

type answer[T types.Number] struct {
	x, y tk.Arr[T]
	xt   tensor.Tensor[T]
	yt   tensor.Tensor[T]
	// scribbled: the test itself changed the answer
	scribbled bool
}

func run[T types.Number](c *mon.C) {
	r := c.R
	o := nn.Opt{Image: r.Bool(), Pure: nn.AllPure, LastPure: true, MaxSize: 120, Branch: r.P(0.3), Share: r.P(0.5), Nest: r.P(0.3), Big: r.P(0.04), Deep: tk.IsFloat[T]() && r.P(0.02)}
	if !tk.IsFloat[T]() {
		o.Acts, o.MaxNodes, o.Pure = nn.IntActs, 3, []string{"flatten", "maxpool", "up", "sub"}
	}
	s := nn.Gen(r, o)
	c.Desc("%s", nn.Describe[T](s))
	net := nn.Make[T](s, r.Bool())
	if r.Bool() {
		net.Compile(c)
	} else {
		net.Predict(c, nn.Sample[T](r, s.InShape()))
	}
	net.Calm(c)
	raw := net.Raw()
	var as []answer[T]
	hist := ""
	shared := tk.Ten(nn.Sample[T](r, s.InShape()))
	for k := r.Range(4, 14); k > 0; k-- {
		switch r.Intn(9) {
		case 0, 1: // a new sample
			a := answer[T]{x: nn.Sample[T](r, s.InShape())}
			if r.P(0.2) {
				// the caller reuses one tensor for every sample
				if err := shared.LoadData(a.x.Data); err != nil {
					c.Fail("setup", "%v", err)
				}
				a.xt = shared
			} else {
				a.xt = tk.Ten(a.x)
			}
			predict(c, net, &a)
			if a.xt != tensor.Tensor[T](shared) {
				as = append(as, a)
			}
			hist += "new "
		case 2: // the same sample again
			if len(as) == 0 {
				continue
			}
			a := as[r.Intn(len(as))]
			b := answer[T]{x: a.x, xt: a.xt}
			predict(c, net, &b)
			nn.MustData(c, "repeat", "the prediction for the same sample after ["+hist+"]", b.y, a.y)
			c.Ev("repeated_predictions", 1)
			hist += "again "
		case 3: // the caller writes into an answer
			if len(as) == 0 {
				continue
			}
			i := r.Intn(len(as))
			if err := as[i].yt.LoadData(make([]T, as[i].yt.GetSize())); err != nil {
				c.Fail("scribble", "%v", err)
			}
			as[i].scribbled = true
			hist += "scribble "
		case 5, 8: // a sample's tensor is filled with another sample and used again
			if len(as) == 0 {
				continue
			}
			to, from := as[r.Intn(len(as))].xt, as[r.Intn(len(as))]
			for i, o := range to.GetOperands() {
				o.Value = from.x.Data[i]
			}
			b := answer[T]{x: from.x, xt: to}
			predict(c, net, &b)
			nn.MustData(c, "repeat", "the prediction for a sample put into another one's tensor after ["+hist+"]", b.y, from.y)
			for i := range as {
				if as[i].xt == to {
					as[i].xt = tk.Ten(as[i].x)
				}
			}
			c.Ev("repeated_predictions", 1)
			hist += "refill "
		case 4: // an answer is used as the next sample
			if len(as) == 0 || !tk.EqShape(s.InShape(), s.OutShape()) {
				continue
			}
			i := r.Intn(len(as))
			if as[i].scribbled {
				continue
			}
			a := answer[T]{x: as[i].y, xt: as[i].yt}
			predict(c, net, &a)
			a.xt = tk.Ten(a.x)
			as = append(as, a)
			hist += "feed "
		default:
			hist += net.Disturb(c, false, func() T { return 0 }) + " "
		}
		c.Ev("operations", 1)
		// nothing else moved
		nn.MustRaw(c, "params", "parameters after ["+hist+"]", net.Raw(), raw)
		for _, a := range as {
			if !a.scribbled {
				nn.MustData(c, "answer", "an earlier answer after ["+hist+"]", tk.Read[T](c, "answer", a.yt), a.y)
			}
		}
	}
	c.Distinct("%s %s %s", tk.TypeName[T](), s.String(), hist)
}

func predict[T types.Number](c *mon.C, net *nn.Net[T], a *answer[T]) {
	c.NoPanic("predict", func() {
		y, err := net.M.Predict(a.xt)
		if err != nil {
			c.Fail("predict", "a valid sample was rejected: %v", err)
		}
		a.yt = y
	})
	a.y = tk.Read[T](c, "predict", a.yt).Clone()
	nn.MustData(c, "sample", "the sample after the prediction", tk.Read[T](c, "sample", a.xt), a.x)
	c.Ev("predictions", 1)
}

// neutral: predictions in between do not change what training does.
func neutral[T types.Number](c *mon.C) {
	r := c.R
	s := nn.Gen(r, nn.Opt{Image: r.Bool(), Pure: nn.AllPure, NeedParam: 1, LastPure: true, MaxSize: 120, Branch: r.P(0.3), Share: r.P(0.5), Nest: r.P(0.3), Big: r.P(0.04), Deep: tk.IsFloat[T]() && r.P(0.02)})
	c.Desc("training with and without predictions in between: %s", nn.Describe[T](s))
	a, b := nn.Make[T](s, r.Bool()), nn.Make[T](s, r.Bool())
	a.Compile(c)
	b.Compile(c)
	a.Calm(c)
	b.SetRaw(c, a.Raw())
	for k := r.Range(2, 8); k > 0; k-- {
		x, t := nn.Sample[T](r, s.InShape()), nn.Sample[T](r, s.OutShape())
		al, mo := T(mon.Pick(r, 0.1, 0.02)), T(mon.Pick(r, 0, 0.9))
		la := a.TrainOne(c, x, t, al, mo)
		lb := b.TrainOne(c, x, t, al, mo)
		if !nn.EqNum(la, lb) {
			c.Fail("neutral", "predictions in between changed the loss from %v to %v", la, lb)
		}
		nn.MustRaw(c, "neutral", "parameters with predictions in between", b.Raw(), a.Raw())
		for i := r.Range(0, 3); i > 0; i-- {
			b.Disturb(c, false, func() T { return 0 })
		}
		c.Ev("steps_compared", 1)
		if !nn.Bounded(a.Raw()) {
			break
		}
	}
	c.Distinct("neutral %s %s", tk.TypeName[T](), s.String())
}

// long: more predictions of one model than any counter in it may notice.
func long[T types.Number](c *mon.C) {
	r := c.R
	s := nn.Gen(r, nn.Opt{Image: r.P(0.3), Pure: nn.AllPure, LastPure: true, MaxSize: 12, MaxNodes: 3, Branch: r.P(0.2)})
	n := mon.Pick(r, 300, 600, 1300, 5000)
	c.Desc("%d predictions of %s", n, nn.Describe[T](s))
	net := nn.Make[T](s, r.Bool())
	net.Compile(c)
	net.Calm(c)
	raw := net.Raw()
	var xs, ys []tk.Arr[T]
	for k := r.Range(2, 5); k > 0; k-- {
		// the expected answers come from models that answer once
		one := nn.Make[T](s, r.Bool())
		one.Compile(c)
		one.SetRaw(c, raw)
		xs = append(xs, nn.Sample[T](r, s.InShape()))
		ys = append(ys, one.Predict(c, xs[len(xs)-1]))
	}
	for k := 0; k < n; k++ {
		i := r.Intn(len(xs))
		nn.MustData(c, "long", fmt.Sprintf("prediction %d of one model", k), net.Predict(c, xs[i]), ys[i])
	}
	nn.MustRaw(c, "params", "parameters after many predictions", net.Raw(), raw)
	c.Ev("repeated_predictions", n)
	c.Distinct("long %s %d %s", tk.TypeName[T](), n, s.String())
}

func main() {
	mon.Main(mon.Check{
		ID:    "C14",
		Scale: 12,
		Rule:  "one case = one random network and a random history of predictions, repeated samples, rejected samples, writes into answers, saves and resets; parameters and earlier answers are compared after every operation; distinct by type, architecture and history",
		Need:  map[string]int64{"predictions": 8000, "operations": 10000, "repeated_predictions": 1500, "steps_compared": 2000},
		Groups: []mon.Group{
			{Name: "history", Quick: 3000, Thorough: 60000, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { run[float32](c) }, func() { run[float64](c) }, func() { run[int](c) },
					func() { run[int16](c) }, func() { run[int32](c) }, func() { run[int64](c) })
			}},
			{Name: "long", Quick: 10, Thorough: 200, Run: func(c *mon.C) {
				nn.ForTypeF(c.Index, func() { long[float32](c) }, func() { long[float64](c) })
			}},
			{Name: "neutral", Quick: 1200, Thorough: 24000, Run: func(c *mon.C) {
				nn.ForTypeF(c.Index, func() { neutral[float32](c) }, func() { neutral[float64](c) })
			}},
		},
	})
}
