// C20: activations compute their formula and their derivative is its slope.
package main

import (
	"math"

	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/nn"
	"verif/harness/tk"
)

// byValue is the same activation, not through a pointer.
func byValue[T types.Number](a nn.Act) activation.Activation[T] {
	switch a.Name {
	case "linear":
		return activation.Linear[T]{}
	case "relu":
		return activation.Relu[T]{Alpha: T(a.P1)}
	case "elu":
		return activation.ELU[T]{Alpha: T(a.P1)}
	case "selu":
		return activation.SELU[T]{ELU: activation.ELU[T]{Alpha: T(a.P1)}, Lambda: T(a.P2)}
	case "sigmoid":
		return activation.Sigmoid[T]{}
	case "tanh":
		return activation.Tanh[T]{}
	case "sin":
		return activation.Sin[T]{}
	case "swish":
		return activation.Swish[T]{}
	case "gelu":
		return activation.GELU[T]{}
	}
	panic(a.Name)
}

var names = []string{"linear", "relu", "elu", "selu", "sigmoid", "tanh", "sin", "swish", "gelu"}

func drawAct(r *mon.Rng, name string) nn.Act {
	a := nn.Act{Name: name}
	switch name {
	case "relu":
		a.P1 = mon.Pick(r, 0, 0, 0.01, 0.1, 0.5, 1, 2, -0.5)
	case "elu":
		a.P1 = mon.Pick(r, 0, 0.01, 0.5, 1, 1.5, 3)
	case "selu":
		a.P1, a.P2 = mon.Pick(r, 1.67326, 0.5, 1, 2), mon.Pick(r, 1.0507, 0.5, 1, 2)
	}
	return a
}

func drawX(r *mon.Rng) float64 {
	switch r.Intn(8) {
	case 0:
		return mon.Pick(r, 0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 2, -2, 10, -10)
	case 1:
		return r.Norm() * 1e-6
	case 2:
		return r.Norm() * 30
	case 3:
		return r.Norm() * 300
	case 4:
		x := math.Exp(r.Float()*20 - 14)
		if r.Bool() {
			x = -x
		}
		return x
	}
	return r.Norm() * 3
}

func run[T types.Number](c *mon.C) {
	r := c.R
	act := drawAct(r, names[c.Index%len(names)])
	c.Desc("%s %v", tk.TypeName[T](), act)
	f, v := nn.MakeAct[T](act), byValue[T](act)
	// the parameters as the type holds them
	act.P1, act.P2 = float64(T(act.P1)), float64(T(act.P2))
	ftol, dtol := 1e-9, 1e-9
	if tk.Eps[T]() > 1e-10 {
		ftol, dtol = 2e-6, 1e-5
	}
	if act.Name == "gelu" {
		// computed as a difference quotient
		dtol = math.Max(dtol, 1e-7)
	}
	for k := 0; k < 60; k++ {
		x := T(drawX(r))
		if act.Name == "gelu" && math.Abs(float64(x)) > 1000 {
			continue
		}
		var y, d T
		c.NoPanic("activate", func() { y, d = f.Activate(x), f.Derive(x) })
		c.Ev("points", 1)
		wy, wd := act.F(float64(x)), act.D(float64(x))
		s := math.Max(1, math.Abs(float64(x)))
		if !(math.Abs(float64(y)-wy) <= ftol*math.Max(1, math.Abs(wy))) {
			c.Fail("value-"+act.Name, "%v(%v) is %v, want %v", act, x, y, wy)
		}
		if !(act.Kinked() && x == 0) {
			if !(math.Abs(float64(d)-wd) <= dtol*s*math.Max(1, math.Abs(wd))) {
				c.Fail("derivative-"+act.Name, "the derivative of %v at %v is %v, want %v", act, x, d, wd)
			}
		} else if float64(d) != act.D(0) && float64(d) != act.D(-1e-300) {
			c.Fail("derivative-"+act.Name, "the derivative of %v at 0 is %v, which is neither one-sided slope", act, d)
		}
		if y2, d2 := v.Activate(x), v.Derive(x); !nn.EqNum(y, y2) || !nn.EqNum(d, d2) {
			c.Fail("value-receiver", "%v as a value gives %v and %v at %v, as a pointer %v and %v", act, y2, d2, x, y, d)
		}
		if y2, d2 := f.Activate(x), f.Derive(x); !nn.EqNum(y, y2) || !nn.EqNum(d, d2) {
			c.Fail("pure", "%v at %v gives %v and %v the second time, %v and %v the first", act, x, y2, d2, y, d)
		}
		c.Eval(2)
		c.Distinct("%s %v %v", tk.TypeName[T](), act, math.Float64bits(float64(x))>>40)
	}
}

// slope: the derivative against the slope of the activation's own values.
func slope(c *mon.C) {
	r := c.R
	act := drawAct(r, names[c.Index%len(names)])
	f := byValue[float64](act)
	c.Desc("slope of %v", act)
	for k := 0; k < 60; k++ {
		x := drawX(r)
		if math.Abs(x) > 200 {
			continue
		}
		const h = 1e-4
		if act.Kinked() && math.Abs(x) < 2*h {
			continue
		}
		q := (f.Activate(x+h) - f.Activate(x-h)) / (2 * h)
		if d := f.Derive(x); !(math.Abs(d-q) <= 1e-6*math.Max(1, math.Max(math.Abs(q), math.Abs(x)))) {
			c.Fail("slope-"+act.Name, "the derivative of %v at %v is %v, its slope there %v", act, x, d, q)
		}
		c.Ev("slopes", 1)
		c.Eval(1)
	}
}

// extreme: far out the answers stay numbers in the right range.
func extreme[T types.Number](c *mon.C) {
	r := c.R
	act := drawAct(r, names[c.Index%len(names)])
	f := byValue[T](act)
	c.Desc("%s far out: %v", tk.TypeName[T](), act)
	for k := 0; k < 20; k++ {
		x := math.Exp(r.Float()*30 + 4)
		if r.Bool() {
			x = -x
		}
		y := float64(f.Activate(T(x)))
		want := act.F(float64(T(x)))
		if !(math.Abs(y-want) <= 3e-6*math.Max(1, math.Abs(want))) {
			c.Fail("extreme-"+act.Name, "%v(%v) is %v, want %v", act, x, y, want)
		}
		if act.Name != "gelu" {
			d, want := float64(f.Derive(T(x))), act.D(float64(T(x)))
			lim := 1e-6
			if act.Name == "swish" {
				// x*s + s*(1-x*s) cancels
				lim = 1e-6 * math.Max(1, math.Abs(x))
			}
			if !(math.Abs(d-want) <= lim*math.Max(1, math.Abs(want))) {
				c.Fail("extreme-"+act.Name, "the derivative of %v at %v is %v, want %v", act, x, d, want)
			}
		}
		c.Ev("extreme_points", 1)
		c.Eval(1)
	}
}

// ints: the activations that make sense for integers are exact.
func ints[T types.Number](c *mon.C) {
	r := c.R
	act := nn.Act{Name: mon.Pick(r, "linear", "relu"), P1: float64(r.Range(0, 3))}
	f := byValue[T](act)
	c.Desc("%s %v", tk.TypeName[T](), act)
	for k := 0; k < 40; k++ {
		x := T(r.Range(-9000, 9000))
		if r.P(0.2) {
			x = T(r.Range(-2, 2))
		}
		if y := f.Activate(x); float64(y) != act.F(float64(x)) {
			c.Fail("ints", "%v(%v) is %v", act, x, y)
		}
		if d := f.Derive(x); x != 0 && float64(d) != act.D(float64(x)) {
			c.Fail("ints", "the derivative of %v at %v is %v", act, x, d)
		}
		c.Ev("points", 1)
		c.Eval(2)
	}
}

// whole: the others, for integers, are near the formula.
func whole[T types.Number](c *mon.C) {
	r := c.R
	act := drawAct(r, names[c.Index%len(names)])
	act.P1, act.P2 = float64(r.Range(0, 3)), float64(r.Range(1, 3))
	f, v := nn.MakeAct[T](act), byValue[T](act)
	c.Desc("%s %v", tk.TypeName[T](), act)
	for k := 0; k < 40; k++ {
		x := T(r.Range(-9000, 9000))
		if r.P(0.7) {
			x = T(r.Range(-12, 12))
		}
		var y, d, y2, d2 T
		c.NoPanic("whole", func() { y, d, y2, d2 = f.Activate(x), f.Derive(x), v.Activate(x), v.Derive(x) })
		if y != y2 || d != d2 {
			c.Fail("whole-"+act.Name, "%v at %v as a value gives %v and %v, as a pointer %v and %v", act, x, y2, d2, y, d)
		}
		if x > 12 || x < -12 {
			continue // exponentials leave the range of the type
		}
		ytol, dtol := 1.0, 2.0
		switch act.Name {
		case "elu":
			ytol, dtol = math.Max(1, act.P1), math.Max(2, act.P1)
		case "selu":
			ytol, dtol = math.Max(1, act.P1*act.P2), math.Max(2, act.P1*act.P2)
		case "swish":
			ytol = math.Max(1, math.Abs(float64(x)))
			dtol = ytol + 2
		}
		if wy := act.F(float64(x)); math.Abs(float64(y)-wy) > ytol {
			c.Fail("whole-"+act.Name, "%v(%v) is %v, want about %v", act, x, y, wy)
		}
		if wd := act.D(float64(x)); x != 0 && math.Abs(float64(d)-wd) > dtol {
			c.Fail("whole-"+act.Name, "the derivative of %v at %v is %v, want about %v", act, x, d, wd)
		}
		c.Ev("points", 1)
		c.Eval(2)
	}
}

func main() {
	mon.Main(mon.Check{
		ID:          "C20",
		Scale:       12,
		Rule:        "one case = one activation with parameters, evaluated at 20 to 60 points from tiny to huge against an independent formula and against its own slope; distinct by type, activation, parameters and leading bits of the point",
		Assumptions: []string{"GELU's derivative is compared for arguments up to 1000 (it is a difference quotient in the repository)", "at the kink of ReLU, ELU and SELU either one-sided slope is accepted"},
		Need:        map[string]int64{"points": 50000, "slopes": 20000, "extreme_points": 5000},
		Groups: []mon.Group{
			{Name: "formula", Quick: 6300, Thorough: 126000, Run: func(c *mon.C) {
				if (c.Index/len(names))%2 == 0 {
					run[float32](c)
				} else {
					run[float64](c)
				}
			}},
			{Name: "slope", Quick: 1800, Thorough: 36000, Run: slope},
			{Name: "extreme", Quick: 1800, Thorough: 36000, Run: func(c *mon.C) {
				if (c.Index/len(names))%2 == 0 {
					extreme[float32](c)
				} else {
					extreme[float64](c)
				}
			}},
			{Name: "whole", Quick: 900, Thorough: 9000, Run: func(c *mon.C) {
				mon.Pick(c.R, whole[int], whole[int64], whole[int32], whole[int16])(c)
			}},
			{Name: "ints", Quick: 400, Thorough: 4000, Run: func(c *mon.C) {
				mon.Pick(c.R, ints[int], ints[int64], ints[int32], ints[int16])(c)
			}},
		},
	})
}
