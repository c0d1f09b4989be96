// C02: reductions and SoftMax.
package main

import (
	"math"

	"github.com/julioguillermo/godeep/tools"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/tk"
)

func data[T types.Number](c *mon.C, name string, shape []uint) (tk.Arr[T], bool) {
	r := c.R
	var v tk.Vals
	exact := true
	switch r.Intn(4) {
	case 0:
		v = tk.Ties
	case 1, 2:
		v = tk.Small
	default:
		// sums of wide integers wrap around identically in any order; averages
		// only make sense when the sum does not
		if tk.IsFloat[T]() {
			v, exact = tk.Wide, false
		} else if name == "avg" || name == "davg" || name == "softmax" {
			v = tk.Small
		} else {
			v = tk.Wide
		}
	}
	a := tk.Gen[T](r, shape, v)
	if r.P(0.15) { // one sign only
		for i := range a.Data {
			if a.Data[i] > 0 {
				a.Data[i] = -a.Data[i]
			}
		}
	}
	switch name {
	case "avg", "davg", "softmax":
		if tk.TypeName[T]() == "int16" {
			// keep the sum of all the elements below 2^15
			lim := 32000 / (len(a.Data) + 1) / 2
			for i := range a.Data {
				if lim == 0 {
					a.Data[i] = 0
				} else {
					a.Data[i] = T(int64(a.Data[i]) % int64(lim+1))
				}
			}
		}
	case "max", "min", "dmax", "dmin":
		if tk.IsFloat[T]() && r.P(0.2) && len(a.Data) > 0 {
			a.Data[r.Intn(len(a.Data))] = T(math.Inf(mon.Pick(r, 1, -1)))
		}
	}
	if name == "softmax" {
		// at least two different values
		if tk.RMax(a.Data) == tk.RMin(a.Data) {
			if len(a.Data) == 1 {
				return a, false
			}
			a.Data[0]++
		}
	}
	return a, exact
}

func one[T types.Number](c *mon.C, name string, shape []uint) {
	if name[0] == 'd' && len(shape) == 0 {
		shape = []uint{3}
	}
	if name == "softmax" && tk.Size(shape) == 1 {
		shape = []uint{2, 3}
	}
	if tk.TypeName[T]() == "int16" && tk.Size(shape) > 32000 {
		shape = []uint{177, 180}
	}
	a, exact := data[T](c, name, shape)
	tk.RedInst[T](c.R, name, a, exact).Decide(c)
}

// distance: the root of the sum of the squared differences.
func distance[T types.Number](c *mon.C) {
	r := c.R
	n := mon.Pick(r, 0, 1, 2, 3, r.Range(1, 100), r.Range(1, 3000))
	a, b := make([]T, n), make([]T, n)
	sum := 0.0
	for i := range a {
		// small enough for the squares of the narrow types
		a[i], b[i] = T(r.Range(-5, 5)), T(r.Range(-5, 5))
		if tk.TypeName[T]() == "int16" && n > 300 {
			a[i], b[i] = T(r.Range(-1, 1)), T(r.Range(-1, 1))
		}
		if tk.IsFloat[T]() && r.P(0.3) {
			a[i] += T(r.Norm())
		}
		d := float64(a[i]) - float64(b[i])
		sum += d * d
	}
	c.Desc("distance of two slices of %d %s", n, tk.TypeName[T]())
	ka, kb := append([]T{}, a...), append([]T{}, b...)
	var got T
	var err error
	c.NoPanic("distance", func() { got, err = tools.Distant[T](a, b) })
	if err != nil {
		c.Fail("distance", "%v", err)
	}
	want := math.Sqrt(sum)
	if tk.IsFloat[T]() {
		if d := math.Abs(float64(got) - want); !(d <= 1e-3*(1+want)) || tk.TypeName[T]() == "float64" && !(d <= 1e-9*(1+want)) {
			c.Fail("distance", "%v, want %v", got, want)
		}
	} else if got != T(want) {
		c.Fail("distance", "%v, want %v", got, T(want))
	}
	for i := range a {
		if a[i] != ka[i] || b[i] != kb[i] {
			c.Fail("distance", "the operands were changed")
		}
	}
	m := n + r.Range(1, 3)
	c.NoPanic("distance", func() {
		if _, err := tools.Distant[T](a, make([]T, m)); err == nil {
			c.Fail("distance", "slices of %d and %d elements have a distance", n, m)
		}
		if _, err := tools.Distant[T](make([]T, m), b); err == nil {
			c.Fail("distance", "slices of %d and %d elements have a distance", m, n)
		}
	})
	c.Ev("distances", 1)
	c.Eval(1)
	c.Distinct("distance %s %d", tk.TypeName[T](), n)
}

func any6(c *mon.C, shape []uint) {
	name := tk.Reductions[(c.Index/6)%len(tk.Reductions)]
	tk.ForType(c.Index,
		func() { one[float32](c, name, shape) }, func() { one[float64](c, name, shape) },
		func() { one[int](c, name, shape) }, func() { one[int16](c, name, shape) },
		func() { one[int32](c, name, shape) }, func() { one[int64](c, name, shape) })
}

func main() {
	mon.Main(mon.Check{
		ID:    "C02",
		Scale: 6,
		Rule:  "one case = one reduction of a random tensor, decided at once and through a graph; distinct by element type, reduction, dimension and shape",
		Need:  map[string]int64{"oracle_decisions": 1000, "eager_ops": 500, "graph_ops": 500},
		Groups: []mon.Group{
			{Name: "shapes", Quick: 6 * 9 * 400, Thorough: 6 * 9 * 8000, Run: func(c *mon.C) { any6(c, tk.AnyShape(c.R)) }},
			{Name: "distance", Quick: 1200, Thorough: 20000, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { distance[float32](c) }, func() { distance[float64](c) }, func() { distance[int](c) },
					func() { distance[int16](c) }, func() { distance[int32](c) }, func() { distance[int64](c) })
			}},
			{Name: "large", Quick: 6 * 9 * 4, Thorough: 6 * 9 * 40, Run: func(c *mon.C) {
				any6(c, mon.Pick(c.R, []uint{uint(c.R.Range(10000, 70000))}, []uint{uint(c.R.Range(100, 260)), uint(c.R.Range(100, 260))}, []uint{uint(c.R.Range(20, 40)), uint(c.R.Range(20, 40)), uint(c.R.Range(20, 40))}))
			}},
		},
	})
}
