// C25: with the global random source seeded, everything is reproducible; random
// tensors hold what they promise.
package main

import (
	"math"
	"math/rand"
	"reflect"

	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/nn"
	"verif/harness/tk"
)

// replay: the same program with the same seed gives the same numbers.
func replay[T types.Number](c *mon.C) {
	r := c.R
	o := nn.Opt{Image: r.Bool(), Pure: nn.AllPure, NeedParam: 1, LastPure: true, MaxSize: 100, Branch: r.P(0.3), Share: r.Bool()}
	if !tk.IsFloat[T]() {
		o.Acts, o.MaxNodes, o.Pure = nn.IntActs, 3, []string{"flatten", "maxpool", "up", "sub"}
	}
	s := nn.Gen(r, o)
	c.Desc("%s", nn.Describe[T](s))
	seed := int64(r.U64() >> 2)
	n := r.Range(1, 6)
	var xs, ts []tk.Arr[T]
	for i := 0; i < n; i++ {
		xs, ts = append(xs, nn.Sample[T](r, s.InShape())), append(ts, nn.Sample[T](r, s.OutShape()))
	}
	epochs, batch := uint(r.Range(1, 4)), uint(r.Range(0, 4))
	al, mo := T(1), T(0)
	if tk.IsFloat[T]() {
		al, mo = T(mon.Pick(r, 0.1, 0.01)), T(mon.Pick(r, 0.0, 0.9))
	}
	push := r.Bool()
	program := func() (init, after [][]T, out tk.Arr[T]) {
		rand.Seed(seed)
		net := nn.Make[T](s, push)
		net.Compile(c)
		init = net.Raw()
		var ins, outs []tensor.Tensor[T]
		for i := range xs {
			ins, outs = append(ins, tk.Ten(xs[i])), append(outs, tk.Ten(ts[i]))
		}
		c.NoPanic("train", func() {
			if err := net.M.Train(ins, outs, epochs, batch, al, mo); err != nil {
				c.Fail("train", "%v", err)
			}
		})
		c.Ev("train_calls", 1)
		return init, net.Raw(), net.Predict(c, xs[0])
	}
	i1, a1, o1 := program()
	i2, a2, o2 := program()
	nn.MustRaw(c, "replay-init", "initial parameters of the second run", i2, i1)
	nn.MustRaw(c, "replay-train", "parameters after training in the second run", a2, a1)
	nn.MustData(c, "replay-predict", "the prediction of the second run", o2, o1)
	c.Ev("programs_replayed", 1)
	// another seed starts elsewhere
	if total := count(i1); tk.IsFloat[T]() && total >= 2 {
		seed++
		i3, _, _ := program()
		if reflect.DeepEqual(i1, i3) {
			c.Fail("seed", "different seeds gave the same %d initial parameters", total)
		}
		c.Ev("seeds_compared", 1)
	}
	c.Distinct("%s %s %d %d %d", tk.TypeName[T](), s.String(), n, epochs, batch)
}

func count[T any](r [][]T) int {
	n := 0
	for _, x := range r {
		n += len(x)
	}
	return n
}

// uniform: values of NewRand and ScalarRand lie in the requested range and fill it.
func uniform[T types.Number](c *mon.C) {
	r := c.R
	sh := tk.Shape(r, r.Range(0, 4), 4000)
	big := tk.Size(sh) >= 2000
	lo, hi := float64(r.Range(-50, 40)), 0.0
	if tk.IsFloat[T]() {
		lo = mon.Pick(r, 0.0, -1, -3, 2, 10, -100)
		hi = lo + mon.Pick(r, 1.0, 2, 0.5, 20, 0)
	} else {
		hi = lo + float64(r.Range(0, 60))
	}
	seed := int64(r.U64() >> 2)
	rand.Seed(seed)
	var t *tensor.TensorMat[T]
	c.NoPanic("uniform", func() { t = tensor.NewRand[T](lo, hi, tk.CloneU(sh)...) })
	a := tk.Read[T](c, "uniform", t)
	c.Desc("%s random %v between %v and %v", tk.TypeName[T](), sh, lo, hi)
	if !tk.EqShape(a.Shape, sh) {
		c.Fail("uniform", "shape %v, want %v", a.Shape, sh)
	}
	sum := 0.0
	slack := tk.Eps[T]() * math.Max(math.Abs(lo), math.Abs(hi)) * 2
	for i, v := range a.Data {
		x := float64(v)
		if !(x >= lo-slack && x <= hi+slack) {
			c.Fail("uniform", "element %d is %v, not between %v and %v", i, v, lo, hi)
		}
		sum += x
	}
	if n := float64(len(a.Data)); big && tk.IsFloat[T]() && hi > lo {
		// mean within 8 standard errors, and values in every tenth
		m, se := sum/n, (hi-lo)/math.Sqrt(12*n)
		if math.Abs(m-(lo+hi)/2) > 8*se {
			c.Fail("uniform", "mean %v of %d values between %v and %v", m, len(a.Data), lo, hi)
		}
		var bins [10]int
		for _, v := range a.Data {
			b := int((float64(v) - lo) / (hi - lo) * 10)
			if b > 9 {
				b = 9
			}
			if b < 0 {
				b = 0
			}
			bins[b]++
		}
		for b, k := range bins {
			if float64(k) < n/10-8*math.Sqrt(n/10) || float64(k) > n/10+8*math.Sqrt(n/10) {
				c.Fail("uniform", "%d of %d values in tenth %d", k, len(a.Data), b)
			}
		}
		c.Ev("distributions_checked", 1)
	}
	rand.Seed(seed)
	b := tk.Read[T](c, "uniform", tensor.NewRand[T](lo, hi, tk.CloneU(sh)...))
	nn.MustData(c, "uniform-replay", "the same random tensor again", b, a)
	for k := 0; k < 20; k++ {
		v := number.ScalarRand[T](T(lo), T(hi)).Value
		if x := float64(v); !(x >= float64(T(lo))-slack && x <= float64(T(hi))+slack) {
			c.Fail("scalar", "random scalar %v, not between %v and %v", v, lo, hi)
		}
	}
	if !tk.IsFloat[T]() && hi-lo >= 10 {
		seen := map[T]bool{}
		for k := 0; k < 200; k++ {
			seen[number.ScalarRand[T](T(lo), T(hi)).Value] = true
		}
		if len(seen) < 3 {
			c.Fail("scalar", "only %d different random scalars between %v and %v", len(seen), lo, hi)
		}
	}
	c.Ev("random_tensors", 1)
	c.Distinct("uniform %s %v %v %v", tk.TypeName[T](), sh, lo, hi)
}

// normal: NewNormRand and the initial parameters are standard normal.
func normal[T types.Number](c *mon.C) {
	r := c.R
	n := r.Range(2000, 6000)
	var data []T
	what := ""
	switch c.Index % 4 {
	case 0:
		what = "NewNormRand"
		data = tensor.NewNormRand[T](uint(n)).GetData()
	case 1:
		what = "ScalarNorm"
		for i := 0; i < n; i++ {
			data = append(data, number.ScalarNorm[T]().Value)
		}
	case 2:
		what = "the weights of a dense layer"
		ins := uint(r.Range(40, 70))
		s := nn.Spec{Nodes: []nn.Node{{Kind: "input", InShape: []uint{ins}, Shape: []uint{ins}}, {Kind: "dense", In: []int{0}, N: 50, Act: nn.Act{Name: "linear"}, Shape: []uint{50}}}}
		net := nn.Make[T](s, true)
		net.Compile(c)
		w, b := net.Tensors(1)
		data = append(w.GetData(), b.GetData()...)
	default:
		what = "the weights of a convolution"
		kind := mon.Pick(r, "conv", "deconv")
		sh := []uint{8, 6, 6}
		n := nn.Node{Kind: kind, In: []int{0}, N: 30, KW: 3, KH: 3, SX: 1, SY: 1, Act: nn.Act{Name: "linear"}}
		n.Shape = []uint{30, 4, 4}
		if kind == "deconv" {
			n.Shape = []uint{30, 8, 8}
		}
		s := nn.Spec{Nodes: []nn.Node{{Kind: "input", InShape: sh, Shape: sh}, n}}
		net := nn.Make[T](s, true)
		net.Compile(c)
		w, _ := net.Tensors(1)
		data = w.GetData()
	}
	c.Desc("%s distribution of %s", tk.TypeName[T](), what)
	sum, sq, pos := 0.0, 0.0, 0
	dif := map[T]bool{}
	for _, v := range data {
		x := float64(v)
		sum += x
		sq += x * x
		if x > 0 {
			pos++
		}
		dif[v] = true
	}
	N := float64(len(data))
	m, va := sum/N, sq/N
	if !(math.Abs(m) < 8/math.Sqrt(N)) || !(math.Abs(va-1) < 8*math.Sqrt(2/N)) || math.Abs(float64(pos)-N/2) > 8*math.Sqrt(N)/2 {
		c.Fail("normal", "%s: mean %v, mean square %v, %d of %d positive", what, m, va, pos, len(data))
	}
	if len(dif) < len(data)*9/10 {
		c.Fail("normal", "%s: only %d different values of %d", what, len(dif), len(data))
	}
	c.Ev("distributions_checked", 1)
	c.Eval(1)
	c.Distinct("normal %s %s %d", tk.TypeName[T](), what, len(data))
}

func main() {
	mon.Main(mon.Check{
		ID:          "C25",
		Scale:       8,
		Rule:        "one case = one complete program (build, initialise, Train, predict) run twice from the same seed and once from another, a random tensor checked for range, distribution and reproducibility, or a large set of initial parameters checked for its distribution; distinct by type, architecture or shape and range",
		Assumptions: []string{"programs of one goroutine that seed the global source; statistical bounds are 8 standard errors wide"},
		Need:        map[string]int64{"programs_replayed": 1500, "random_tensors": 1500, "distributions_checked": 50},
		Groups: []mon.Group{
			{Name: "replay", Quick: 2000, Thorough: 40000, Run: func(c *mon.C) {
				mon.Pick(c.R, replay[float32], replay[float64], replay[float64], replay[int])(c)
			}},
			{Name: "uniform", Quick: 2400, Thorough: 48000, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { uniform[float32](c) }, func() { uniform[float64](c) }, func() { uniform[int](c) },
					func() { uniform[int16](c) }, func() { uniform[int32](c) }, func() { uniform[int64](c) })
			}},
			{Name: "normal", Fixed: true, Quick: 80, Thorough: 800, Run: func(c *mon.C) {
				if (c.Index/4)%2 == 0 {
					normal[float32](c)
				} else {
					normal[float64](c)
				}
			}},
		},
	})
}
