// C23: the stand-alone scalars: half precision rounds to the nearest (ties to
// even) and computes in float32, the others compute in their own precision.
package main

import (
	"fmt"
	"math"

	"github.com/julioguillermo/godeep/scalar"

	"verif/harness/mon"
)

// half is the value of a half-precision number, from the definition.
func half(b uint16) float64 {
	s := 1.0
	if b&0x8000 != 0 {
		s = -1
	}
	e, m := int(b>>10)&31, float64(b&1023)
	switch e {
	case 31:
		if m != 0 {
			return math.NaN()
		}
		return math.Inf(int(s))
	case 0:
		return s * math.Ldexp(m, -24)
	}
	return s * math.Ldexp(1024+m, e-25)
}

// toHalf rounds to nearest, ties to even, from the definition.
func toHalf(v float64) uint16 {
	var s uint16
	if math.Signbit(v) {
		s = 0x8000
		v = -v
	}
	switch {
	case v != v:
		return s | 0x7e00
	case v >= 65520: // half way past the largest
		return s | 0x7c00
	case v < math.Ldexp(1, -14):
		return s | uint16(math.RoundToEven(v*(1<<24)))
	}
	fr, ex := math.Frexp(v) // v = fr * 2^ex, fr in [0.5, 1)
	m := math.RoundToEven(fr * 2048)
	// m in [1024, 2048]; carrying into the exponent is right
	return s | uint16((ex+13)<<10+int(m)-0)&0x7fff
}

func isNaN(b uint16) bool { return b&0x7c00 == 0x7c00 && b&0x3ff != 0 }

func same32(a, b float32) bool {
	return a != a && b != b || math.Float32bits(a) == math.Float32bits(b)
}
func same64(a, b float64) bool {
	return a != a && b != b || math.Float64bits(a) == math.Float64bits(b)
}

// decode: every one of the 65536 half-precision numbers.
func decode(c *mon.C) {
	base := c.Index * 1024
	c.Desc("half-precision numbers %#x to %#x", base, base+1023)
	for i := 0; i < 1024; i++ {
		b := uint16(base + i)
		p := &scalar.F16{Value: b}
		want := half(b)
		if !same64(p.G64(), want) || !same32(p.G32(), float32(want)) {
			c.Fail("decode", "%#04x is %v (%v), want %v", b, p.G32(), p.G64(), want)
		}
		// and back
		if want == want {
			var q scalar.F16
			q.S32(p.G32())
			if q.Value != b {
				c.Fail("roundtrip", "%#04x came back as %#04x", b, q.Value)
			}
			q.S64(p.G64())
			if q.Value != b || scalar.F16fromF32(float32(want)).Value != b || scalar.F16fromF64(want).Value != b {
				c.Fail("roundtrip", "%#04x came back as %#04x", b, q.Value)
			}
		} else {
			var q scalar.F16
			q.S32(p.G32())
			if !isNaN(q.Value) {
				c.Fail("nan", "the not-a-number %#04x came back as %#04x", b, q.Value)
			}
		}
		if p.IsNaN() != (want != want) || p.IsInf(0) != math.IsInf(want, 0) || p.IsInf(1) != math.IsInf(want, 1) || p.IsInf(-1) != math.IsInf(want, -1) ||
			p.IsFinite() != !(want != want || math.IsInf(want, 0)) || p.Signbit() != (b&0x8000 != 0) ||
			p.IsNormal() != (!(want != want || math.IsInf(want, 0)) && math.Abs(want) >= math.Ldexp(1, -14)) ||
			p.IsQuietNaN() != (want != want && b&0x200 != 0) {
			c.Fail("classify", "%#04x (%v) is classified wrongly", b, want)
		}
		if p.String() != fmt.Sprint(float32(want)) {
			c.Fail("string", "%#04x prints as %s, want %v", b, p.String(), float32(want))
		}
		if q := p.Copy(); q.G32() == q.G32() && !same32(q.G32(), p.G32()) {
			c.Fail("copy", "copy of %#04x is %v", b, q.G32())
		}
		c.Ev("halves_decoded", 1)
		c.Eval(1)
	}
	c.Distinct("decode %d", base)
}

func check32(c *mon.C, v float32) {
	var p scalar.F16
	p.S32(v)
	want := toHalf(float64(v))
	if p.Value != want && !(v != v && isNaN(p.Value) && p.Value&0x8000 == want&0x8000) {
		c.Fail("round", "%v (%#08x) became %#04x (%v), want %#04x (%v)", v, math.Float32bits(v), p.Value, half(p.Value), want, half(want))
	}
}

func check64(c *mon.C, v float64) {
	var p scalar.F16
	p.S64(v)
	want := toHalf(v)
	if p.Value != want && !(v != v && isNaN(p.Value)) {
		c.Fail("round64", "float64 %v (%#016x) set as %#04x (%v), want %#04x (%v)", v, math.Float64bits(v), p.Value, half(p.Value), want, half(want))
	}
	if q := scalar.F16fromF64(v); q.Value != want && !(v != v && isNaN(q.Value)) {
		c.Fail("round64", "float64 %v (%#016x) became %#04x (%v), want %#04x (%v)", v, math.Float64bits(v), q.Value, half(q.Value), want, half(want))
	}
}

// midpoints: around every boundary between two half-precision numbers.
func midpoints(c *mon.C) {
	base := c.Index * 1024
	c.Desc("boundaries of %#x to %#x", base, base+1023)
	for i := 0; i < 1024; i++ {
		b := uint16(base + i)
		v := half(b)
		if v != v || math.IsInf(v, 0) {
			continue
		}
		next := half(b + 1)
		if math.IsInf(next, 0) {
			next = math.Copysign(65536, v)
		}
		if next != next {
			continue
		}
		for _, x := range []float64{v, (v + next) / 2, (3*v + next) / 4, (v + 3*next) / 4} {
			f := float32(x)
			check32(c, f)
			check32(c, math.Nextafter32(f, float32(math.Inf(1))))
			check32(c, math.Nextafter32(f, float32(math.Inf(-1))))
			if scalar.F16fromF32(f).Value != scalar.F16fromF64(float64(f)).Value {
				c.Fail("round", "%v converts differently from float64", f)
			}
			c.Ev("boundaries", 3)
			// the same boundary in double precision: neighbours that single
			// precision can not tell from it
			for _, y := range []float64{x, math.Nextafter(x, math.Inf(1)), math.Nextafter(x, math.Inf(-1)),
				x + (next-v)*math.Ldexp(1, -c.R.Range(12, 40)), x - (next-v)*math.Ldexp(1, -c.R.Range(12, 40))} {
				check64(c, y)
			}
			check64(c, math.Float64frombits(c.R.U64()))
			c.Ev("boundaries64", 6)
		}
		c.Eval(1)
	}
	c.Distinct("midpoints %d", base)
}

// sweep: a slice of all the float32 (in the thorough tier together all of them).
func sweep(c *mon.C) {
	const parts = 1 << 16
	step := uint32(1)
	lo := uint32(c.Index) << 16
	n := uint32(1 << 16)
	if c.Quick() {
		// every exponent, random significands
		lo = uint32(c.R.U64())
		n = 1 << 14
		step = uint32(c.R.U64())<<1 | 1
	}
	c.Desc("float32 bit patterns from %#x", lo)
	for i, u := uint32(0), lo; i < n; i, u = i+1, u+step {
		check32(c, math.Float32frombits(u))
	}
	c.Ev("float32_converted", int(n))
	c.Eval(1)
	c.Distinct("sweep %d", lo)
}

func draw(r *mon.Rng) float64 {
	switch r.Intn(6) {
	case 0:
		return half(uint16(r.U64()))
	case 1:
		return mon.Pick(r, 0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), 1, -1, 65504, -65504, 6.1e-5, 5.96e-8, 3e-8)
	case 2:
		return r.Norm() * math.Exp(r.Float()*40-20)
	case 3:
		return float64(r.Range(-3000, 3000))
	}
	return r.Norm() * 10
}

func mk(r *mon.Rng, v float64) (scalar.Scalar, string) {
	switch r.Intn(6) {
	case 0:
		return scalar.F16fromF32(float32(v)), "half"
	case 1:
		return scalar.F16fromF64(v), "half"
	case 2:
		return scalar.F32fromF64(v), "float32"
	case 3:
		return scalar.NewF32(float32(v)), "float32"
	case 4:
		return scalar.F64fromF32(float32(v)), "float64"
	}
	return scalar.NewF64(v), "float64"
}

// constants: not-a-number and the infinities, and constructors of the value
// that is given.
func constants(c *mon.C) {
	nan, a, b, z := scalar.F16NaN(), scalar.F16Inf(1), scalar.F16Inf(-1), scalar.F16Inf(0)
	if v := nan.G64(); v == v || !isNaN(nan.Value) {
		c.Fail("constants", "F16NaN is %v", v)
	}
	if !math.IsInf(a.G64(), 1) || !math.IsInf(b.G64(), -1) || !math.IsInf(z.G64(), 1) {
		c.Fail("constants", "F16Inf of 1, -1 and 0 is %v, %v, %v", a.G64(), b.G64(), z.G64())
	}
	if k := c.R.Range(2, 1000); true {
		p, n := scalar.F16Inf(k), scalar.F16Inf(-k)
		if !math.IsInf(p.G64(), 1) || !math.IsInf(n.G64(), -1) {
			c.Fail("constants", "F16Inf of %d and %d is %v, %v", k, -k, p.G64(), n.G64())
		}
	}
	for k := 0; k < 20; k++ {
		v := draw(c.R)
		f := float32(v)
		c.Desc("scalars made from %v", v)
		for name, x := range map[string][2]float64{
			"NewF32":     {scalar.NewF32(f).G64(), float64(f)},
			"F32fromF64": {scalar.F32fromF64(v).G64(), float64(f)},
			"NewF64":     {scalar.NewF64(v).G64(), v},
			"F64fromF32": {scalar.F64fromF32(f).G64(), float64(f)},
			"F16fromF32": {scalar.F16fromF32(f).G64(), half(toHalf(float64(f)))},
			"F16fromF64": {scalar.F16fromF64(v).G64(), half(toHalf(v))},
		} {
			if !same64(x[0], x[1]) {
				c.Fail("constructor", "%s of %v is %v, want %v", name, v, x[0], x[1])
			}
		}
		c.Eval(6)
	}
	c.Distinct("constants %d", c.Index)
}

// arith: arithmetic and comparison of any two kinds.
func arith(c *mon.C) {
	r := c.R
	for k := 0; k < 50; k++ {
		a, ka := mk(r, draw(r))
		b, kb := mk(r, draw(r))
		c.Desc("%s %v with %s %v", ka, a.G64(), kb, b.G64())
		a64, b64 := a.G64(), b.G64()
		for op := 0; op < 4; op++ {
			f32 := func(x, y float32) float32 {
				switch op {
				case 0:
					return x + y
				case 1:
					return x - y
				case 2:
					return x * y
				}
				return x / y
			}
			f64 := func(x, y float64) float64 {
				switch op {
				case 0:
					return x + y
				case 1:
					return x - y
				case 2:
					return x * y
				}
				return x / y
			}
			var want float64
			switch ka {
			case "half":
				w := toHalf(float64(f32(a.G32(), b.G32())))
				want = half(w)
			case "float32":
				want = float64(f32(a.G32(), b.G32()))
			default:
				want = f64(a64, b64)
			}
			var res scalar.Scalar
			self := a.Copy()
			c.NoPanic("arith", func() {
				switch op {
				case 0:
					res = a.Add(b)
					self.SelfAdd(b)
				case 1:
					res = a.Sub(b)
					self.SelfSub(b)
				case 2:
					res = a.Mul(b)
					self.SelfMul(b)
				default:
					res = a.Div(b)
					self.SelfDiv(b)
				}
			})
			if fmt.Sprintf("%T", res) != fmt.Sprintf("%T", a) {
				c.Fail("kind", "%s with %s gives a %T", ka, kb, res)
			}
			if !same64(res.G64(), want) {
				c.Fail("arith", "operation %d of %s %v and %s %v is %v, want %v", op, ka, a64, kb, b64, res.G64(), want)
			}
			if !same64(self.G64(), want) {
				c.Fail("self", "in-place operation %d of %s %v and %s %v is %v, want %v", op, ka, a64, kb, b64, self.G64(), want)
			}
			if !same64(a.G64(), a64) || !same64(b.G64(), b64) {
				c.Fail("operands", "operation %d changed its operands to %v and %v", op, a.G64(), b.G64())
			}
			// the result is independent
			res.S64(1)
			if !same64(a.G64(), a64) || !same64(b.G64(), b64) {
				c.Fail("operands", "writing the result of operation %d changed its operands", op)
			}
			c.Ev("operations", 1)
			c.Eval(1)
		}
		// with itself
		d := a.Copy()
		d.SelfSub(d)
		if want := a64 - a64; !same64(d.G64(), want) {
			c.Fail("alias", "%v minus itself in place is %v", a64, d.G64())
		}
		x, y := a64, b64
		if ka != "float64" {
			x, y = float64(a.G32()), float64(b.G32())
		}
		want := scalar.CmpE
		if x < y {
			want = scalar.CmpL
		} else if x > y {
			want = scalar.CmpG
		}
		if got := a.Cmp(b); got != want {
			c.Fail("cmp", "comparing %s %v with %s %v gives %d, want %d", ka, a64, kb, b64, got, want)
		}
		if ka == "float64" && a64 == a64 && a.(*scalar.F64).String() != fmt.Sprint(a64) {
			c.Fail("string", "%v prints as %v", a64, a.(*scalar.F64).String())
		}
		if ka == "float32" && a.(*scalar.F32).String() != fmt.Sprint(a.G32()) {
			c.Fail("string", "%v prints as %v", a.G32(), a.(*scalar.F32).String())
		}
		// setters
		v := draw(r)
		a.S64(v)
		set := v
		switch ka {
		case "half":
			set = half(toHalf(v))
		case "float32":
			set = float64(float32(v))
		}
		if !same64(a.G64(), set) || !same32(a.G32(), float32(set)) {
			c.Fail("set", "%s set to %v reads %v", ka, v, a.G64())
		}
		a.S32(float32(v))
		set = float64(float32(v))
		if ka == "half" {
			set = half(toHalf(set))
		}
		if !same64(a.G64(), set) {
			c.Fail("set", "%s set to %v reads %v", ka, float32(v), a.G64())
		}
		c.Distinct("%s %s %x %x", ka, kb, math.Float64bits(a64), math.Float64bits(b64))
	}
}

func main() {
	mon.Main(mon.Check{
		ID:          "C23",
		Scale:       8,
		Rule:        "one case = 1024 consecutive half-precision numbers decoded (all 65536 together), their rounding boundaries, a block of float32 bit patterns converted (in the thorough tier all 2^32), or 50 random pairs of scalars through every operation; distinct by block or operands",
		Assumptions: []string{"the payload of a not-a-number is not compared"},
		Need:        map[string]int64{"halves_decoded": 65536, "boundaries": 500000, "boundaries64": 1000000, "float32_converted": 1000000, "operations": 100000},
		Groups: []mon.Group{
			{Name: "constants", Quick: 500, Thorough: 5000, Run: constants},
			{Name: "decode", Quick: 64, Thorough: 64, Run: decode},
			{Name: "midpoints", Quick: 64, Thorough: 64, Run: midpoints},
			{Name: "sweep", Fixed: true, Quick: 2048, Thorough: 65536, Run: sweep},
			{Name: "arith", Quick: 3000, Thorough: 60000, Run: arith},
		},
	})
}
