// C27: tensors hold exactly what was put into them, and share elements only
// where that was asked for.
package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/julioguillermo/godeep/context"
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/tk"
)

func same[T types.Number](c *mon.C, sig string, t tensor.Tensor[T], want tk.Arr[T]) {
	got := tk.Read[T](c, sig, t)
	tk.MustEqual(c, sig, got, want)
	if !tk.IsFloat[T]() {
		return
	}
	for i, v := range got.Data { // the sign of a zero is part of its value
		if v == 0 && math.Signbit(float64(v)) != math.Signbit(float64(want.Data[i])) {
			c.Fail(sig, "element %d is a zero of the other sign than was written", i)
		}
	}
}

// make: constructors.
func construct[T types.Number](c *mon.C) {
	r := c.R
	sh := tk.AnyShape(r)
	n := tk.Size(sh)
	c.Desc("%s constructors %v", tk.TypeName[T](), sh)
	fill := func(v T) tk.Arr[T] {
		a := tk.NewArr[T](sh)
		for i := range a.Data {
			a.Data[i] = v
		}
		return a
	}
	same[T](c, "zeros", tensor.NewZeros[T](tk.CloneU(sh)...), fill(0))
	same[T](c, "ones", tensor.NewOnes[T](tk.CloneU(sh)...), fill(1))
	// scalars
	for k := 0; k < 3; k++ {
		v := tk.Gen[T](r, []uint{1}, tk.Special).Data[0]
		a, z, o := number.NewScalar[T](v), number.ScalarZero[T](), number.ScalarOne[T]()
		if !tk.Same(a.Value, v) || z.Value != 0 || o.Value != 1 {
			c.Fail("scalar", "NewScalar(%v), ScalarZero, ScalarOne hold %v, %v, %v", v, a.Value, z.Value, o.Value)
		}
		a.Value, z.Value, o.Value = 7, 8, 9
		if x, y, u := number.NewScalar[T](v), number.ScalarZero[T](), number.ScalarOne[T](); !tk.Same(x.Value, v) || y.Value != 0 || u.Value != 1 {
			c.Fail("scalar", "after earlier ones were written, NewScalar(%v), ScalarZero, ScalarOne hold %v, %v, %v", v, x.Value, y.Value, u.Value)
		}
	}
	// values: too few are padded with zeros, too many are cut
	k := n
	switch r.Intn(4) {
	case 0:
		k = r.Intn(n + 1)
	case 1:
		k = n + r.Range(1, 5)
	}
	vals := tk.Gen[T](r, []uint{uint(k)}, tk.Special).Data
	want := tk.NewArr[T](sh)
	copy(want.Data, vals)
	keep := append([]T{}, vals...)
	var t *tensor.TensorMat[T]
	c.NoPanic("values", func() { t = tensor.NewFromValues[T](vals, tk.CloneU(sh)...) })
	same[T](c, "values", t, want)
	// independent of the slice
	for i := range vals {
		if !tk.Same(vals[i], keep[i]) {
			c.Fail("values", "the values passed in were changed")
		}
		vals[i] = T(1)
	}
	same[T](c, "values-alias", t, want)
	d, d2 := t.GetData(), t.GetData()
	for i := range d {
		d[i] = T(2)
	}
	for i := range d2 {
		if !tk.Same(d2[i], want.Data[i]) {
			c.Fail("data-alias", "writing one result of GetData changed another")
		}
	}
	same[T](c, "data-alias", t, want)
	s := t.GetShape()
	for i := range s {
		s[i] = 99
	}
	m := t.GetMulIndex()
	for i := range m {
		m[i] = 99
	}
	same[T](c, "shape-alias", t, want)
	if t.GetSize() != uint(n) || len(t.GetOperands()) != n {
		c.Fail("size", "size %d, %d elements, want %d", t.GetSize(), len(t.GetOperands()), n)
	}
	// the elements are distinct
	seen := map[*number.Scalar[T]]bool{}
	for _, o := range t.GetOperands() {
		if seen[o] {
			c.Fail("distinct", "two elements share their storage")
		}
		seen[o] = true
	}
	if n <= 200 {
		str := t.String()
		var parts []string
		for _, v := range want.Data {
			parts = append(parts, fmt.Sprint(v))
		}
		if !strings.Contains(str, "["+strings.Join(parts, ", ")+"]") {
			c.Fail("string", "%s does not show %v", str, want)
		}
	}
	// one slice of sizes for many tensors, changed afterwards
	if n <= 400 {
		sl := tk.CloneU(sh)
		src := tk.Ten(want)
		ts := map[string]tensor.Tensor[T]{}
		var keepShape *tensor.TensorMat[T]
		c.NoPanic("shape-slice", func() {
			ts["NewZeros"] = tensor.NewZeros[T](sl...)
			ts["NewOnes"] = tensor.NewOnes[T](sl...)
			ts["NewRand"] = tensor.NewRand[T](0, 1, sl...)
			ts["NewNormRand"] = tensor.NewNormRand[T](sl...)
			ts["NewFromValues"] = tensor.NewFromValues[T](keep, sl...)
			keepShape = src.GetMatrix().Reshape(sl...)
			ts["Reshape"] = keepShape
			lazy := tensor.Reshape[T](src, sl...)
			g, err := graph.NewGraph[T](lazy)
			if err != nil {
				c.Fail("shape-slice", "building a reshape to %v: %v", sl, err)
				return
			}
			g.Exec()
			ts["Reshape graph"] = lazy
		})
		for i := range sl {
			sl[i] = 77
		}
		for k, x := range ts {
			if got := x.GetShape(); fmt.Sprint(got) != fmt.Sprint(sh) {
				c.Fail("shape-slice", "%s from %v has shape %v after the caller reused the slice", k, sh, got)
			}
		}
		if keepShape != nil {
			same[T](c, "shape-slice", keepShape, want)
		}
		c.Ev("shape_slices", len(ts))
	}
	c.Ev("constructions", 3)
	c.Distinct("%s %v %d", tk.TypeName[T](), sh, k-n)
}

// slot is one tensor of the model of a heap of tensors: cells are shared after
// Bind.
type slot[T types.Number] struct {
	t     tensor.Tensor[T]
	shape []uint
	cells []*T
}

func (s slot[T]) arr() tk.Arr[T] {
	a := tk.NewArr[T](s.shape)
	for i, p := range s.cells {
		a.Data[i] = *p
	}
	return a
}

func cells[T any](data []T) []*T {
	out := make([]*T, len(data))
	for i := range data {
		v := data[i]
		out[i] = &v
	}
	return out
}

// history: several tensors, any sequence of whole-tensor operations.
func history[T types.Number](c *mon.C) {
	r := c.R
	sh := tk.Shape(r, r.Range(0, 4), 60)
	var ss []slot[T]
	add := func(t tensor.Tensor[T], shape []uint, cs []*T) { ss = append(ss, slot[T]{t, shape, cs}) }
	fresh := func() tk.Arr[T] { return tk.Gen[T](r, sh, tk.Special) }
	for i := 0; i < 2; i++ {
		a := fresh()
		add(tk.Ten(a), sh, cells(a.Data))
	}
	// what was read out earlier belongs to the caller: it stays as it was
	type held struct {
		got  []T
		want []T
		what string
	}
	var out []held
	hist := ""
	for k := r.Range(4, 20); k > 0; k-- {
		i, j := r.Intn(len(ss)), r.Intn(len(ss))
		a, b := ss[i], ss[j]
		op := r.Intn(11)
		hist += fmt.Sprintf("%d(%d,%d) ", op, i, j)
		c.Desc("%s history %s on %v", tk.TypeName[T](), hist, sh)
		c.NoPanic("history", func() {
			switch op {
			case 0: // copy
				add(a.t.Copy(), sh, cells(a.arr().Data))
			case 1: // load data
				v := fresh()
				if err := a.t.LoadData(v.Data); err != nil {
					c.Fail("load", "%v", err)
				}
				for n := range v.Data {
					*a.cells[n] = v.Data[n]
					v.Data[n] = 0
				}
			case 2: // load from a tensor (possibly itself or a bound one)
				if err := a.t.LoadFromTensor(b.t); err != nil {
					c.Fail("load", "%v", err)
				}
				for n := range a.cells {
					*a.cells[n] = *b.cells[n]
				}
			case 3: // share elements
				if err := a.t.Bind(b.t); err != nil {
					c.Fail("bind", "%v", err)
				}
				copy(ss[i].cells, b.cells)
			case 4: // fill
				v := tk.Val[T](r, tk.Special)
				m := a.t.GetMatrix()
				if r.Bool() {
					m.FillData(v)
				} else {
					m.Fill(tk.Sc(v))
				}
				for _, p := range a.cells {
					*p = v
				}
			case 5: // write one element
				if len(a.cells) == 0 {
					return
				}
				n := r.Intn(len(a.cells))
				v := tk.Val[T](r, tk.Special)
				if err := a.t.Set(v, tk.Index(sh, n)...); err != nil {
					c.Fail("set", "%v", err)
				}
				*a.cells[n] = v
			case 6: // bad loads change nothing
				if err := a.t.LoadData(make([]T, len(a.cells)+r.Range(1, 3))); err == nil {
					c.Fail("bad-load", "too many values were accepted")
				}
				if len(a.cells) > 0 {
					if err := a.t.LoadData(make([]T, len(a.cells)-1)); err == nil {
						c.Fail("bad-load", "too few values were accepted")
					}
				}
				other := append(tk.CloneU(sh), 2)
				if err := a.t.LoadFromTensor(tensor.NewOnes[T](other...)); err == nil {
					c.Fail("bad-load", "a tensor of another shape was accepted")
				}
			case 7: // transfer through a graph: writes into the target
				if i == j || overlap(a, b) {
					return
				}
				ctx := &context.Context{}
				a.t.SetBuild(false)
				b.t.SetBuild(false)
				var got tensor.Tensor[T]
				if r.Bool() {
					got = tensor.CopyTo[T](a.t, b.t)
					if err := got.BuildGraph(ctx); err != nil {
						c.Fail("transfer", "%v", err)
					}
				} else if err := tensor.Transfer[T](ctx, a.t, b.t); err != nil {
					c.Fail("transfer", "%v", err)
				}
				g, err := graph.NewGraphFrom[T](ctx)
				if err != nil {
					c.Fail("transfer", "%v", err)
				}
				g.Exec()
				for n := range b.cells {
					*b.cells[n] = *a.cells[n]
				}
				if got != nil {
					same(c, "copyto", got, b.arr())
				}
			case 8: // fill through a graph
				ctx := &context.Context{}
				v := tk.Sc(tk.Val[T](r, tk.Special))
				if err := tensor.Fill[T](ctx, a.t, v); err != nil {
					c.Fail("fill", "%v", err)
				}
				g, err := graph.NewGraphFrom[T](ctx)
				if err != nil {
					c.Fail("fill", "%v", err)
				}
				if r.Bool() {
					g.Exec()
					v.Value = tk.Val[T](r, tk.Special)
				}
				g.Exec()
				for _, p := range a.cells {
					*p = v.Value
				}
			case 9: // write through the element itself
				if len(a.cells) == 0 {
					return
				}
				n := r.Intn(len(a.cells))
				v := tk.Val[T](r, tk.Special)
				a.t.GetOperands()[n].Value = v
				*a.cells[n] = v
			case 10: // a copy of a graph result
				t := tensor.AddScalar[T](a.t.Copy(), tk.Sc[T](0))
				g, err := graph.NewGraph[T](t)
				if err != nil {
					c.Fail("graph", "%v", err)
				}
				g.Exec()
				cp := t.Copy()
				want := cells(tk.Read[T](c, "graph", t).Data)
				if err := t.LoadData(make([]T, len(a.cells))); err != nil {
					c.Fail("graph", "%v", err)
				}
				add(cp, sh, want)
			}
		})
		for _, s := range ss {
			same(c, fmt.Sprintf("history-%d", op), s.t, s.arr())
		}
		if q := r.Intn(len(ss)); r.Bool() {
			d := ss[q].t.GetData()
			out = append(out, held{d, append([]T{}, d...), fmt.Sprintf("of tensor %d after [%s]", q, hist)})
		}
		if len(out) > 0 && r.P(0.2) {
			// the caller may write it, too
			h := &out[r.Intn(len(out))]
			for n := range h.got {
				h.got[n] = tk.Val[T](r, tk.Special)
			}
			copy(h.want, h.got)
		}
		for _, h := range out {
			for n := range h.want {
				if !tk.Same(h.got[n], h.want[n]) {
					c.Fail("data-alias", "the data %s: element %d changed from %v to %v by [%s]", h.what, n, h.want[n], h.got[n], hist)
				}
			}
			c.Ev("held_slices", 1)
		}
		c.Ev("operations", 1)
	}
	c.Distinct("%s %v %s", tk.TypeName[T](), sh, hist)
}

func overlap[T types.Number](a, b slot[T]) bool {
	m := map[*T]bool{}
	for _, p := range a.cells {
		m[p] = true
	}
	for _, p := range b.cells {
		if m[p] {
			return true
		}
	}
	return false
}

func main() {
	mon.Main(mon.Check{
		ID:    "C27",
		Scale: 12,
		Rule:  "one case = the constructors for one shape, or a random history of copies, loads, binds, fills, transfers and writes over several tensors with all of them compared after every operation with a model of shared cells; distinct by type, shape and history",
		Need:  map[string]int64{"constructions": 5000, "operations": 20000, "held_slices": 20000},
		Groups: []mon.Group{
			{Name: "construct", Quick: 6000, Thorough: 120000, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { construct[float32](c) }, func() { construct[float64](c) }, func() { construct[int](c) },
					func() { construct[int16](c) }, func() { construct[int32](c) }, func() { construct[int64](c) })
			}},
			{Name: "history", Quick: 6000, Thorough: 120000, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { history[float32](c) }, func() { history[float64](c) }, func() { history[int](c) },
					func() { history[int16](c) }, func() { history[int32](c) }, func() { history[int64](c) })
			}},
		},
	})
}
