package nn

import (
	"bytes"
	"math"

	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/tk"
)

// EqNum compares numbers; NaN equals NaN.
func EqNum[T types.Number](a, b T) bool {
	return a == b || a != a && b != b
}

// SameRaw says where two sets of parameters differ.
func SameRaw[T types.Number](a, b [][]T) (int, int, bool) {
	for i := range a {
		for j := range a[i] {
			if !EqNum(a[i][j], b[i][j]) {
				return i, j, false
			}
		}
	}
	return 0, 0, true
}

// MustRaw reports different parameters.
func MustRaw[T types.Number](c *mon.C, sig, what string, got, want [][]T) {
	if len(got) != len(want) {
		c.Fail(sig, "%s: %d parameter tensors, want %d", what, len(got), len(want))
	}
	if i, j, ok := SameRaw(got, want); !ok {
		c.Fail(sig, "%s: parameter tensor %d element %d is %v, want %v", what, i, j, got[i][j], want[i][j])
	}
	c.Eval(1)
}

// MustData reports different tensors.
func MustData[T types.Number](c *mon.C, sig, what string, got, want tk.Arr[T]) {
	if !tk.EqShape(got.Shape, want.Shape) {
		c.Fail(sig, "%s has shape %v, want %v", what, got.Shape, want.Shape)
	}
	for i := range want.Data {
		if !EqNum(got.Data[i], want.Data[i]) {
			c.Fail(sig, "%s: element %d is %v, want %v", what, i, got.Data[i], want.Data[i])
		}
	}
	c.Eval(1)
}

// Bounded keeps parameters of a history in a usable range.
func Bounded[T types.Number](raw [][]T) bool {
	for _, r := range raw {
		for _, v := range r {
			if !(math.Abs(float64(v)) < 1e4) {
				return false
			}
		}
	}
	return true
}

// OtherShape is a shape that does not fit.
func OtherShape(r *mon.Rng, sh []uint) []uint {
	o := tk.CloneU(sh)
	switch r.Intn(6) {
	case 0:
		return append(o, 1)
	case 1:
		if len(o) > 1 {
			// as many elements, other shape
			return []uint{uint(tk.Size(o))}
		}
		return []uint{1, o[0]}
	case 2:
		return []uint{}
	case 3:
		k := r.Intn(len(o))
		if o[k] > 1 {
			o[k]--
			return o
		}
	case 4:
		for i := range o {
			for j := range o {
				if o[i] != o[j] {
					o[i], o[j] = o[j], o[i]
					return o
				}
			}
		}
	}
	o[r.Intn(len(o))] += uint(r.Range(1, 3))
	return o
}

// Freeze sets some layers, or the model, not trainable for a while.
func (n *Net[T]) Freeze(c *mon.C) (thaw func()) {
	c.NoPanic("freeze", func() {
		if c.R.P(0.4) {
			n.M.SetTrainable(false)
			return
		}
		for i := range n.Spec.Nodes {
			if n.Spec.Nodes[i].HasParams() && c.R.Bool() {
				n.Layers[i].SetTrainable(false)
			}
		}
	})
	c.Ev("freezings", 1)
	return func() {
		c.NoPanic("freeze", func() { n.M.SetTrainable(true) })
	}
}

// Disturb does something to the model that a user may do at any time. Steps use
// the given momentum chooser.
func (n *Net[T]) Disturb(c *mon.C, train bool, mom func() T) string {
	r := c.R
	k := r.Intn(10)
	if !train && k < 3 {
		k = 3
	}
	s := n.Spec
	switch k {
	case 0, 1:
		a := T(1)
		if tk.IsFloat[T]() {
			a = T(mon.Pick(r, 0.1, 0.01, 0.05, 0))
		}
		n.TrainOne(c, Sample[T](r, s.InShape()), Sample[T](r, s.OutShape()), a, mom())
		return "train"
	case 2:
		var ins, outs []tensor.Tensor[T]
		for i := r.Range(1, 3); i > 0; i-- {
			ins = append(ins, tk.Ten(Sample[T](r, s.InShape())))
			outs = append(outs, tk.Ten(Sample[T](r, s.OutShape())))
		}
		a := T(1)
		if tk.IsFloat[T]() {
			a = T(mon.Pick(r, 0.02, 0.1))
		}
		c.NoPanic("train", func() {
			if err := n.M.Train(ins, outs, uint(r.Intn(3)), uint(r.Intn(3)), a, mom()); err != nil {
				c.Fail("train", "valid samples were rejected: %v", err)
			}
		})
		c.Ev("train_calls", 1)
		return "train-many"
	case 3:
		n.Predict(c, Sample[T](r, s.InShape()))
		return "predict"
	case 4:
		c.NoPanic("bad-sample", func() {
			if _, err := n.M.Predict(tk.Ten(Sample[T](r, OtherShape(r, s.InShape())))); err == nil {
				c.Fail("bad-sample", "a sample of the wrong shape was accepted by Predict")
			}
		})
		c.Ev("rejected_samples", 1)
		return "bad-predict"
	case 5:
		in, out := s.InShape(), s.OutShape()
		if r.Bool() {
			in = OtherShape(r, in)
		} else {
			out = OtherShape(r, out)
		}
		c.NoPanic("bad-sample", func() {
			if _, err := n.M.TrainOne(tk.Ten(Sample[T](r, in)), tk.Ten(Sample[T](r, out)), 1, mom()); err == nil {
				c.Fail("bad-sample", "a sample of the wrong shape (%v to %v) was accepted by TrainOne", in, out)
			}
		})
		c.Ev("rejected_samples", 1)
		return "bad-train"
	case 6:
		c.NoPanic("reset", func() {
			if err := n.M.ResetIS(); err != nil {
				c.Fail("reset", "%v", err)
			}
		})
		return "reset"
	case 7:
		c.NoPanic("save", func() {
			var b bytes.Buffer
			n.M.ResetSave()
			if err := n.M.Save(&b); err != nil {
				c.Fail("save", "%v", err)
			}
			if r.Bool() {
				n.M.ResetLoad()
				if err := n.M.Load(bytes.NewReader(b.Bytes())); err != nil {
					c.Fail("save", "%v", err)
				}
			}
		})
		return "save"
	case 9:
		thaw := n.Freeze(c)
		n.Predict(c, Sample[T](r, s.InShape()))
		c.NoPanic("string", func() { _ = n.M.String() })
		thaw()
		return "freeze"
	default:
		c.NoPanic("compile", func() {
			if err := n.M.Compile(); err != nil {
				c.Fail("compile", "%v", err)
			}
			if r.Bool() {
				if err := n.M.CompileBackPropagation(); err != nil {
					c.Fail("compile", "%v", err)
				}
			}
		})
		return "compile"
	}
}

// Repeats says that one value stands twice in the output: the same element of
// one layer reached through concatenations, flattenings and cuts.
func (s Spec) Repeats() bool {
	type cell struct{ node, i int }
	var cells func(i int) []cell
	cells = func(i int) []cell {
		n := s.Nodes[i]
		out := make([]cell, tk.Size(n.Shape))
		switch n.Kind {
		case "flatten":
			return cells(n.In[0])
		case "sub":
			in, sh := cells(n.In[0]), s.Nodes[n.In[0]].Shape
			for o := range out {
				idx := tk.Index(n.Shape, o)
				idx[n.Dim] += n.From
				out[o] = in[tk.Offset(sh, idx)]
			}
			return out
		case "concat":
			a, b := cells(n.In[0]), cells(n.In[1])
			sa, sb := s.Nodes[n.In[0]].Shape, s.Nodes[n.In[1]].Shape
			for o := range out {
				idx := tk.Index(n.Shape, o)
				if idx[n.Dim] < sa[n.Dim] {
					out[o] = a[tk.Offset(sa, idx)]
				} else {
					idx[n.Dim] -= sa[n.Dim]
					out[o] = b[tk.Offset(sb, idx)]
				}
			}
			return out
		}
		for o := range out {
			out[o] = cell{i, o}
		}
		return out
	}
	seen := map[cell]bool{}
	for _, x := range cells(len(s.Nodes) - 1) {
		if seen[x] {
			return true
		}
		seen[x] = true
	}
	return false
}
