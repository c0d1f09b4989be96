// C03: rearrangements.
package main

import (
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/tk"
)

func one[T types.Number](c *mon.C, name string, shape []uint) {
	v := mon.Pick(c.R, tk.Wide, tk.Special)
	tk.RearrInst[T](c.R, name, shape, v).Decide(c)
}

// chain applies several rearrangements one after the other.
func chain[T types.Number](c *mon.C, lazy bool) {
	a := tk.Gen[T](c.R, tk.Shape(c.R, c.R.Range(1, 4), 200), tk.Wide)
	want := a.Clone()
	var cur tensor.Tensor[T] = tk.Ten(a)
	var mat *tensor.TensorMat[T] = tk.Ten(a)
	var targets []tensor.Tensor[T]
	var held []tk.Arr[T]
	n := c.R.Range(2, 7)
	c.Desc("chain of %d on %v", n, a)
	for k := 0; k < n; k++ {
		name := mon.Pick(c.R, tk.Rearrangements...)
		if len(want.Data) > 3000 {
			break
		}
		if lazy && c.R.P(0.12) {
			// copied into a tensor of the same size and maybe another shape, or filled
			if c.R.P(0.8) {
				to := tk.Gen[T](c.R, tk.Refactor(c.R, len(want.Data)), tk.Wide)
				c.Note("copyto(%v)", to.Shape)
				tt := tk.Ten(to)
				cur, want = tensor.CopyTo[T](cur, tt), tk.Reshape(want, to.Shape)
				targets, held = append(targets, tt), append(held, want.Clone())
			} else {
				v := tk.Val[T](c.R, tk.Wide)
				c.Note("fill(%v)", v)
				cur, want = tensor.FillWith[T](cur, tk.Sc(v)), want.Clone()
				for q := range want.Data {
					want.Data[q] = v
				}
				// what was copied before may be what is filled
				targets, held = nil, nil
			}
			if len(want.Shape) == 0 {
				break
			}
		}
		in := tk.RearrInst[T](c.R, name, want.Shape, tk.Wide)
		// redo the operation on the running value
		if len(want.Shape) == 0 {
			break
		}
		in.In[0] = want
		x := []tensor.Tensor[T]{cur}
		m := []*tensor.TensorMat[T]{mat}
		if len(in.In) > 1 {
			x = append(x, tk.Ten(in.In[1]))
			m = append(m, tk.Ten(in.In[1]))
		}
		c.Note("%s", in.Name)
		want = redo(in)
		cur = in.Lazy(x)
		if !lazy && in.Eager != nil {
			var err error
			mat, err = in.Eager(m)
			if err != nil {
				c.Fail("chain-eager", "%v", err)
			}
			tk.MustEqual(c, "chain-eager", tk.Read[T](c, "chain-eager", mat), want)
		} else if !lazy { // flatten
			mat = mat.Reshape(uint(len(want.Data)))
		}
	}
	tk.MustEqual(c, "chain-graph", tk.Exec(c, "chain-graph", cur), want)
	for q, t := range targets {
		tk.MustEqual(c, "chain-copy", tk.Read[T](c, "chain-copy", t), held[q])
	}
	c.Distinct("chain %s %s", tk.TypeName[T](), c.Group)
}

func redo[T types.Number](i tk.Inst[T]) tk.Arr[T] { return i.Redo() }

func any6(c *mon.C, f32, f64, i0, i16, i32, i64 func()) {
	tk.ForType(c.Index, f32, f64, i0, i16, i32, i64)
}

func main() {
	run := func(c *mon.C, shape []uint) {
		name := tk.Rearrangements[(c.Index/6)%len(tk.Rearrangements)]
		any6(c, func() { one[float32](c, name, shape) }, func() { one[float64](c, name, shape) },
			func() { one[int](c, name, shape) }, func() { one[int16](c, name, shape) },
			func() { one[int32](c, name, shape) }, func() { one[int64](c, name, shape) })
	}
	mon.Main(mon.Check{
		ID:    "C03",
		Scale: 6,
		Rule:  "one case = one rearrangement (or a chain of 2 to 7) of a random tensor, decided at once and through a graph; distinct by element type, operation, parameters and operand shapes",
		Need:  map[string]int64{"oracle_decisions": 1000, "eager_ops": 500, "graph_ops": 500},
		Groups: []mon.Group{
			{Name: "shapes", Quick: 6 * 6 * 500, Thorough: 6 * 6 * 9000, Run: func(c *mon.C) { run(c, tk.AnyShape(c.R)) }},
			{Name: "large", Quick: 6 * 6 * 4, Thorough: 6 * 6 * 40, Run: func(c *mon.C) {
				run(c, mon.Pick(c.R, []uint{uint(c.R.Range(10000, 60000))}, []uint{uint(c.R.Range(100, 250)), uint(c.R.Range(100, 250))}, []uint{uint(c.R.Range(20, 40)), uint(c.R.Range(20, 40)), uint(c.R.Range(20, 40))}))
			}},
			{Name: "chains", Quick: 12000, Thorough: 200000, Run: func(c *mon.C) {
				lazy := c.Index%2 == 0
				switch c.Index % 3 {
				case 0:
					chain[float32](c, lazy)
				case 1:
					chain[float64](c, lazy)
				default:
					chain[int16](c, lazy)
				}
			}},
			{Name: "fill", Quick: 600, Thorough: 6000, Run: func(c *mon.C) { fill(c) }},
		},
	})
}

// fill: the eager extended sub-tensor takes the padding value from the caller.
func fill(c *mon.C) {
	r := c.R
	a := tk.Gen[float64](r, tk.Shape(r, r.Range(1, 4), 300), tk.Wide)
	d := uint(r.Intn(len(a.Shape)))
	from := uint(r.Intn(int(a.Shape[d]) + 3))
	to := from + uint(r.Range(1, 6))
	f := tk.Val[float64](r, tk.Small)
	c.Desc("fill %v of %v dim %d [%d,%d)", f, a, d, from, to)
	got, err := tk.Ten(a).FOSubTensor(d, from, to, f)
	if err != nil {
		c.Fail("eager-fill", "%v", err)
	}
	tk.MustEqual(c, "eager-fill", tk.Read[float64](c, "eager-fill", got), tk.Slice(a, d, from, to, f))
	c.Distinct("fill %v %d %d %d", a.Shape, d, from, to)
}
