// C04: dot products.
package main

import (
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/tk"
)

func one[T types.Number](c *mon.C, at bool, rank, size int) {
	v := mon.Pick(c.R, tk.Small, tk.Small, tk.Unit)
	if !tk.IsFloat[T]() {
		v = mon.Pick(c.R, tk.Small, tk.Wide) // integers wrap around identically in any order
	}
	tk.DotInst[T](c.R, v, at, rank, size).Decide(c)
}

// every small pair of shapes, every pair of dimensions
func small[T types.Number](c *mon.C) {
	shapes := [][]uint{}
	for rank := 1; rank <= 3; rank++ {
		n := 1
		for k := 0; k < rank; k++ {
			n *= 3
		}
		for i := 0; i < n; i++ {
			s := make([]uint, rank)
			x := i
			for k := range s {
				s[k] = uint(x%3 + 1)
				x /= 3
			}
			shapes = append(shapes, s)
		}
	}
	sa := shapes[c.Index%len(shapes)]
	for _, sb := range shapes {
		for da := range sa {
			for db := range sb {
				if sa[da] == sb[db] {
					tk.DotOf[T](c.R, tk.Small, sa, sb, uint(da), uint(db), true).Decide(c)
				}
			}
		}
		da, db := tk.DotDims(sa, sb)
		if sa[da] == sb[db] {
			tk.DotOf[T](c.R, tk.Small, sa, sb, da, db, false).Decide(c)
		}
	}
}

func main() {
	mon.Main(mon.Check{
		ID:         "C04",
		Scale:      6,
		Rule:       "one case = one contraction of two random tensors, decided at once and through a graph, or (group small) every pair of shapes of rank 1 to 3 with dimensions 1 to 3 and every pair of equal dimensions; distinct by element type, dimensions and shapes",
		Need:       map[string]int64{"oracle_decisions": 5000, "eager_ops": 2500, "graph_ops": 2500},
		Exhaustive: []string{"every pair of shapes of rank <= 3 with dimensions <= 3, every contractible pair of dimensions (element values sampled)"},
		Groups: []mon.Group{
			{Name: "small", Quick: 39 * 6, Thorough: 39 * 60, Run: func(c *mon.C) {
				tk.ForType(c.Index/39, func() { small[float64](c) }, func() { small[float32](c) }, func() { small[int](c) },
					func() { small[int16](c) }, func() { small[int32](c) }, func() { small[int64](c) })
			}},
			{Name: "random", Quick: 12000, Thorough: 300000, Run: func(c *mon.C) {
				at := (c.Index/6)%2 == 0
				tk.ForType(c.Index, func() { one[float32](c, at, 4, 300) }, func() { one[float64](c, at, 5, 300) }, func() { one[int](c, at, 4, 300) },
					func() { one[int16](c, at, 4, 300) }, func() { one[int32](c, at, 4, 300) }, func() { one[int64](c, at, 4, 300) })
			}},
			{Name: "large", Quick: 24, Thorough: 200, Run: func(c *mon.C) {
				n, k, m := uint(c.R.Range(1, 60)), uint(c.R.Range(1, 400)), uint(c.R.Range(1, 60))
				if c.Index%4 == 0 {
					k = uint(c.R.Range(5000, 40000))
					n, m = 1, 2
				}
				switch c.Index % 3 {
				case 0:
					tk.DotOf[float32](c.R, tk.Small, []uint{n, k}, []uint{k, m}, 1, 0, false).Decide(c)
				case 1:
					tk.DotOf[float64](c.R, tk.Unit, []uint{n, k}, []uint{m, k}, 1, 1, true).Decide(c)
				default:
					tk.DotOf[int64](c.R, tk.Wide, []uint{k}, []uint{k}, 0, 0, false).Decide(c)
				}
			}},
		},
	})
}
