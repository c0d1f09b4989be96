// C01: elementwise arithmetic.
package main

import (
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/tk"
)

func one[T types.Number](c *mon.C, name string, shape []uint, v tk.Vals) {
	tk.ElemInst[T](c.R, name, shape, v).Decide(c)
}

func any6(c *mon.C, name string, shape []uint, v tk.Vals) {
	tk.ForType(c.Index,
		func() { one[float32](c, name, shape, v) }, func() { one[float64](c, name, shape, v) },
		func() { one[int](c, name, shape, v) }, func() { one[int16](c, name, shape, v) },
		func() { one[int32](c, name, shape, v) }, func() { one[int64](c, name, shape, v) })
}

func main() {
	opOf := func(c *mon.C) string { return tk.Elementwise[(c.Index/6)%len(tk.Elementwise)] }
	mon.Main(mon.Check{
		ID:    "C01",
		Scale: 4,
		Rule:  "one case = one operation on random tensors, decided at once and through a graph; distinct by element type, operation and operand shapes",
		Need:  map[string]int64{"oracle_decisions": 1000, "eager_ops": 500, "graph_ops": 500},
		Groups: []mon.Group{
			{Name: "shapes", Quick: 6 * 11 * 300, Thorough: 6 * 11 * 6000, Run: func(c *mon.C) {
				any6(c, opOf(c), tk.AnyShape(c.R), mon.Pick(c.R, tk.Small, tk.Wide, tk.Special))
			}},
			{Name: "specials", Quick: 6 * 11 * 100, Thorough: 6 * 11 * 2000, Run: func(c *mon.C) {
				any6(c, opOf(c), []uint{uint(c.R.Range(1, 300))}, tk.Special)
			}},
			{Name: "large", Quick: 6 * 11 * 3, Thorough: 6 * 11 * 40, Run: func(c *mon.C) {
				any6(c, opOf(c), mon.Pick(c.R, []uint{uint(c.R.Range(10000, 70000))}, []uint{uint(c.R.Range(100, 260)), uint(c.R.Range(100, 260))}, []uint{uint(c.R.Range(20, 40)), uint(c.R.Range(20, 40)), uint(c.R.Range(20, 40))}), tk.Wide)
			}},
		},
	})
}
