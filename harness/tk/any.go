package tk

import (
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
)

// AllOps are all the operations AnyInst draws from.
func AllOps() []string {
	var out []string
	for _, n := range Elementwise {
		out = append(out, "e:"+n)
	}
	for _, n := range Reductions {
		out = append(out, "r:"+n)
	}
	for _, n := range Rearrangements {
		out = append(out, "t:"+n)
	}
	return append(out, "d:dot", "d:dotat")
}

// AnyInst makes a valid instance of an operation of AllOps.
func AnyInst[T types.Number](r *mon.Rng, op string) Inst[T] {
	shape := AnyShape(r)
	name := op[2:]
	switch op[0] {
	case 'e':
		return ElemInst[T](r, name, shape, mon.Pick(r, Small, NonZero, Unit, Ties))
	case 'r':
		if name[0] == 'd' && len(shape) == 0 {
			shape = []uint{3}
		}
		if name == "softmax" && Size(shape) == 1 {
			shape = []uint{2, 3}
		}
		if TypeName[T]() == "int16" && Size(shape) > 1500 { // keep sums below 2^15
			shape = []uint{uint(r.Range(2, 1500))}
		}
		v := mon.Pick(r, Small, Ties, Unit)
		a := Gen[T](r, shape, v)
		if name == "softmax" && RMax(a.Data) == RMin(a.Data) {
			a.Data[0]++
		}
		return RedInst[T](r, name, a, v != Unit)
	case 't':
		return RearrInst[T](r, name, shape, mon.Pick(r, Small, Wide))
	}
	return DotInst[T](r, mon.Pick(r, Small, Unit), name == "dotat", 4, 200)
}
