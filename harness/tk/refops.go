package tk

import "github.com/julioguillermo/godeep/types"

func Map[T types.Number](a Arr[T], f func(T) T) Arr[T] {
	o := NewArr[T](a.Shape)
	for i, v := range a.Data {
		o.Data[i] = f(v)
	}
	return o
}

func Zip[T types.Number](a, b Arr[T], f func(x, y T) T) Arr[T] {
	o := NewArr[T](a.Shape)
	for i, v := range a.Data {
		o.Data[i] = f(v, b.Data[i])
	}
	return o
}

func RSum[T types.Number](xs []T) T {
	var s T
	for _, x := range xs {
		s += x
	}
	return s
}

func RAvg[T types.Number](xs []T) T { return RSum(xs) / T(len(xs)) }

func RMax[T types.Number](xs []T) T {
	m := xs[0]
	for _, x := range xs {
		if x > m {
			m = x
		}
	}
	return m
}

func RMin[T types.Number](xs []T) T {
	m := xs[0]
	for _, x := range xs {
		if x < m {
			m = x
		}
	}
	return m
}

// ReduceAll folds every element into a tensor of shape [1].
func ReduceAll[T types.Number](a Arr[T], f func([]T) T) Arr[T] {
	return Arr[T]{[]uint{1}, []T{f(a.Data)}}
}

// ReduceAfter keeps dimensions 0..d and folds all the later ones.
func ReduceAfter[T types.Number](a Arr[T], d uint, f func([]T) T) Arr[T] {
	o := NewArr[T](a.Shape[:d+1])
	n := Size(a.Shape[d+1:])
	for i := range o.Data {
		o.Data[i] = f(a.Data[i*n : (i+1)*n])
	}
	return o
}

func Reshape[T types.Number](a Arr[T], shape []uint) Arr[T] {
	o := NewArr[T](shape)
	copy(o.Data, a.Data)
	return o
}

func Transpose[T types.Number](a Arr[T]) Arr[T] {
	n := len(a.Shape)
	sh := make([]uint, n)
	for i := range sh {
		sh[i] = a.Shape[n-1-i]
	}
	o := NewArr[T](sh)
	for i := range a.Data {
		idx := Index(a.Shape, i)
		rev := make([]uint, n)
		for k := range idx {
			rev[n-1-k] = idx[k]
		}
		o.Data[Offset(sh, rev)] = a.Data[i]
	}
	return o
}

// Slice keeps [from, to) of dimension d; positions past the end hold fill.
func Slice[T types.Number](a Arr[T], d, from, to uint, fill T) Arr[T] {
	sh := CloneU(a.Shape)
	sh[d] = to - from
	o := NewArr[T](sh)
	for i := range o.Data {
		idx := Index(sh, i)
		idx[d] += from
		if idx[d] < a.Shape[d] {
			o.Data[i] = a.At(idx...)
		} else {
			o.Data[i] = fill
		}
	}
	return o
}

func Concat[T types.Number](a, b Arr[T], d uint) Arr[T] {
	sh := CloneU(a.Shape)
	sh[d] += b.Shape[d]
	o := NewArr[T](sh)
	for i := range o.Data {
		idx := Index(sh, i)
		if idx[d] < a.Shape[d] {
			o.Data[i] = a.At(idx...)
		} else {
			idx[d] -= a.Shape[d]
			o.Data[i] = b.At(idx...)
		}
	}
	return o
}

// DotAt contracts dimension da of a with dimension db of b.
func DotAt[T types.Number](a, b Arr[T], da, db uint) Arr[T] {
	if len(a.Shape) == 1 && len(b.Shape) == 1 {
		var s T
		for i := range a.Data {
			s += a.Data[i] * b.Data[i]
		}
		return Arr[T]{[]uint{1}, []T{s}}
	}
	var sh []uint
	for i, s := range a.Shape {
		if uint(i) != da {
			sh = append(sh, s)
		}
	}
	na := len(sh)
	for i, s := range b.Shape {
		if uint(i) != db {
			sh = append(sh, s)
		}
	}
	o := NewArr[T](sh)
	for i := range o.Data {
		idx := Index(sh, i)
		ia := make([]uint, 0, len(a.Shape))
		ib := make([]uint, 0, len(b.Shape))
		ia = append(append(append(ia, idx[:da]...), 0), idx[da:na]...)
		ib = append(append(append(ib, idx[na:na+int(db)]...), 0), idx[na+int(db):]...)
		var s T
		for k := uint(0); k < a.Shape[da]; k++ {
			ia[da], ib[db] = k, k
			s += a.At(ia...) * b.At(ib...)
		}
		o.Data[i] = s
	}
	return o
}

// DotDims are the dimensions the plain dot product contracts.
func DotDims(a, b []uint) (uint, uint) {
	da := uint(len(a) - 1)
	db := uint(len(b) - 1)
	if db > 0 {
		db--
	}
	return da, db
}

// SoftMax is (x-min)/sum(x-min).
func SoftMax[T types.Number](a Arr[T]) Arr[T] {
	m := RMin(a.Data)
	var s T
	for _, x := range a.Data {
		s += x - m
	}
	return Map(a, func(x T) T { return (x - m) / s })
}
