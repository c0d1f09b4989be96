// C09: a tensor that is saved and loaded is the same tensor, through any stream.
package main

import (
	"bytes"
	"encoding/binary"
	"math"
	"math/big"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/tk"
)

// wire is the format of Save: little-endian, fixed width, row-major.
func wire[T types.Number](a tk.Arr[T]) []byte {
	var b []byte
	for _, v := range a.Data {
		switch x := any(v).(type) {
		case float32:
			b = binary.LittleEndian.AppendUint32(b, math.Float32bits(x))
		case float64:
			b = binary.LittleEndian.AppendUint64(b, math.Float64bits(x))
		case int:
			b = binary.LittleEndian.AppendUint64(b, uint64(x))
		case int16:
			b = binary.LittleEndian.AppendUint16(b, uint16(x))
		case int32:
			b = binary.LittleEndian.AppendUint32(b, uint32(x))
		case int64:
			b = binary.LittleEndian.AppendUint64(b, uint64(x))
		}
	}
	return b
}

func bits[T types.Number](v T) uint64 {
	switch x := any(v).(type) {
	case float32:
		return uint64(math.Float32bits(x))
	case float64:
		return math.Float64bits(x)
	}
	return uint64(int64(v))
}

func sameBits[T types.Number](c *mon.C, sig string, t tensor.Tensor[T], want tk.Arr[T]) {
	got := tk.Read[T](c, sig, t)
	if !tk.EqShape(got.Shape, want.Shape) {
		c.Fail(sig, "shape %v, want %v", got.Shape, want.Shape)
	}
	for i := range want.Data {
		if bits(got.Data[i]) != bits(want.Data[i]) {
			c.Fail(sig, "element %v is %v (%x), want %v (%x)", tk.Index(want.Shape, i), got.Data[i], bits(got.Data[i]), want.Data[i], bits(want.Data[i]))
		}
	}
	c.Eval(1)
}

// payload: any float bits, including every kind of NaN, or any integer.
func payload[T types.Number](r *mon.Rng, shape []uint) tk.Arr[T] {
	a := tk.Gen[T](r, shape, tk.Special)
	if r.P(0.5) {
		for i := range a.Data {
			switch p := any(&a.Data[i]).(type) {
			case *float32:
				// quiet NaNs only: loads of signalling ones may set the quiet bit
				x := uint32(r.U64())
				if x&0x7f800000 == 0x7f800000 {
					x |= 0x00400000
				}
				*p = math.Float32frombits(x)
			case *float64:
				x := r.U64()
				if x&0x7ff0000000000000 == 0x7ff0000000000000 {
					x |= 1 << 51
				}
				*p = math.Float64frombits(x)
			default:
				a.Data[i] = T(int64(r.U64()))
			}
		}
	}
	return a
}

func shape(r *mon.Rng) []uint {
	s := tk.AnyShape(r)
	if tk.Size(s) > 600 && r.P(0.7) {
		s = tk.Shape(r, r.Range(0, 4), 200)
	}
	return s
}

// source wraps a as the kinds of tensors that can be saved.
func source[T types.Number](c *mon.C, a tk.Arr[T]) tensor.Tensor[T] {
	switch c.R.Intn(4) {
	case 0:
		t := tensor.Reshape[T](tk.Ten(tk.Reshape(a, []uint{uint(len(a.Data))})), tk.CloneU(a.Shape)...)
		g, err := graph.NewGraph[T](t)
		if err != nil {
			c.Fail("source", "%v", err)
		}
		g.Exec()
		return t
	case 1:
		return tk.Ten(a).Copy()
	}
	return tk.Ten(a)
}

func save[T types.Number](c *mon.C, full bool, t tensor.Tensor[T]) []byte {
	var buf bytes.Buffer
	var err error
	c.NoPanic("save", func() {
		if full {
			err = t.SaveFull(&buf)
		} else {
			err = t.Save(&buf)
		}
	})
	if err != nil {
		c.Fail("save", "%v", err)
	}
	c.Ev("saves", 1)
	return buf.Bytes()
}

// stream: several tensors after each other in one stream, with other bytes
// behind them, read back through a reader that returns short reads.
func stream[T types.Number](c *mon.C) {
	r := c.R
	n := r.Range(1, 5)
	var buf bytes.Buffer
	var as []tk.Arr[T]
	var fulls []bool
	var lens []int
	for k := 0; k < n; k++ {
		a := payload[T](r, shape(r))
		full := r.Bool()
		t := source(c, a)
		var err error
		before := buf.Len()
		c.NoPanic("save", func() {
			if full {
				err = t.SaveFull(&buf)
			} else {
				err = t.Save(&buf)
			}
		})
		if err != nil {
			c.Fail("save", "%v", err)
		}
		c.Ev("saves", 1)
		sameBits(c, "save-operand", t, a)
		b := buf.Bytes()[before:]
		if !full && !bytes.Equal(b, wire(a)) {
			c.Fail("format", "Save wrote % x, want % x", clip(b), clip(wire(a)))
		}
		if again := save(c, full, t); !bytes.Equal(b, again) {
			c.Fail("format", "saving twice wrote different bytes")
		}
		as, fulls, lens = append(as, a), append(fulls, full), append(lens, buf.Len())
	}
	c.Desc("%s stream of %d tensors %v full=%v", tk.TypeName[T](), n, shapesOf(as), fulls)
	tailLen := r.Intn(40)
	for k := 0; k < tailLen; k++ {
		buf.WriteByte(byte(r.U64()))
	}
	rd := &tk.Chunked{B: buf.Bytes(), R: r, Max: mon.Pick(r, 0, 1, 2, 3, 7, 64)}
	for k := range as {
		var t tensor.Tensor[T]
		var err error
		if fulls[k] {
			// the target's own shape does not matter
			dst := tk.Ten(tk.Gen[T](r, tk.Shape(r, r.Range(0, 3), 40), tk.Small))
			old := dst.GetShape()
			oldOps := append([]T{}, dst.GetData()...)
			cp := dst.Copy()
			c.NoPanic("loadfull", func() { err = dst.LoadFull(rd) })
			t = dst
			if err == nil {
				sameBits(c, "loadfull-copy", cp, tk.Arr[T]{Shape: old, Data: oldOps})
			}
		} else {
			dst := tensor.NewOnes[T](tk.CloneU(as[k].Shape)...)
			c.NoPanic("load", func() { err = dst.Load(rd) })
			t = dst
		}
		if err != nil {
			c.Fail("load", "tensor %d: %v", k, err)
		}
		c.Ev("loads", 1)
		if rd.Taken != lens[k] {
			c.Fail("consumed", "after tensor %d the stream is at byte %d, want %d", k, rd.Taken, lens[k])
		}
		sameBits(c, "roundtrip", t, as[k])
		// what was loaded is a tensor like any other
		if sz := len(as[k].Data); sz > 0 {
			i := r.Intn(sz)
			if err := t.Set(5, tk.Index(as[k].Shape, i)...); err != nil {
				c.Fail("loaded", "%v", err)
			}
			want := as[k].Clone()
			want.Data[i] = 5
			sameBits(c, "loaded", t, want)
		}
	}
	c.Distinct("%s %v %v", tk.TypeName[T](), shapesOf(as), fulls)
}

func shapesOf[T types.Number](as []tk.Arr[T]) [][]uint {
	var out [][]uint
	for _, a := range as {
		out = append(out, a.Shape)
	}
	return out
}

func clip(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

// faults: a stream that ends or fails, or a writer that fails, at every byte.
func faults[T types.Number](c *mon.C) {
	r := c.R
	a := payload[T](r, tk.Shape(r, r.Range(0, 3), 24))
	full := c.Index%2 == 0
	b := save(c, full, source(c, a))
	c.Desc("%s every truncation of %d bytes, shape %v full=%v", tk.TypeName[T](), len(b), a.Shape, full)
	load := func(t *tensor.TensorMat[T], rd interface{ Read([]byte) (int, error) }) error {
		var err error
		c.NoPanic("truncated", func() {
			if full {
				err = t.LoadFull(rd)
			} else {
				err = t.Load(rd)
			}
		})
		return err
	}
	old := payload[T](r, a.Shape)
	if full {
		old = payload[T](r, tk.Shape(r, r.Range(0, 3), 24))
	}
	mk := func() *tensor.TensorMat[T] { return tk.Ten(old) }
	// failed: a load with the shape leaves the tensor alone, one without it
	// has at most taken over some of the saved elements
	failed := func(t *tensor.TensorMat[T]) {
		if full {
			sameBits[T](c, "failed-load", t, old)
			return
		}
		got := tk.Read[T](c, "failed-load", t)
		if !tk.EqShape(got.Shape, old.Shape) {
			c.Fail("failed-load", "a failed load made the shape %v, it was %v", got.Shape, old.Shape)
		}
		for i, v := range got.Data {
			if bits(v) != bits(old.Data[i]) && bits(v) != bits(a.Data[i]) {
				c.Fail("failed-load", "after a failed load element %v is %v, neither the old %v nor the saved %v", tk.Index(old.Shape, i), v, old.Data[i], a.Data[i])
			}
		}
		c.Eval(1)
	}
	for cut := 0; cut < len(b); cut++ {
		t := mk()
		if err := load(t, &tk.Chunked{B: b[:cut], R: r, Max: mon.Pick(r, 0, 1, 3)}); err == nil {
			c.Fail("truncated", "a stream of %d of %d bytes loaded without error", cut, len(b))
		}
		failed(t)
		t = mk()
		if err := load(t, &tk.FaultyReader{B: b, Left: cut}); err == nil {
			c.Fail("read-fault", "a read error after %d of %d bytes went unnoticed", cut, len(b))
		}
		failed(t)
		c.Ev("faults_injected", 2)
	}
	for left := 0; left < len(b); left++ {
		w := &tk.FaultyWriter{Left: left}
		t := source(c, a)
		var err error
		c.NoPanic("write-fault", func() {
			if full {
				err = t.SaveFull(w)
			} else {
				err = t.Save(w)
			}
		})
		if err == nil {
			c.Fail("write-fault", "a write error after %d of %d bytes went unnoticed", left, len(b))
		}
		if !bytes.Equal(w.Got, b[:left]) {
			c.Fail("write-fault", "bytes before the fault differ")
		}
		sameBits(c, "write-fault", t, a)
		c.Ev("faults_injected", 1)
	}
	// exactly enough room is no fault
	w := &tk.FaultyWriter{Left: len(b)}
	t := tk.Ten(a)
	var err error
	if full {
		err = t.SaveFull(w)
	} else {
		err = t.Save(w)
	}
	if err != nil {
		c.Fail("write-fault", "a writer with room for everything: %v", err)
	}
	c.Distinct("faults %s %v %v", tk.TypeName[T](), a.Shape, full)
}

// damaged: bytes that are no saved tensor, or one with its header changed. What
// the header announces is either there, and then it is loaded, or an error.
func damaged[T types.Number](c *mon.C) {
	r := c.R
	b := save[T](c, true, tk.Ten(payload[T](r, tk.Shape(r, r.Range(0, 4), 24))))
	put := func(at int, v uint64) {
		if at+8 <= len(b) {
			binary.LittleEndian.PutUint64(b[at:], v)
		}
	}
	kind := mon.Pick(r, "rank", "size", "flip", "noise", "product", "insert")
	switch kind {
	case "rank":
		put(0, mon.Pick(r, 1<<63, 1<<62, 1<<61, 1<<45, 1<<31, ^uint64(0), uint64(r.Intn(8)), 1000))
	case "size":
		n := int(binary.LittleEndian.Uint64(b))
		for k := r.Range(1, 2); k > 0; k-- {
			put(8+8*r.Intn(n+1), mon.Pick(r, 0, 1<<63, 1<<62, 1<<40, 1<<33, ^uint64(0), uint64(r.Intn(12))))
		}
	case "flip":
		for k := r.Range(1, 3); k > 0; k-- {
			b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		}
	case "noise":
		b = make([]byte, r.Intn(60))
		for i := range b {
			b[i] = byte(r.U64())
			if r.P(0.6) {
				b[i] = 0
			}
		}
	case "product":
		// sizes whose product does not fit
		sh := mon.Pick(r, []uint64{1 << 32, 1 << 32}, []uint64{1 << 63, 2}, []uint64{3, 1 << 62, 4}, []uint64{1 << 33, 1 << 33, 2},
			[]uint64{0, 1 << 40, 1 << 40}, []uint64{1 << 40, 1 << 40, 0}, []uint64{^uint64(0), ^uint64(0)}, []uint64{1 << 21, 1 << 22, 1 << 21, 5})
		b = make([]byte, 8+8*len(sh)+r.Intn(64))
		put(0, uint64(len(sh)))
		for i, v := range sh {
			put(8+8*i, v)
		}
	default:
		at := r.Intn(len(b))
		b = append(append(append([]byte{}, b[:at]...), byte(r.U64())), b[at:]...)
	}
	c.Desc("%s LoadFull of %d damaged bytes (%s): % x", tk.TypeName[T](), len(b), kind, clip(b))
	// what the bytes announce
	ok, used := false, 0
	var want tk.Arr[T]
	want.Shape = []uint{}
	if len(b) >= 8 {
		n := binary.LittleEndian.Uint64(b)
		if n <= uint64(len(b)-8)/8 {
			total := big.NewInt(1)
			for i := 0; i < int(n); i++ {
				v := binary.LittleEndian.Uint64(b[8+8*i:])
				want.Shape = append(want.Shape, uint(v))
				total.Mul(total, new(big.Int).SetUint64(v))
			}
			var zero T
			w := len(wire(tk.Arr[T]{Shape: []uint{1}, Data: []T{zero}}))
			have := (len(b) - 8 - 8*int(n)) / w
			if total.IsInt64() && total.Int64() <= int64(have) {
				ok = true
				used = 8 + 8*int(n) + w*int(total.Int64())
			}
		}
	}
	old := payload[T](r, tk.Shape(r, r.Range(0, 3), 24))
	t := tk.Ten(old)
	rd := &tk.Chunked{B: b, R: r, Max: mon.Pick(r, 0, 1, 3, 64)}
	var err error
	c.NoPanic("damaged", func() { err = t.LoadFull(rd) })
	c.Ev("damaged_streams", 1)
	if !ok {
		if err == nil {
			c.Fail("damaged", "the stream announces more than it holds and was loaded as shape %v with %d elements", t.GetShape(), t.GetSize())
		}
		sameBits[T](c, "failed-load", t, old)
	} else {
		if err != nil {
			c.Fail("damaged", "the stream holds a tensor of shape %v: %v", want.Shape, err)
		}
		if rd.Taken != used {
			c.Fail("damaged", "%d bytes were consumed, want %d", rd.Taken, used)
		}
		if !tk.EqShape(t.GetShape(), want.Shape) {
			c.Fail("damaged", "loaded as shape %v, want %v", t.GetShape(), want.Shape)
		}
		got := t.GetData()
		at := 8 + 8*len(want.Shape)
		for i := range got {
			one := wire(tk.Arr[T]{Shape: []uint{1}, Data: got[i : i+1]})
			if saved := b[at : at+len(one)]; !bytes.Equal(one, saved) && got[i] == got[i] {
				c.Fail("damaged", "element %d was loaded as %v (% x), stored is % x", i, got[i], one, saved)
			}
			at += len(one)
		}
		if at != used {
			c.Fail("damaged", "%d elements were loaded", len(got))
		}
	}
	c.Distinct("damaged %s %s %v %v", tk.TypeName[T](), kind, want.Shape, ok)
}

// again: repeated save and load into the same objects (a history).
func again[T types.Number](c *mon.C) {
	r := c.R
	sh := shape(r)
	src, dst := tk.Ten(tk.NewArr[T](sh)), tk.Ten(tk.NewArr[T](sh))
	fdst := tensor.NewZeros[T](1)
	c.Desc("%s history of saves and loads of %v", tk.TypeName[T](), sh)
	var prevFull tk.Arr[T]
	for k := r.Range(2, 8); k > 0; k-- {
		a := payload[T](r, sh)
		if err := src.LoadData(a.Data); err != nil {
			c.Fail("again", "%v", err)
		}
		if err := dst.Load(bytes.NewReader(save[T](c, false, src))); err != nil {
			c.Fail("again", "%v", err)
		}
		sameBits[T](c, "again", dst, a)
		old := fdst.Copy()
		if err := fdst.LoadFull(bytes.NewReader(save[T](c, true, src))); err != nil {
			c.Fail("again", "%v", err)
		}
		sameBits[T](c, "again", fdst, a)
		if prevFull.Data != nil {
			sameBits[T](c, "again", old, prevFull)
		}
		prevFull = a
		c.Ev("loads", 2)
		src.FillData(1)
		sameBits[T](c, "again", dst, a)
		sameBits[T](c, "again", fdst, a)
		if r.Bool() {
			sh2 := shape(r)
			b := payload[T](r, sh2)
			if err := fdst.LoadFull(bytes.NewReader(save[T](c, true, tk.Ten(b)))); err != nil {
				c.Fail("again", "%v", err)
			}
			sameBits[T](c, "again", fdst, b)
			prevFull = b
			c.Ev("loads", 1)
		}
	}
	c.Distinct("again %s %v", tk.TypeName[T](), sh)
}

func main() {
	mon.Main(mon.Check{
		ID:          "C09",
		Scale:       10,
		Rule:        "one case = a stream of several saved tensors read back through short reads, a complete sweep of truncation and fault positions of one saved tensor, or a history of saves and loads; distinct by element type, shapes and form",
		Need:        map[string]int64{"saves": 5000, "loads": 5000, "faults_injected": 20000, "damaged_streams": 2000},
		Assumptions: []string{"signalling NaNs are not part of the payloads (moving them through a floating-point register may quieten them)"},
		Groups: []mon.Group{
			{Name: "stream", Quick: 9000, Thorough: 150000, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { stream[float32](c) }, func() { stream[float64](c) }, func() { stream[int](c) },
					func() { stream[int16](c) }, func() { stream[int32](c) }, func() { stream[int64](c) })
			}},
			{Name: "faults", Quick: 1200, Thorough: 12000, Run: func(c *mon.C) {
				tk.ForType(c.Index/2, func() { faults[float32](c) }, func() { faults[float64](c) }, func() { faults[int](c) },
					func() { faults[int16](c) }, func() { faults[int32](c) }, func() { faults[int64](c) })
			}},
			{Name: "damaged", Quick: 4000, Thorough: 100000, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { damaged[float32](c) }, func() { damaged[float64](c) }, func() { damaged[int](c) },
					func() { damaged[int16](c) }, func() { damaged[int32](c) }, func() { damaged[int64](c) })
			}},
			{Name: "again", Quick: 1800, Thorough: 30000, Run: func(c *mon.C) {
				tk.ForType(c.Index, func() { again[float32](c) }, func() { again[float64](c) }, func() { again[int](c) },
					func() { again[int16](c) }, func() { again[int32](c) }, func() { again[int64](c) })
			}},
		},
	})
}
