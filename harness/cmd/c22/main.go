// C22: images become tensors and back without changing the picture; scaling
// samples the picture where it says.
package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/img"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/nn"
	"verif/harness/tk"
)

// scratch gives a directory of its own to the case.
func scratch(c *mon.C, f func(dir string)) {
	dir, err := os.MkdirTemp("", "verif-img-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	f(dir)
}

func side(r *mon.Rng) int {
	if r.P(0.1) {
		return 1
	}
	if r.P(0.1) {
		return r.Range(20, 45)
	}
	return r.Range(1, 14)
}

// wide sizes: one side is long, sometimes longer than 1000 pixels.
func wide(r *mon.Rng) (int, int) {
	a, b := r.Range(200, mon.Pick(r, 400, 700, 1400)), r.Range(1, 6)
	if r.Bool() {
		return b, a
	}
	return a, b
}

// picture writes a random picture file.
func picture(c *mon.C, dir string, size image.Point) (path string, decoded image.Image, what string) {
	r := c.R
	w, h := side(r), side(r)
	if r.P(0.02) {
		w, h = wide(r)
	}
	if size.X > 0 {
		w, h = size.X, size.Y
	}
	rect := image.Rect(0, 0, w, h)
	kind := c.Index % 13
	var m image.Image
	any8 := func() uint8 {
		return mon.Pick(r, uint8(0), 255, 1, 254, 128, uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256)))
	}
	ext := "png"
	switch kind {
	case 0:
		p := image.NewNRGBA(rect)
		for i := range p.Pix {
			p.Pix[i] = any8()
		}
		m, what = p, "nrgba png"
	case 1:
		p := image.NewNRGBA64(rect)
		for i := range p.Pix {
			p.Pix[i] = any8()
		}
		m, what = p, "16 bit png"
	case 2:
		p := image.NewGray(rect)
		for i := range p.Pix {
			p.Pix[i] = any8()
		}
		m, what = p, "grey png"
	case 3:
		p := image.NewGray16(rect)
		for i := range p.Pix {
			p.Pix[i] = any8()
		}
		m, what = p, "16 bit grey png"
	case 4, 5, 6:
		pal := color.Palette{}
		for k := r.Range(2, 20); k > 0; k-- {
			pal = append(pal, color.RGBA{any8(), any8(), any8(), 255})
		}
		if r.Bool() {
			pal = append(pal, color.RGBA{})
		}
		// 5 and 6: a frame that does not start at the origin
		if kind != 4 {
			rect = rect.Add(image.Pt(r.Intn(6), r.Intn(6)))
		}
		p := image.NewPaletted(rect, pal)
		for i := range p.Pix {
			p.Pix[i] = uint8(r.Intn(len(pal)))
		}
		m, what, ext = p, fmt.Sprintf("gif frame %v", rect), "gif"
	case 7:
		p := image.NewRGBA(rect)
		for x := 0; x < w; x++ {
			for y := 0; y < h; y++ {
				p.Set(x, y, color.RGBA{uint8(x * 5), uint8(y * 5), uint8(r.Intn(60)), 255})
			}
		}
		m, what, ext = p, "jpeg", "jpg"
	case 8:
		p := image.NewGray(rect)
		for i := range p.Pix {
			p.Pix[i] = any8()
		}
		m, what, ext = p, "grey jpeg", "jpg"
	case 9, 10:
		// a palette with any opacity; few colours give fewer bits per pixel
		pal := color.Palette{}
		for k := mon.Pick(r, 2, 4, r.Range(2, 16), r.Range(2, 256)); k > 0; k-- {
			pal = append(pal, color.NRGBA{any8(), any8(), any8(), mon.Pick(r, 255, any8())})
		}
		p := image.NewPaletted(rect, pal)
		for i := range p.Pix {
			p.Pix[i] = uint8(r.Intn(len(pal)))
		}
		m, what = p, fmt.Sprintf("png with %d colours", len(pal))
	case 11:
		p := image.NewRGBA64(rect)
		for i := range p.Pix {
			p.Pix[i] = any8()
			if i%8 >= 6 {
				p.Pix[i] = 255
			}
		}
		m, what = p, "opaque 16 bit png"
	default:
		p := image.NewRGBA(rect)
		for i := 0; i < len(p.Pix); i += 4 {
			p.Pix[i], p.Pix[i+1], p.Pix[i+2], p.Pix[i+3] = any8(), any8(), any8(), 255
		}
		m, what = p, "opaque png"
	}
	path = filepath.Join(dir, "in."+ext)
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	switch ext {
	case "png":
		err = png.Encode(f, m)
	case "jpg":
		err = jpeg.Encode(f, m, &jpeg.Options{Quality: r.Range(30, 100)})
	case "gif":
		p := m.(*image.Paletted)
		frames, delays := []*image.Paletted{p}, []int{0}
		for k := r.Intn(3); k > 0 && r.P(0.3); k-- {
			// an animation is loaded as its first frame
			q := image.NewPaletted(rect, p.Palette)
			for i := range q.Pix {
				q.Pix[i] = uint8(r.Intn(len(p.Palette)))
			}
			frames, delays = append(frames, q), append(delays, 10)
		}
		err = gif.EncodeAll(f, &gif.GIF{Image: frames, Delay: delays,
			Config: image.Config{ColorModel: p.Palette, Width: rect.Max.X + r.Intn(3), Height: rect.Max.Y + r.Intn(3)}})
	}
	if err != nil {
		panic(err)
	}
	f.Close()
	f, err = os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	decoded, _, err = image.Decode(f)
	if err != nil {
		panic(err)
	}
	return path, decoded, fmt.Sprintf("%s %dx%d", what, w, h)
}

// pixels are the colours of the picture, channel, column, row; 0 to 1.
func pixels(m image.Image) tk.Arr[float64] {
	b := m.Bounds()
	a := tk.NewArr[float64]([]uint{4, uint(b.Dx()), uint(b.Dy())})
	for x := 0; x < b.Dx(); x++ {
		for y := 0; y < b.Dy(); y++ {
			r, g, bl, al := m.At(b.Min.X+x, b.Min.Y+y).RGBA()
			for k, v := range []uint32{r, g, bl, al} {
				a.Data[tk.Offset(a.Shape, []uint{uint(k), uint(x), uint(y)})] = float64(v) / 65535
			}
		}
	}
	return a
}

func near[T types.Number](c *mon.C, sig, what string, got tk.Arr[T], want tk.Arr[float64], tol float64) {
	if !tk.EqShape(got.Shape, want.Shape) {
		c.Fail(sig, "%s has shape %v, want %v", what, got.Shape, want.Shape)
	}
	for i := range want.Data {
		if !(math.Abs(float64(got.Data[i])-want.Data[i]) <= tol) {
			c.Fail(sig, "%s: %v is %v, want %v", what, tk.Index(want.Shape, i), got.Data[i], want.Data[i])
		}
	}
	c.Ev("pixels_compared", len(want.Data))
	c.Eval(1)
}

// nearest accepts every source pixel the rule allows: the one whose index is
// the rounded-down source coordinate; where the coordinate is a whole number,
// rounding errors may give the one before.
func nearest[T types.Number](c *mon.C, sig string, got tk.Arr[T], src tk.Arr[float64], w, h uint, tol float64) {
	want := []uint{src.Shape[0], w, h}
	if !tk.EqShape(got.Shape, want) {
		c.Fail(sig, "shape %v, want %v", got.Shape, want)
	}
	pick := func(i, size, n uint) []uint {
		k := i * size / n
		if i*size%n == 0 && k > 0 && size%n != 0 {
			return []uint{k, k - 1}
		}
		return []uint{k}
	}
	for o := range got.Data {
		idx := tk.Index(want, o)
		ok := false
		var ref float64
		for _, x := range pick(idx[1], src.Shape[1], w) {
			for _, y := range pick(idx[2], src.Shape[2], h) {
				ref = src.Data[tk.Offset(src.Shape, []uint{idx[0], x, y})]
				if v := float64(got.Data[o]); math.Abs(v-ref) <= tol || v != v && ref != ref {
					ok = true
				}
			}
		}
		if !ok {
			c.Fail(sig, "scaling %v to %dx%d: %v is %v, want %v", src.Shape, w, h, idx, got.Data[o], ref)
		}
	}
	c.Ev("pixels_compared", len(got.Data))
	c.Eval(1)
}

// bilinear is the interpolated picture; the border continues outwards.
func bilinear(src tk.Arr[float64], w, h uint) tk.Arr[float64] {
	o := tk.NewArr[float64]([]uint{src.Shape[0], w, h})
	split := func(i, size, n uint) (uint, uint, float64) {
		k := i * size / n
		f := float64(i*size%n) / float64(n)
		k2 := k + 1
		if k2 >= size {
			k2 = k
		}
		return k, k2, f
	}
	for i := range o.Data {
		idx := tk.Index(o.Shape, i)
		x0, x1, fx := split(idx[1], src.Shape[1], w)
		y0, y1, fy := split(idx[2], src.Shape[2], h)
		at := func(x, y uint) float64 { return src.Data[tk.Offset(src.Shape, []uint{idx[0], x, y})] }
		o.Data[i] = (at(x0, y0)*(1-fx)+at(x1, y0)*fx)*(1-fy) + (at(x0, y1)*(1-fx)+at(x1, y1)*fx)*fy
	}
	return o
}

func target(r *mon.Rng, size uint) uint {
	switch r.Intn(6) {
	case 0:
		return size
	case 1:
		return size * uint(r.Range(1, 3))
	case 2:
		return (size + 1) / 2
	case 3:
		return 1
	}
	if size < 10 && r.P(0.02) {
		return uint(r.Range(200, 1100))
	}
	return uint(r.Range(1, 30))
}

// load: the three ways to load a file.
func load[T types.Number](c *mon.C) {
	scratch(c, func(dir string) {
		size := loadFrom[T](c, dir, image.Point{})
		if c.R.P(0.3) {
			// another picture under the same name
			if c.R.Bool() {
				size = image.Point{}
			}
			loadFrom[T](c, dir, size)
			c.Ev("files_replaced", 1)
		}
	})
}

func loadFrom[T types.Number](c *mon.C, dir string, size image.Point) image.Point {
	r := c.R
	path, dec, what := picture(c, dir, size)
	src := pixels(dec)
	w, h := target(r, src.Shape[1]), target(r, src.Shape[2])
	c.Desc("%s %s loaded and scaled to %dx%d", tk.TypeName[T](), what, w, h)
	eps := 4 * tk.Eps[T]()
	var t tensor.Tensor[T]
	var err error
	c.NoPanic("load", func() { t, err = img.LoadImage[T](path) })
	if err != nil {
		c.Fail("load", "%v", err)
	}
	near(c, "load", "the loaded picture", tk.Read[T](c, "load", t), src, eps)
	c.NoPanic("load-simple", func() { t, err = img.LoadSimpleScaled[T](path, w, h) })
	if err != nil {
		c.Fail("load-simple", "%v", err)
	}
	nearest(c, "load-simple", tk.Read[T](c, "load", t), src, w, h, eps)
	c.NoPanic("load-smooth", func() { t, err = img.LoadSmoothScaled[T](path, w, h) })
	if err != nil {
		c.Fail("load-smooth", "%v", err)
	}
	near(c, "load-smooth", "the smoothly scaled picture", tk.Read[T](c, "load", t), bilinear(src, w, h), 1.001/65535+eps)
	c.Ev("files_loaded", 3)
	c.Distinct("load %s %s %d %d", tk.TypeName[T](), what, w, h)
	return dec.Bounds().Size()
}

// scale: tensors of any number of channels, also lazy ones.
func scale[T types.Number](c *mon.C) {
	r := c.R
	sh := []uint{uint(r.Range(1, 6)), uint(side(r)), uint(side(r))}
	if r.P(0.02) {
		w, h := wide(r)
		sh = []uint{uint(r.Range(1, 4)), uint(w), uint(h)}
	}
	a := tk.NewArr[T](sh)
	for i := range a.Data {
		if tk.IsFloat[T]() {
			a.Data[i] = T(mon.Pick(r, r.Float(), r.Float(), r.Norm()*10, 0, 1))
		} else {
			a.Data[i] = T(r.Range(-300, 300))
		}
	}
	w, h := target(r, sh[1]), target(r, sh[2])
	c.Desc("%s tensor %v scaled to %dx%d", tk.TypeName[T](), sh, w, h)
	src := nn.To64(a)
	var in tensor.Tensor[T] = tk.Ten(a)
	if r.P(0.3) {
		in = tensor.Reshape[T](tk.Ten(tk.Reshape(a, []uint{uint(len(a.Data))})), sh...)
		g, err := graph.NewGraph[T](in)
		if err != nil {
			c.Fail("setup", "%v", err)
		}
		g.Exec()
	}
	var t tensor.Tensor[T]
	var err error
	c.NoPanic("simple", func() { t, err = img.SimpleScale[T](in, w, h) })
	if err != nil {
		c.Fail("simple", "%v", err)
	}
	nearest(c, "simple", tk.Read[T](c, "simple", t), src, w, h, 0)
	same := w == sh[1] && h == sh[2]
	if same {
		near(c, "identity", "the picture scaled to its own size", tk.Read[T](c, "simple", t), src, 0)
	}
	keep := t
	old := tk.Read[T](c, "simple", keep).Clone()
	c.NoPanic("smooth", func() { t, err = img.SmoothScale[T](in, w, h) })
	if err != nil {
		c.Fail("smooth", "%v", err)
	}
	tol := 1e-10
	if tk.Eps[T]() > 1e-10 {
		tol = 1e-4
	}
	if !tk.IsFloat[T]() {
		tol = 1.0001 // whole numbers, rounded either way
	}
	near(c, "smooth", "the smoothly scaled tensor", tk.Read[T](c, "smooth", t), bilinear(src, w, h), tol)
	if same {
		near(c, "identity", "the picture smoothly scaled to its own size", tk.Read[T](c, "smooth", t), src, 0)
	}
	// the picture itself is as it was, and the results do not share it
	near(c, "operand", "the picture after scaling", tk.Read[T](c, "operand", in), src, 0)
	if err := t.LoadData(make([]T, t.GetSize())); err != nil {
		c.Fail("operand", "%v", err)
	}
	near(c, "operand", "the picture after writing into the result", tk.Read[T](c, "operand", in), src, 0)
	nn.MustData(c, "operand", "the first result after writing into the second", tk.Read[T](c, "operand", keep), old)
	c.Ev("tensors_scaled", 2)
	c.Distinct("scale %s %v %d %d", tk.TypeName[T](), sh, w, h)
}

// save: a tensor saved as a picture and loaded again.
func save[T types.Number](c *mon.C) {
	scratch(c, func(dir string) {
		r := c.R
		w, h := uint(side(r)), uint(side(r))
		if r.P(0.02) {
			lw, lh := wide(r)
			w, h = uint(lw), uint(lh)
		}
		a := tk.NewArr[T]([]uint{4, w, h})
		clear := tk.IsFloat[T]() && r.P(0.4)
		level := func() float64 {
			if !tk.IsFloat[T]() {
				return float64(r.Intn(2))
			}
			return mon.Pick(r, r.Float(), r.Float(), float64(r.Intn(256))/255, 0, 1)
		}
		outside := r.P(0.2)
		for x := uint(0); x < w; x++ {
			for y := uint(0); y < h; y++ {
				al := 1.0
				if clear {
					al = level()
				}
				for k := uint(0); k < 3; k++ {
					v := level() * al
					if outside && r.P(0.2) && !clear {
						// beyond the range: the nearest level
						v = mon.Pick(r, -0.5, -3, 1.5, 7, 1e6, -1e6)
						if !tk.IsFloat[T]() {
							v = mon.Pick(r, -3.0, 2, 9, -1)
						}
					}
					a.Data[tk.Offset(a.Shape, []uint{k, x, y})] = T(v)
				}
				a.Data[tk.Offset(a.Shape, []uint{3, x, y})] = T(al)
			}
		}
		c.Desc("%s picture %dx%d saved, transparent=%v outside=%v", tk.TypeName[T](), w, h, clear, outside)
		in := tk.Ten(a)
		want := tk.NewArr[float64](a.Shape)
		for i, v := range a.Data {
			want.Data[i] = math.Min(1, math.Max(0, float64(v)))
		}
		var m image.Image
		var err error
		c.NoPanic("toimg", func() { m, err = img.ToImg[T](in) })
		if err != nil {
			c.Fail("toimg", "%v", err)
		}
		near(c, "toimg", "the image", pixels(m), want, 0.5001/255+4*tk.Eps[T]())
		path := filepath.Join(dir, "out.png")
		if r.Bool() {
			// an older, larger file is replaced
			if err := os.WriteFile(path, make([]byte, 100000), 0o644); err != nil {
				panic(err)
			}
		}
		c.NoPanic("png", func() { err = img.PngSave[T](in, path) })
		if err != nil {
			c.Fail("png", "%v", err)
		}
		if b, err := os.ReadFile(path); err != nil || !bytes.HasSuffix(b, []byte("IEND\xaeB`\x82")) {
			c.Fail("png-end", "the file does not end where the picture does: %d bytes (%v)", len(b), err)
		}
		var back tensor.Tensor[float64]
		c.NoPanic("png", func() { back, err = img.LoadImage[float64](path) })
		if err != nil {
			c.Fail("png", "%v", err)
		}
		tol := 0.5001/255 + 4*tk.Eps[T]()
		if clear {
			// the file holds the colours divided by the opacity
			tol = 2.0 / 255
		}
		near(c, "png", "the picture saved and loaded", tk.Read[float64](c, "png", back), want, tol)
		nn.MustData(c, "operand", "the tensor after saving", tk.Read[T](c, "operand", in), a)
		c.Ev("files_saved", 1)
		// saving what was loaded gives the same picture
		again := filepath.Join(dir, "again.png")
		if !clear {
			c.NoPanic("png", func() { err = img.PngSave[float64](back, again) })
			if err != nil {
				c.Fail("png", "%v", err)
			}
			var b2 tensor.Tensor[float64]
			c.NoPanic("png", func() { b2, err = img.LoadImage[float64](again) })
			if err != nil {
				c.Fail("png", "%v", err)
			}
			near(c, "png-again", "the picture saved and loaded twice", tk.Read[float64](c, "png", b2), tk.Read[float64](c, "png", back), 1e-12)
		}
		// jpeg: one colour survives
		if r.P(0.5) {
			flat := tk.NewArr[T](a.Shape)
			for k := 0; k < 4; k++ {
				v := level()
				if k == 3 {
					v = 1
				}
				for i := 0; i < int(w*h); i++ {
					flat.Data[k*int(w*h)+i] = T(v)
				}
			}
			jp := filepath.Join(dir, "out.jpg")
			c.NoPanic("jpg", func() { err = img.JpgSave[T](tk.Ten(flat), jp, r.Range(90, 100)) })
			if err != nil {
				c.Fail("jpg", "%v", err)
			}
			var j tensor.Tensor[float64]
			c.NoPanic("jpg", func() { j, err = img.LoadImage[float64](jp) })
			if err != nil {
				c.Fail("jpg", "%v", err)
			}
			near(c, "jpg", "the one-colour jpeg", tk.Read[float64](c, "jpg", j), nn.To64(flat), 0.06)
			c.Ev("files_saved", 1)
		}
		// jpeg: the quality asked for decides how coarse the file is
		if !clear {
			q := r.Range(1, 100)
			jp := filepath.Join(dir, "quality.jpg")
			if r.Bool() {
				if err := os.WriteFile(jp, make([]byte, 100000), 0o644); err != nil {
					panic(err)
				}
			}
			c.NoPanic("jpg", func() { err = img.JpgSave[T](in, jp, q) })
			if err != nil {
				c.Fail("jpg", "%v", err)
			}
			got, err := os.ReadFile(jp)
			if err != nil {
				c.Fail("jpg", "%v", err)
			}
			if !bytes.HasSuffix(got, []byte("\xff\xd9")) {
				c.Fail("jpg-end", "the file does not end where the picture does: %d bytes", len(got))
			}
			var ref bytes.Buffer
			if err := jpeg.Encode(&ref, m, &jpeg.Options{Quality: q}); err != nil {
				panic(err)
			}
			if !bytes.Equal(tables(got), tables(ref.Bytes())) {
				c.Fail("jpg-quality", "a jpeg of quality %d was written with other quantisation tables", q)
			}
			d, err := jpeg.Decode(bytes.NewReader(got))
			if err != nil {
				c.Fail("jpg", "%v", err)
			}
			e, err := jpeg.Decode(&ref)
			if err != nil {
				panic(err)
			}
			x, y := pixels(d), pixels(e)
			if !tk.EqShape(x.Shape, y.Shape) {
				c.Fail("jpg", "a picture of %v was written as one of %v", y.Shape, x.Shape)
			}
			sum := 0.0
			for i := range x.Data {
				sum += math.Abs(x.Data[i] - y.Data[i])
			}
			if !(sum/float64(len(x.Data)) <= 2.0/255) {
				c.Fail("jpg", "a jpeg of quality %d differs from the standard encoding of the same picture by %v on average", q, sum/float64(len(x.Data)))
			}
			c.Ev("files_saved", 1)
		}
		c.Distinct("save %s %d %d %v", tk.TypeName[T](), w, h, clear)
	})
}

// broken: files and tensors that are no pictures.
func broken(c *mon.C) {
	scratch(c, func(dir string) {
		r := c.R
		path, _, what := picture(c, dir, image.Point{})
		data, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		target := path
		kind := mon.Pick(r, "missing", "empty", "text", "cut", "directory", "rank", "channels", "nodir")
		c.Desc("%s: %s", what, kind)
		switch kind {
		case "missing":
			target = filepath.Join(dir, "nothing.png")
		case "empty":
			err = os.WriteFile(path, nil, 0o644)
		case "text":
			err = os.WriteFile(path, []byte("this is no picture"), 0o644)
		case "cut":
			err = os.WriteFile(path, data[:r.Intn(len(data)/3)], 0o644)
		case "directory":
			target = dir
		}
		if err != nil {
			panic(err)
		}
		must := func(name string, f func() (tensor.Tensor[float32], error)) {
			var t tensor.Tensor[float32]
			var err error
			c.NoPanic("broken", func() { t, err = f() })
			if err == nil {
				c.Fail("broken", "%s accepted it (%v)", name, t != nil)
			}
			c.Ev("refused", 1)
			c.Eval(1)
		}
		switch kind {
		case "rank", "channels", "nodir":
			sh := tk.Shape(r, mon.Pick(r, 1, 2, 4, 5), 60)
			if kind == "channels" {
				sh = []uint{uint(r.Range(1, 3)), uint(r.Range(1, 5)), uint(r.Range(1, 5))}
			}
			if kind == "nodir" {
				sh = []uint{4, 2, 3}
			}
			a := tk.Ten(nn.Sample[float32](r, sh))
			p := filepath.Join(dir, "x.png")
			if kind == "nodir" {
				p = filepath.Join(dir, "no", "x.png")
			}
			must("PngSave", func() (tensor.Tensor[float32], error) { return nil, img.PngSave[float32](a, p) })
			must("JpgSave", func() (tensor.Tensor[float32], error) { return nil, img.JpgSave[float32](a, p, 90) })
			if _, err := os.Stat(p); err == nil {
				c.Fail("broken", "a file was left behind for a tensor that is no picture")
			}
			if kind != "nodir" {
				must("ToImg", func() (tensor.Tensor[float32], error) { _, err := img.ToImg[float32](a); return nil, err })
			}
			if kind == "rank" {
				must("SimpleScale", func() (tensor.Tensor[float32], error) { return img.SimpleScale[float32](a, 2, 2) })
				must("SmoothScale", func() (tensor.Tensor[float32], error) { return img.SmoothScale[float32](a, 2, 2) })
			}
		default:
			must("LoadImage", func() (tensor.Tensor[float32], error) { return img.LoadImage[float32](target) })
			must("LoadSimpleScaled", func() (tensor.Tensor[float32], error) { return img.LoadSimpleScaled[float32](target, 3, 3) })
			must("LoadSmoothScaled", func() (tensor.Tensor[float32], error) { return img.LoadSmoothScaled[float32](target, 3, 3) })
		}
		c.Distinct("broken %s %s", kind, what)
	})
}

// openFiles counts the files this process has open.
func openFiles() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	n := 0
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, "/") && !strings.HasPrefix(t, "/dev/") && !strings.HasPrefix(t, "/proc/") {
			n++
		}
	}
	return n
}

// watched: no call leaves a file open.
func watched(run func(c *mon.C)) func(c *mon.C) {
	return func(c *mon.C) {
		before := openFiles()
		run(c)
		if after := openFiles(); before >= 0 && after > before {
			c.Fail("open-files", "%d files are open after the calls, %d before", after, before)
		}
		c.Ev("open_files_watched", 1)
	}
}

// tables gives the quantisation tables of a jpeg file.
func tables(b []byte) (out []byte) {
	for i := 2; i+4 <= len(b) && b[i] == 0xff && b[i+1] != 0xda; {
		n := int(b[i+2])<<8 | int(b[i+3])
		if b[i+1] == 0xdb && i+2+n <= len(b) {
			out = append(out, b[i+4:i+2+n]...)
		}
		i += 2 + n
	}
	return out
}

func main() {
	mon.Main(mon.Check{
		ID:    "C22",
		Scale: 5,
		Rule:  "one case = one random picture file (png of several depths and palettes, gif with and without offset and animated, colour and grey jpeg) loaded three ways, sometimes replaced by another under the same name, one random tensor scaled two ways, one tensor saved and loaded again, or a file or tensor that is no picture; every pixel is compared with the standard decoder and an independent sampling rule; distinct by type, format and sizes",
		Assumptions: []string{
			"where a source coordinate is a whole number, rounding may pick the pixel before it",
			"files of colours with opacity are compared within 2/255, one-colour jpegs within 0.06"},
		Need: map[string]int64{"files_loaded": 3000, "tensors_scaled": 3000, "files_saved": 1000, "refused": 800, "pixels_compared": 100000},
		Groups: []mon.Group{
			{Name: "load", Quick: 2700, Thorough: 27000, Run: watched(func(c *mon.C) {
				nn.ForTypeF(c.Index/13, func() { load[float32](c) }, func() { load[float64](c) })
			})},
			{Name: "scale", Quick: 3000, Thorough: 60000, Run: watched(func(c *mon.C) {
				tk.ForType(c.Index, func() { scale[float32](c) }, func() { scale[float64](c) }, func() { scale[int](c) },
					func() { scale[int16](c) }, func() { scale[int32](c) }, func() { scale[int64](c) })
			})},
			{Name: "save", Quick: 1500, Thorough: 20000, Run: watched(func(c *mon.C) {
				switch c.Index % 5 {
				case 0, 1:
					save[float32](c)
				case 2, 3:
					save[float64](c)
				default:
					save[int](c)
				}
			})},
			{Name: "broken", Quick: 700, Thorough: 7000, Run: watched(broken)},
		},
	})
}
