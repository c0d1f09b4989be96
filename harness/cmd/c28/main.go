// C28: the texts of models, layers and tensors say what they are.
package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/tools"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/nn"
	"verif/harness/tk"
)

var kinds = map[string]string{"input": "Input", "indense": "Dense", "dense": "Dense", "conv": "Conv2D", "deconv": "Deconv2D", "flatten": "Flatten",
	"maxpool": "MaxPool", "up": "UpSampling", "norm": "Norm", "enorm": "Norm", "softmax": "SoftMax", "sub": "SubTensor", "concat": "Concat"}

// line is what one line about a layer says.
type line struct {
	index uint
	reads string
	kind  string
	shape string
}

var (
	number   = regexp.MustCompile(`\d+`)
	layerRe  = regexp.MustCompile(`Layer\[(\d+)\]\s*(?:\(([^)]*)\))?\s*=>\s*(\w+)\s*:.*O(\[[^\]]*\])`)
	bracketR = regexp.MustCompile(`\[[^\[\]]*\]`)
)

func numbers(s string) string { return strings.Join(number.FindAllString(s, -1), " ") }

func shapeText(sh []uint) string {
	var out []string
	for _, s := range sh {
		out = append(out, strconv.FormatUint(uint64(s), 10))
	}
	return strings.Join(out, " ")
}

func parse(c *mon.C, text string) []line {
	var out []line
	for _, l := range strings.Split(text, "\n") {
		if !strings.Contains(l, "Layer[") {
			continue
		}
		m := layerRe.FindStringSubmatch(l)
		if m == nil {
			c.Fail("format", "a line about a layer without index, kind or output shape: %q", l)
		}
		i, _ := strconv.Atoi(m[1])
		out = append(out, line{uint(i), numbers(m[2]), m[3], numbers(m[4])})
	}
	return out
}

// text of a model, of which nothing else may depend.
func text[T types.Number](c *mon.C, m *model.Model[T]) string {
	var s string
	c.NoPanic("text", func() { s = m.String() })
	for k := c.R.Intn(3); k > 0; k-- {
		c.NoPanic("text", func() {
			if again := m.String(); again != s {
				c.Fail("again", "described again:\n%s\nbefore:\n%s", again, s)
			}
		})
	}
	c.Ev("models_described", 1)
	return s
}

// listed compares the lines with the layers that the model is made of: each of
// them once, behind all that it reads.
func listed[T types.Number](c *mon.C, txt string, layers []layer.Layer[T], nodes []nn.Node, reads [][]int) {
	lines := parse(c, txt)
	if len(lines) != len(layers) {
		c.Fail("layers", "%d layers are listed, the model has %d:\n%s", len(lines), len(layers), txt)
	}
	want := map[line]int{}
	for i, l := range layers {
		var in []string
		for _, j := range reads[i] {
			if layers[j].GetIndex() >= l.GetIndex() {
				c.Fail("index", "layer %s has index %d and reads layer %s with index %d", nodes[i], l.GetIndex(), nodes[j], layers[j].GetIndex())
			}
			in = append(in, strconv.FormatUint(uint64(layers[j].GetIndex()), 10))
		}
		w := line{l.GetIndex(), strings.Join(in, " "), kinds[nodes[i].Kind], shapeText(nodes[i].Shape)}
		want[w]++
		// the layer on its own
		var s string
		c.NoPanic("text", func() { s = l.String() })
		one := parse(c, s)
		w.reads = ""
		if len(one) != 1 || one[0] != w {
			c.Fail("layer", "layer %s with index %d describes itself as %q", nodes[i], l.GetIndex(), s)
		}
		c.Ev("layers_described", 1)
	}
	seen := map[uint]bool{}
	for k, l := range lines {
		want[l]--
		if want[l] < 0 {
			c.Fail("layers", "line %d about layer %d (%s, %s, reads %s) is about no layer of the model or stands there twice:\n%s", k, l.index, l.kind, l.shape, l.reads, txt)
		}
		for _, r := range strings.Fields(l.reads) {
			i, _ := strconv.Atoi(r)
			if !seen[uint(i)] {
				c.Fail("order", "layer %d stands before layer %d, which it reads:\n%s", l.index, i, txt)
			}
		}
		seen[l.index] = true
	}
	c.Eval(1)
}

func reads(s nn.Spec) [][]int {
	var out [][]int
	for _, n := range s.Nodes {
		out = append(out, n.In)
	}
	return out
}

func arch[T types.Number](r *mon.Rng, in []uint) nn.Spec {
	o := nn.Opt{Image: r.Bool(), Pure: nn.AllPure, LastPure: true, MaxSize: 120, Branch: r.P(0.6), Share: r.P(0.7), Nest: r.P(0.3), In: in}
	if in != nil {
		o.Image = o.Image && len(in) == 3
	}
	if !tk.IsFloat[T]() {
		o.Acts, o.MaxNodes, o.Pure = nn.IntActs, 3, []string{"flatten", "maxpool", "up", "sub"}
	}
	return nn.Gen(r, o)
}

func models[T types.Number](c *mon.C) {
	r := c.R
	s := arch[T](r, nil)
	c.Desc("text of %s", nn.Describe[T](s))
	net, twin := nn.Make[T](s, r.Bool()), nn.Make[T](s, r.Bool())
	net.Compile(c)
	twin.Compile(c)
	net.Calm(c)
	twin.SetRaw(c, net.Raw())
	first := text(c, net.M)
	listed(c, first, net.Layers, s.Nodes, reads(s))
	// describing is no event: next to a model that is never described
	for k := r.Range(1, 3); k > 0; k-- {
		x := nn.Sample[T](r, s.InShape())
		nn.MustData(c, "predict", "the prediction after describing the model", net.Predict(c, x), twin.Predict(c, x))
		if r.P(0.5) {
			a := T(1)
			if tk.IsFloat[T]() {
				a = T(mon.Pick(r, 0.05, 0.01))
			}
			t := nn.Sample[T](r, s.OutShape())
			net.TrainOne(c, x, t, a, 0)
			twin.TrainOne(c, x, t, a, 0)
		}
		nn.MustRaw(c, "params", "parameters after describing the model", net.Raw(), twin.Raw())
		if now := text(c, net.M); now != first {
			c.Fail("again", "after predictions and steps the model is described as\n%s\nbefore:\n%s", now, first)
		}
	}
	c.Distinct("%s %s", tk.TypeName[T](), s.String())
}

// deep: a chain of very many layers.
func deep[T types.Number](c *mon.C) {
	r := c.R
	in := uint(r.Range(1, 3))
	s := nn.Spec{Nodes: []nn.Node{{Kind: "input", InShape: []uint{in}, Shape: []uint{in}}}}
	n := r.Range(60, 700)
	for i := 1; i <= n; i++ {
		d := nn.Node{Kind: "flatten", In: []int{i - 1}, Shape: s.Nodes[i-1].Shape}
		if r.Bool() {
			k := uint(r.Range(1, 3))
			d = nn.Node{Kind: "dense", In: []int{i - 1}, N: k, Act: nn.Act{Name: "linear"}, Shape: []uint{k}}
		}
		s.Nodes = append(s.Nodes, d)
	}
	c.Desc("text of a chain of %d layers, %s", n, tk.TypeName[T]())
	net := nn.Make[T](s, r.Bool())
	net.Compile(c)
	listed(c, text(c, net.M), net.Layers, s.Nodes, reads(s))
	c.Distinct("deep %s %d", tk.TypeName[T](), n)
}

// composed: models behind each other; the text of the composition lists all
// the layers of all parts, and so does that of the last part.
func composed[T types.Number](c *mon.C) {
	r := c.R
	n := r.Range(2, mon.Pick(r, 3, 3, 6))
	var layers []layer.Layer[T]
	var nodes []nn.Node
	var rd [][]int
	var ms []*model.Model[T]
	var in []uint
	desc := ""
	for i := 0; i < n; i++ {
		s := arch[T](r, in)
		s.Nest, s.Wrap = nil, nil
		in = s.OutShape()
		net := nn.Make[T](s, r.Bool())
		base := len(layers)
		for k, nd := range s.Nodes {
			var js []int
			for _, j := range nd.In {
				js = append(js, base+j)
			}
			if k == 0 && i > 0 {
				js = []int{base - 1}
			}
			rd = append(rd, js)
		}
		layers, nodes, ms = append(layers, net.Layers...), append(nodes, s.Nodes...), append(ms, net.M)
		desc += s.String() + " | "
	}
	c.Desc("text of %s composed of %s", tk.TypeName[T](), desc)
	var m *model.Model[T]
	c.NoPanic("compose", func() {
		var err error
		if m, err = model.FromModels[T](ms...); err != nil {
			c.Fail("compose", "%v", err)
		}
	})
	// text of the parts in between
	k := r.Intn(n)
	text(c, ms[k])
	listed(c, text(c, m), layers, nodes, rd)
	c.Distinct("composed %s %s", tk.TypeName[T](), desc)
}

func value[T types.Number](s string) (T, bool) {
	var v T
	switch p := any(&v).(type) {
	case *float32:
		f, err := strconv.ParseFloat(s, 32)
		*p = float32(f)
		return v, err == nil
	case *float64:
		f, err := strconv.ParseFloat(s, 64)
		*p = f
		return v, err == nil
	}
	i, err := strconv.ParseInt(s, 10, 64)
	return T(i), err == nil && int64(T(i)) == i
}

// tensors: rank, size, shape and every element, so that two different tensors
// have different texts.
func tensors[T types.Number](c *mon.C) {
	r := c.R
	sh := tk.AnyShape(r)
	if tk.Size(sh) > 300 {
		sh = tk.Shape(r, r.Range(0, 4), 100)
	}
	if r.P(0.01) {
		// long texts are complete as well
		sh = mon.Pick(r, []uint{uint(r.Range(300, 9000))}, []uint{uint(r.Range(2, 60)), uint(r.Range(2, 200))}, []uint{uint(r.Range(2, 12)), 1, uint(r.Range(20, 40)), uint(r.Range(2, 9))})
	}
	a := tk.Gen[T](r, sh, tk.Special)
	c.Desc("text of a tensor %s of shape %v", tk.TypeName[T](), sh)
	var t tensor.Tensor[T] = tk.Ten(a)
	if r.P(0.3) {
		t = tensor.Reshape[T](tk.Ten(tk.Reshape(a, []uint{uint(len(a.Data))})), tk.CloneU(sh)...)
		g, err := graph.NewGraph[T](t)
		if err != nil {
			c.Fail("graph", "%v", err)
		}
		g.Exec()
	}
	// described, written to, described again
	for round := 0; round < 2; round++ {
		var s string
		c.NoPanic("tensor", func() { s = fmt.Sprint(t) })
		c.Ev("tensors_described", 1)
		bs := bracketR.FindAllString(s, -1)
		if len(bs) != 2 {
			c.Fail("tensor", "no shape and elements in %q", s)
		}
		if numbers(bs[0]) != shapeText(sh) {
			c.Fail("tensor", "the shape %v is shown as %s", sh, bs[0])
		}
		head := numbers(s[:strings.Index(s, bs[0])])
		if want := fmt.Sprintf("%d %d", len(sh), len(a.Data)); head != want {
			c.Fail("tensor", "rank and size are shown as %q, want %s: %.80s", head, want, s)
		}
		els := strings.FieldsFunc(strings.Trim(bs[1], "[]"), func(x rune) bool { return x == ',' || x == ' ' })
		if len(els) != len(a.Data) {
			c.Fail("tensor", "%d elements are shown, the tensor has %d", len(els), len(a.Data))
		}
		for i, e := range els {
			v, ok := value[T](e)
			w := a.Data[i]
			if !ok || !(v == w && math.Signbit(float64(v)) == math.Signbit(float64(w)) || v != v && w != w) {
				c.Fail("tensor", "element %v is shown as %q, it is %v", tk.Index(sh, i), e, w)
			}
		}
		if got := tools.ShapeStr(sh); numbers(got) != shapeText(sh) {
			c.Fail("shape", "the shape %v is written %q", sh, got)
		}
		back := tk.Read[T](c, "tensor", t)
		for i := range back.Data {
			if !nn.EqNum(back.Data[i], a.Data[i]) {
				c.Fail("tensor", "describing changed element %d", i)
			}
		}
		c.Eval(len(els))
		for i := range a.Data {
			if round == 0 && (len(a.Data) < 3 || r.Bool()) {
				a.Data[i] = tk.Val[T](r, tk.Special)
			}
		}
		if err := t.LoadData(a.Data); err != nil {
			c.Fail("tensor", "own data refused: %v", err)
		}
	}
	c.Distinct("tensor %s %v", tk.TypeName[T](), sh)
}

// bar: a progress bar has the width it is given and a part of it, growing with
// the progress, is filled.
func bar(c *mon.C) {
	size := c.R.Range(-3, mon.Pick(c.R, 20, 200, 1500))
	last, steps := -1, c.R.Range(1, 60)
	c.Desc("bars of width %d in %d steps", size, steps)
	for k := 0; k <= steps; k++ {
		var s string
		c.NoPanic("bar", func() { s = tools.Bar(float64(k)/float64(steps), size) })
		if size <= 0 && s != "" || size > 0 && len(s) != size {
			c.Fail("bar", "a bar of width %d is %q", size, s)
		}
		if size < 4 {
			continue
		}
		full := strings.Count(s, "#")
		if full < last || k == 0 && full != 0 || k == steps && full != size-2 {
			c.Fail("bar", "at step %d of %d a bar of width %d has %d cells filled (%d before)", k, steps, size, full, last)
		}
		if want := float64(size-2) * float64(k) / float64(steps); math.Abs(want-float64(full)) > 1 {
			c.Fail("bar", "at step %d of %d a bar of width %d has %d cells filled", k, steps, size, full)
		}
		last = full
	}
	c.Ev("bars", steps)
	c.Eval(steps)
	c.Distinct("bar %d %d", size, steps)
}

func six(c *mon.C, f32, f64, i, i16, i32, i64 func(*mon.C)) {
	tk.ForType(c.Index, func() { f32(c) }, func() { f64(c) }, func() { i(c) }, func() { i16(c) }, func() { i32(c) }, func() { i64(c) })
}

func main() {
	mon.Main(mon.Check{
		ID:          "C28",
		Scale:       5,
		Rule:        "one case = the texts of one random model (chains, branches, shared and nested layers), of a composition, of one tensor or of a series of progress bars, parsed and compared with what they describe; distinct by element type and architecture or shape",
		Need:        map[string]int64{"models_described": 5000, "layers_described": 9000, "tensors_described": 2000, "bars": 1000},
		Assumptions: []string{"models are compiled before they are described"},
		Groups: []mon.Group{
			{Name: "model", Quick: 2500, Thorough: 60000, Run: func(c *mon.C) {
				six(c, models[float32], models[float64], models[int], models[int16], models[int32], models[int64])
			}},
			{Name: "deep", Quick: 12, Thorough: 120, Run: func(c *mon.C) {
				six(c, deep[float32], deep[float64], deep[int], deep[int16], deep[int32], deep[int64])
			}},
			{Name: "composed", Quick: 1000, Thorough: 20000, Run: func(c *mon.C) {
				six(c, composed[float32], composed[float64], composed[int], composed[int16], composed[int32], composed[int64])
			}},
			{Name: "tensor", Quick: 2500, Thorough: 60000, Run: func(c *mon.C) {
				six(c, tensors[float32], tensors[float64], tensors[int], tensors[int16], tensors[int32], tensors[int64])
			}},
			{Name: "bar", Quick: 300, Thorough: 5000, Run: bar},
		},
	})
}
