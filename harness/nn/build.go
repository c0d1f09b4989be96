package nn

import (
	"fmt"
	"math"

	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/tk"
)

// square is a user-defined activation.
type square[T types.Number] struct{ k T }

func (s square[T]) Activate(x T) T { return T(0.25*float64(x)*float64(x)) + s.k*x }
func (s square[T]) Derive(x T) T   { return T(0.5*float64(x)) + s.k }

// MakeAct is the repository's activation.
func MakeAct[T types.Number](a Act) activation.Activation[T] {
	switch a.Name {
	case "linear":
		return &activation.Linear[T]{}
	case "relu":
		return &activation.Relu[T]{Alpha: T(a.P1)}
	case "elu":
		return &activation.ELU[T]{Alpha: T(a.P1)}
	case "selu":
		return &activation.SELU[T]{ELU: activation.ELU[T]{Alpha: T(a.P1)}, Lambda: T(a.P2)}
	case "sigmoid":
		return &activation.Sigmoid[T]{}
	case "tanh":
		return &activation.Tanh[T]{}
	case "sin":
		return &activation.Sin[T]{}
	case "swish":
		return &activation.Swish[T]{}
	case "gelu":
		return &activation.GELU[T]{}
	case "square":
		return square[T]{T(a.P1)}
	}
	panic(a.Name)
}

// hooked calls back on every use of an activation.
type hooked[T types.Number] struct {
	activation.Activation[T]
	f func()
}

func (h hooked[T]) Activate(x T) T { h.f(); return h.Activation.Activate(x) }
func (h hooked[T]) Derive(x T) T   { h.f(); return h.Activation.Derive(x) }

// Net is a network of the repository built after a specification.
type Net[T types.Number] struct {
	held [3]Held[T]

	Spec   Spec
	Layers []layer.Layer[T]
	M      *model.Model[T]
}

func makeLayer[T types.Number](s Spec, n Node, ls []layer.Layer[T]) layer.Layer[T] {
	act := activation.Activation[T](nil)
	if n.HasParams() {
		act = MakeAct[T](n.Act)
		if p, ok := s.Pool.(map[Act]activation.Activation[T]); ok && p[n.Act] != nil {
			act = p[n.Act]
		}
		if s.Hook != nil {
			act = hooked[T]{act, s.Hook}
		}
	}
	switch n.Kind {
	case "input":
		return layer.NewInput[T](tk.CloneU(n.InShape)...)
	case "indense":
		return layer.NewInDense[T](n.Ins, n.N, act)
	case "dense":
		return layer.NewDense[T](n.N, act)
	case "conv":
		if n.KW == n.KH && n.SX == n.SY {
			return layer.NewConv2D[T](n.N, n.KW, n.SX, act)
		}
		return layer.NewConv2Dwh[T](n.N, n.KW, n.KH, n.SX, n.SY, act)
	case "deconv":
		if n.KW == n.KH && n.SX == n.SY {
			return layer.NewDeconv2D[T](n.N, n.KW, n.SX, act)
		}
		return layer.NewDeconv2Dwh[T](n.N, n.KW, n.KH, n.SX, n.SY, act)
	case "flatten":
		return layer.NewFlatten[T]()
	case "maxpool":
		if n.SX == n.SY {
			return layer.NewMaxPool2D[T](n.SX)
		}
		return layer.NewMaxPool2Dxy[T](n.SX, n.SY)
	case "up":
		if n.SX == n.SY {
			return layer.NewUpSampling2D[T](n.SX)
		}
		return layer.NewUpSampling2Dxy[T](n.SX, n.SY)
	case "norm":
		return layer.NewNorm[T]()
	case "enorm":
		return layer.NewENorm[T]()
	case "softmax":
		return layer.NewSoftMax[T]()
	case "sub":
		return layer.NewSubTensor[T](n.Dim, n.From, n.To)
	case "concat":
		return layer.NewConcat[T](ls[n.In[0]], ls[n.In[1]], n.Dim)
	}
	panic(n.Kind)
}

// Make builds the network (not compiled). push: with Push where the
// architecture is a chain.
func Make[T types.Number](s Spec, push bool) *Net[T] {
	net := &Net[T]{Spec: s}
	// seen is what other layers are connected to
	var seen []layer.Layer[T]
	for i, n := range s.Nodes {
		l := makeLayer[T](s, n, seen)
		net.Layers = append(net.Layers, l)
		if s.Wrap[i] {
			m, err := model.FromInOut[T](net.Layers[0], l)
			if err != nil {
				panic(err)
			}
			l = m
		}
		seen = append(seen, l)
	}
	if len(s.Nest) > 0 && s.Chain() {
		net.M = model.NewModel[T]()
		for i := 0; i < len(net.Layers); i++ {
			l := net.Layers[i]
			for _, b := range s.Nest {
				if b[0] == i {
					inner := model.NewModel[T]()
					for ; i <= b[1]; i++ {
						inner.Push(net.Layers[i])
					}
					i--
					l = inner
				}
			}
			net.M.Push(l)
		}
		return net
	}
	if push && s.Chain() && len(s.Wrap) == 0 {
		net.M = model.NewModel[T]()
		for _, l := range net.Layers {
			net.M.Push(l)
		}
		return net
	}
	for i, n := range s.Nodes {
		if len(n.In) == 1 {
			net.Layers[i].Connect(seen[n.In[0]])
		}
	}
	m, err := model.FromInOut[T](net.Layers[0], net.Layers[len(net.Layers)-1])
	if err != nil {
		panic(err)
	}
	net.M = m
	return net
}

// base is the part of a layer that holds its parameters.
func base[T types.Number](l layer.Layer[T]) *layer.Base[T] {
	switch x := l.(type) {
	case *layer.Dense[T]:
		return &x.Base
	case *layer.Conv2D[T]:
		return &x.Base
	case *layer.Deconv2D[T]:
		return &x.Base
	}
	return nil
}

// Tensors are the parameter tensors of a node.
func (n *Net[T]) Tensors(i int) (w, b tensor.Tensor[T]) {
	if x := base(n.Layers[i]); x != nil {
		return x.Weights, x.Bias
	}
	return nil, nil
}

// To64 widens a tensor.
func To64[T types.Number](a tk.Arr[T]) A {
	o := tk.NewArr[float64](a.Shape)
	for i, v := range a.Data {
		o.Data[i] = float64(v)
	}
	return o
}

// From64 narrows a tensor.
func From64[T types.Number](a A) tk.Arr[T] {
	o := tk.NewArr[T](a.Shape)
	for i, v := range a.Data {
		o.Data[i] = T(v)
	}
	return o
}

// Params observes every parameter of the (compiled) network.
func (n *Net[T]) Params(c *mon.C) []Params {
	out := make([]Params, len(n.Layers))
	for i := range n.Layers {
		ws, bs := n.Spec.ParamShapes(i)
		if ws == nil {
			continue
		}
		w, b := n.Tensors(i)
		if w == nil || b == nil {
			c.Fail("params", "layer %d has no parameters after compiling", i)
		}
		pw, pb := tk.Arr[T]{Shape: w.GetShape(), Data: w.GetData()}, tk.Arr[T]{Shape: b.GetShape(), Data: b.GetData()}
		if !tk.EqShape(pw.Shape, ws) || !tk.EqShape(pb.Shape, bs) {
			c.Fail("params", "layer %d %v has weights %v and bias %v, want %v and %v", i, n.Spec.Nodes[i], pw.Shape, pb.Shape, ws, bs)
		}
		out[i] = Params{To64(pw), To64(pb)}
		c.Ev("parameters_observed", len(pw.Data)+len(pb.Data))
	}
	return out
}

// Raw is a bit-exact copy of the parameters.
func (n *Net[T]) Raw() [][]T {
	var out [][]T
	for i := range n.Layers {
		w, b := n.Tensors(i)
		if w != nil {
			out = append(out, w.GetData())
		}
		if b != nil {
			out = append(out, b.GetData())
		}
	}
	return out
}

// SetRaw loads parameters obtained from Raw of a network of the same spec.
func (n *Net[T]) SetRaw(c *mon.C, raw [][]T) {
	k := 0
	for i := range n.Layers {
		w, b := n.Tensors(i)
		for _, t := range []tensor.Tensor[T]{w, b} {
			if t == nil {
				continue
			}
			if err := t.LoadData(raw[k]); err != nil {
				c.Fail("params", "%v", err)
			}
			k++
		}
	}
}

// Calm replaces the initial parameters with ones that keep the activations in a
// moderate range.
func (n *Net[T]) Calm(c *mon.C) {
	for i := range n.Layers {
		w, b := n.Tensors(i)
		if w == nil {
			continue
		}
		sh := w.GetShape()
		fan := float64(tk.Size(sh[1:]))
		k := 1.2 / math.Sqrt(fan)
		dw, db := make([]T, w.GetSize()), make([]T, b.GetSize())
		for j := range dw {
			if tk.IsFloat[T]() {
				dw[j] = T(c.R.Norm() * k)
			} else {
				dw[j] = T(c.R.Range(-2, 2))
			}
		}
		for j := range db {
			if tk.IsFloat[T]() {
				db[j] = T(c.R.Norm() * 0.5)
			} else {
				db[j] = T(c.R.Range(-3, 3))
			}
		}
		if err := w.LoadData(dw); err != nil {
			c.Fail("params", "%v", err)
		}
		if err := b.LoadData(db); err != nil {
			c.Fail("params", "%v", err)
		}
	}
}

// Compile compiles and reports a rejection of a valid architecture.
func (n *Net[T]) Compile(c *mon.C) {
	c.NoPanic("compile", func() {
		if err := n.M.Compile(); err != nil {
			c.Fail("compile", "a valid architecture was rejected: %v", err)
		}
	})
	c.Ev("models_compiled", 1)
}

// Predict runs the model and reads the answer.
func (n *Net[T]) Predict(c *mon.C, x tk.Arr[T]) tk.Arr[T] {
	var out tensor.Tensor[T]
	c.NoPanic("predict", func() {
		var err error
		out, err = n.M.Predict(n.held[0].Ten(x))
		if err != nil {
			c.Fail("predict", "a valid sample was rejected: %v", err)
		}
	})
	c.Ev("predictions", 1)
	return tk.Read[T](c, "predict", out)
}

// Held gives tensors: most of the time the same object as before, filled anew,
// as in a program that fills one tensor with sample after sample.
type Held[T types.Number] struct {
	t     *tensor.TensorMat[T]
	calls int
}

func (h *Held[T]) Ten(a tk.Arr[T]) *tensor.TensorMat[T] {
	h.calls++
	if h.calls%4 == 0 || h.t == nil || !tk.EqShape(h.t.Shape, a.Shape) || len(h.t.Operands) != len(a.Data) {
		h.t = tk.Ten(a)
		return h.t
	}
	for i, o := range h.t.Operands {
		o.Value = a.Data[i]
	}
	return h.t
}

// TrainOne runs one step.
func (n *Net[T]) TrainOne(c *mon.C, x, t tk.Arr[T], alpha, mom T) T {
	var loss T
	c.NoPanic("train", func() {
		var err error
		loss, err = n.M.TrainOne(n.held[mon.Pick(c.R, 0, 1)].Ten(x), n.held[2].Ten(t), alpha, mom)
		if err != nil {
			c.Fail("train", "a valid sample was rejected: %v", err)
		}
	})
	c.Ev("training_steps", 1)
	return loss
}

// InShape and OutShape of the network.
func (s Spec) InShape() []uint  { return s.Nodes[0].InShape }
func (s Spec) OutShape() []uint { return s.Nodes[len(s.Nodes)-1].Shape }

// CheckClose compares an observed tensor with the reference.
func CheckClose[T types.Number](c *mon.C, sig, what string, got tk.Arr[T], want A, mag float64) {
	if !tk.EqShape(got.Shape, want.Shape) {
		c.Fail(sig, "%s has shape %v, want %v", what, got.Shape, want.Shape)
	}
	tol := 0.0
	switch {
	case tk.Eps[T]() > 1e-10:
		tol = 3e-4
	case tk.IsFloat[T]():
		tol = 1e-8
	}
	for i := range want.Data {
		g := float64(got.Data[i])
		s := math.Max(math.Max(1, mag), math.Abs(want.Data[i]))
		if !(math.Abs(g-want.Data[i]) <= tol*s) {
			c.Fail(sig, "%s: element %v is %v, want %v\n got %v\nwant %v", what, tk.Index(want.Shape, i), got.Data[i], want.Data[i], got, want)
		}
	}
	c.Eval(1)
}

func Describe[T types.Number](s Spec) string { return fmt.Sprintf("%s %v", tk.TypeName[T](), s) }

// Hooked calls f on every use of the activation.
func Hooked[T types.Number](a activation.Activation[T], f func()) activation.Activation[T] {
	return hooked[T]{a, f}
}
