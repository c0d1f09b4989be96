// Package nn is the reference model of the networks: specifications, a
// slices-and-loops forward and backward pass in float64, a random architecture
// generator and the construction of the same network in the repository.
package nn

import (
	"fmt"
	"math"

	"verif/harness/tk"
)

type A = tk.Arr[float64]

// Act is an activation: formula and derivative, written independently.
type Act struct {
	Name   string
	P1, P2 float64
}

func (a Act) String() string {
	if a.P1 != 0 || a.P2 != 0 {
		return fmt.Sprintf("%s(%g,%g)", a.Name, a.P1, a.P2)
	}
	return a.Name
}

// Kinked activations have a jump in their derivative at 0.
func (a Act) Kinked() bool {
	switch a.Name {
	case "relu", "elu", "selu":
		return true
	}
	return false
}

func (a Act) F(x float64) float64 {
	switch a.Name {
	case "linear":
		return x
	case "relu":
		if x < 0 {
			return a.P1 * x
		}
		return x
	case "elu":
		if x < 0 {
			return a.P1 * math.Expm1(x)
		}
		return x
	case "selu":
		if x < 0 {
			return a.P2 * a.P1 * math.Expm1(x)
		}
		return a.P2 * x
	case "sigmoid":
		return 1 / (1 + math.Exp(-x))
	case "tanh":
		return math.Tanh(x)
	case "sin":
		return math.Sin(x)
	case "swish":
		return x / (1 + math.Exp(-x))
	case "gelu":
		return 0.5 * x * (1 + math.Tanh(math.Sqrt(2/math.Pi)*(x+0.044715*x*x*x)))
	case "square": // user-defined
		return 0.25*x*x + a.P1*x
	}
	panic(a.Name)
}

func (a Act) D(x float64) float64 {
	switch a.Name {
	case "linear":
		return 1
	case "relu":
		if x < 0 {
			return a.P1
		}
		return 1
	case "elu":
		if x < 0 {
			return a.P1 * math.Exp(x)
		}
		return 1
	case "selu":
		if x < 0 {
			return a.P2 * a.P1 * math.Exp(x)
		}
		return a.P2
	case "sigmoid":
		e := 1 / (1 + math.Exp(-x))
		return e * (1 - e)
	case "tanh":
		t := math.Tanh(x)
		return 1 - t*t
	case "sin":
		return math.Cos(x)
	case "swish":
		e := 1 / (1 + math.Exp(-x))
		return e + x*e*(1-e)
	case "gelu":
		k := math.Sqrt(2 / math.Pi)
		t := math.Tanh(k * (x + 0.044715*x*x*x))
		return 0.5*(1+t) + 0.5*x*(1-t*t)*k*(1+3*0.044715*x*x)
	case "square":
		return 0.5*x + a.P1
	}
	panic(a.Name)
}

// Node is one layer of a specification.
type Node struct {
	Kind           string // input indense dense conv deconv flatten maxpool up norm enorm softmax sub concat
	In             []int
	N              uint // dense: outputs; conv, deconv: filters
	Ins            uint // indense: inputs
	KW, KH, SX, SY uint
	Dim, From, To  uint
	Act            Act
	Shape          []uint // of the output
	InShape        []uint // of an input or indense node
}

func (n Node) HasParams() bool {
	switch n.Kind {
	case "dense", "indense", "conv", "deconv":
		return true
	}
	return false
}

func (n Node) String() string {
	s := n.Kind
	switch n.Kind {
	case "dense", "indense":
		s += fmt.Sprintf("(%d %v)", n.N, n.Act)
	case "conv", "deconv":
		s += fmt.Sprintf("(%d k%dx%d s%dx%d %v)", n.N, n.KW, n.KH, n.SX, n.SY, n.Act)
	case "maxpool", "up":
		s += fmt.Sprintf("(%dx%d)", n.SX, n.SY)
	case "sub":
		s += fmt.Sprintf("(%d:%d-%d)", n.Dim, n.From, n.To)
	case "concat":
		s += fmt.Sprintf("(%d)", n.Dim)
	}
	return fmt.Sprintf("%s%v->%v", s, n.In, n.Shape)
}

// Spec is an architecture; node 0 is the input and the last node the output.
type Spec struct {
	Nodes []Node
	// Nest: nodes from..to of a chain are built as a model of their own, which is
	// then used as one layer.
	Nest [][2]int
	// Wrap: others see the node as a model (from the input to the node).
	Wrap map[int]bool
	// Hook, if given, is called whenever an activation is used.
	Hook func()
	// Pool (map[Act]activation.Activation[T]): activations that are shared
	// between networks.
	Pool any
}

// Nested says where a model stands as a layer.
func (s Spec) Nested() string {
	if len(s.Nest) == 0 && len(s.Wrap) == 0 {
		return ""
	}
	return fmt.Sprintf("models as layers %v %v: ", s.Nest, s.Wrap)
}

func (s Spec) String() string {
	out := s.Nested()
	for i, n := range s.Nodes {
		out += fmt.Sprintf("%d:%v ", i, n)
	}
	return out
}

// Key names the architecture without its sizes.
func (s Spec) Key() string {
	out := ""
	for _, n := range s.Nodes {
		out += fmt.Sprintf("%s%v%s ", n.Kind, n.In, n.Act.Name)
	}
	return out
}

// Chain says whether every node has the previous one as its only input.
func (s Spec) Chain() bool {
	for i, n := range s.Nodes {
		if i > 0 && (len(n.In) != 1 || n.In[0] != i-1) {
			return false
		}
	}
	return true
}

// Consumers counts how many nodes read each node (the output counts as read).
func (s Spec) Consumers() []int {
	c := make([]int, len(s.Nodes))
	for _, n := range s.Nodes {
		for _, i := range n.In {
			c[i]++
		}
	}
	c[len(c)-1]++
	return c
}

// ParamShapes are the shapes of weights and bias of a node.
func (s Spec) ParamShapes(i int) (w, b []uint) {
	n := s.Nodes[i]
	switch n.Kind {
	case "indense":
		return []uint{n.N, n.Ins}, []uint{n.N}
	case "dense":
		return []uint{n.N, uint(tk.Size(s.Nodes[n.In[0]].Shape))}, []uint{n.N}
	case "conv", "deconv":
		return []uint{n.N, s.Nodes[n.In[0]].Shape[0], n.KW, n.KH}, tk.CloneU(n.Shape)
	}
	return nil, nil
}

// Params are the parameters of one node.
type Params struct{ W, B A }

func (p Params) Clone() Params { return Params{p.W.Clone(), p.B.Clone()} }

// Val is what a node computed.
type Val struct {
	Neta, Out A
	// Der is the derivative of the nearest activation(s) the output comes from.
	Der A
	Max float64 // norm: largest absolute input
	// Margin is how far the node is from a point where its derivative jumps.
	Margin float64
	// Mag bounds the magnitude of the terms of its sums.
	Mag float64
}

func ones(shape []uint) A {
	a := tk.NewArr[float64](shape)
	for i := range a.Data {
		a.Data[i] = 1
	}
	return a
}

// Forward computes every node for input x.
func (s Spec) Forward(par []Params, x A) []Val {
	vals := make([]Val, len(s.Nodes))
	for i, n := range s.Nodes {
		v := Val{Margin: math.Inf(1)}
		var in Val
		if len(n.In) > 0 {
			in = vals[n.In[0]]
		}
		switch n.Kind {
		case "input":
			v.Out = x.Clone()
			v.Der = ones(x.Shape)
		case "dense", "indense":
			xin := x
			if n.Kind == "dense" {
				xin = in.Out
			}
			w, b := par[i].W, par[i].B
			v.Neta = tk.NewArr[float64](n.Shape)
			k := len(xin.Data)
			for o := range v.Neta.Data {
				sum := b.Data[o]
				mag := math.Abs(sum)
				for j := 0; j < k; j++ {
					t := w.Data[o*k+j] * xin.Data[j]
					sum += t
					mag += math.Abs(t)
				}
				v.Neta.Data[o] = sum
				v.Mag = math.Max(v.Mag, mag)
			}
			v.activate(n.Act)
		case "conv":
			v.Neta = s.conv(n, par[i], in.Out, &v.Mag)
			v.activate(n.Act)
		case "deconv":
			v.Neta = s.deconv(n, par[i], in.Out, &v.Mag)
			v.activate(n.Act)
		case "flatten":
			v.Out = tk.Reshape(in.Out, n.Shape)
			v.Der = tk.Reshape(in.Der, n.Shape)
		case "maxpool":
			v.Out = tk.NewArr[float64](n.Shape)
			v.Der = tk.NewArr[float64](n.Shape)
			for o := range v.Out.Data {
				win := window(n, in.Out.Shape, o)
				best, second := math.Inf(-1), math.Inf(-1)
				for _, k := range win {
					y := in.Out.Data[k]
					if y > best {
						best, second = y, best
					} else if y > second {
						second = y
					}
				}
				v.Margin = math.Min(v.Margin, best-second)
				v.Out.Data[o] = best
				for _, k := range win {
					if in.Out.Data[k] == best {
						v.Der.Data[o] += in.Der.Data[k]
					}
				}
			}
		case "up":
			v.Out = upsample(n, in.Out)
			v.Der = upsample(n, in.Der)
		case "norm", "enorm":
			m := 0.0
			for _, y := range in.Out.Data {
				m = math.Max(m, math.Abs(y))
			}
			v.Max = m
			lo := 0.0
			if n.Kind == "enorm" {
				lo = -1
			}
			v.Out = tk.Map(in.Out, func(y float64) float64 { return y/m*(1-lo) + lo })
			v.Der = in.Der
			v.Margin = m
		case "softmax":
			lo := tk.RMin(in.Out.Data)
			sum := 0.0
			for _, y := range in.Out.Data {
				sum += y - lo
			}
			v.Out = tk.Map(in.Out, func(y float64) float64 { return (y - lo) / sum })
			v.Der = in.Der
			v.Margin = sum
		case "sub":
			v.Out = tk.Slice(in.Out, n.Dim, n.From, n.To, 0)
			v.Der = tk.Slice(in.Der, n.Dim, n.From, n.To, 0)
		case "concat":
			b := vals[n.In[1]]
			v.Out = tk.Concat(in.Out, b.Out, n.Dim)
			v.Der = tk.Concat(in.Der, b.Der, n.Dim)
		default:
			panic(n.Kind)
		}
		if !tk.EqShape(v.Out.Shape, n.Shape) {
			panic(fmt.Sprintf("nn: node %d %v computed %v", i, n, v.Out.Shape))
		}
		vals[i] = v
	}
	return vals
}

func (v *Val) activate(a Act) {
	v.Out = tk.Map(v.Neta, a.F)
	v.Der = tk.Map(v.Neta, a.D)
	if a.Kinked() {
		for _, y := range v.Neta.Data {
			v.Margin = math.Min(v.Margin, math.Abs(y))
		}
	}
}

func (s Spec) conv(n Node, p Params, in A, mag *float64) A {
	o := tk.NewArr[float64](n.Shape)
	for i := range o.Data {
		idx := tk.Index(n.Shape, i)
		f, x, y := idx[0], idx[1], idx[2]
		sum := p.B.Data[i]
		m := math.Abs(sum)
		for c := uint(0); c < in.Shape[0]; c++ {
			for kx := uint(0); kx < n.KW; kx++ {
				for ky := uint(0); ky < n.KH; ky++ {
					t := in.At(c, x*n.SX+kx, y*n.SY+ky) * p.W.At(f, c, kx, ky)
					sum += t
					m += math.Abs(t)
				}
			}
		}
		o.Data[i] = sum
		*mag = math.Max(*mag, m)
	}
	return o
}

func (s Spec) deconv(n Node, p Params, in A, mag *float64) A {
	o := p.B.Clone()
	ms := tk.Map(o, math.Abs)
	for i := range in.Data {
		idx := tk.Index(in.Shape, i)
		c, x, y := idx[0], idx[1], idx[2]
		for f := uint(0); f < n.N; f++ {
			for kx := uint(0); kx < n.KW; kx++ {
				for ky := uint(0); ky < n.KH; ky++ {
					at := tk.Offset(n.Shape, []uint{f, x*n.SX + kx, y*n.SY + ky})
					t := in.Data[i] * p.W.At(f, c, kx, ky)
					o.Data[at] += t
					ms.Data[at] += math.Abs(t)
				}
			}
		}
	}
	for _, m := range ms.Data {
		*mag = math.Max(*mag, m)
	}
	return o
}

// window lists the input positions of one pooled output.
func window(n Node, in []uint, o int) []int {
	idx := tk.Index(n.Shape, o)
	var out []int
	for i := uint(0); i < n.SX; i++ {
		for j := uint(0); j < n.SY; j++ {
			x, y := idx[1]*n.SX+i, idx[2]*n.SY+j
			if x < in[1] && y < in[2] {
				out = append(out, tk.Offset(in, []uint{idx[0], x, y}))
			}
		}
	}
	return out
}

func upsample(n Node, in A) A {
	o := tk.NewArr[float64](n.Shape)
	for i := range o.Data {
		idx := tk.Index(n.Shape, i)
		o.Data[i] = in.At(idx[0], idx[1]/n.SX, idx[2]/n.SY)
	}
	return o
}

// Margin is the smallest margin of all nodes.
func Margin(vals []Val) float64 {
	m := math.Inf(1)
	for _, v := range vals {
		m = math.Min(m, v.Margin)
	}
	return m
}

// Finite says that everything stayed within reasonable bounds.
func Finite(vals []Val, limit float64) bool {
	for _, v := range vals {
		for _, y := range v.Out.Data {
			if !(math.Abs(y) <= limit) {
				return false
			}
		}
		for _, y := range v.Neta.Data {
			if !(math.Abs(y) <= limit) {
				return false
			}
		}
	}
	return true
}

// Loss is the sum of the absolute errors.
func Loss(out, t A) float64 {
	s := 0.0
	for i := range out.Data {
		s += math.Abs(t.Data[i] - out.Data[i])
	}
	return s
}

// Backward gives, for every node with parameters, the descent direction
// (the negative gradient of half the squared error, the derivative of the
// output activation not included), and a bound of the magnitude of its terms.
// mean divides the error of a node by its number of consumers.
func (s Spec) Backward(par []Params, vals []Val, x, t A, mean bool) ([]Params, []float64) {
	last := len(s.Nodes) - 1
	dif := make([]A, len(s.Nodes))
	for i, n := range s.Nodes {
		dif[i] = tk.NewArr[float64](n.Shape)
	}
	for i := range t.Data {
		dif[last].Data[i] = t.Data[i] - vals[last].Out.Data[i]
	}
	cons := s.Consumers()
	g := make([]Params, len(s.Nodes))
	mags := make([]float64, len(s.Nodes))
	for i := last; i >= 0; i-- {
		n := s.Nodes[i]
		d := dif[i]
		if mean && cons[i] > 1 {
			for k := range d.Data {
				d.Data[k] /= float64(cons[i])
			}
		}
		var pd, pder A
		if len(n.In) > 0 {
			pd, pder = dif[n.In[0]], vals[n.In[0]].Der
		}
		switch n.Kind {
		case "input":
		case "dense", "indense":
			xin := x
			if n.Kind == "dense" {
				xin = vals[n.In[0]].Out
			}
			k := len(xin.Data)
			gw := tk.NewArr[float64](par[i].W.Shape)
			for o := range d.Data {
				for j := 0; j < k; j++ {
					gw.Data[o*k+j] = d.Data[o] * xin.Data[j]
					if n.Kind == "dense" {
						pd.Data[j] += d.Data[o] * par[i].W.Data[o*k+j] * pder.Data[j]
					}
				}
			}
			g[i] = Params{gw, d.Clone()}
			for _, y := range gw.Data {
				mags[i] = math.Max(mags[i], math.Abs(y))
			}
		case "conv":
			in := vals[n.In[0]].Out
			gw := tk.NewArr[float64](par[i].W.Shape)
			am := tk.NewArr[float64](par[i].W.Shape)
			for o := range d.Data {
				idx := tk.Index(n.Shape, o)
				for c := uint(0); c < in.Shape[0]; c++ {
					for kx := uint(0); kx < n.KW; kx++ {
						for ky := uint(0); ky < n.KH; ky++ {
							wi := tk.Offset(gw.Shape, []uint{idx[0], c, kx, ky})
							ii := tk.Offset(in.Shape, []uint{c, idx[1]*n.SX + kx, idx[2]*n.SY + ky})
							gw.Data[wi] += d.Data[o] * in.Data[ii]
							am.Data[wi] += math.Abs(d.Data[o] * in.Data[ii])
							pd.Data[ii] += d.Data[o] * par[i].W.Data[wi] * pder.Data[ii]
						}
					}
				}
			}
			g[i] = Params{gw, d.Clone()}
			mags[i] = tk.RMax(am.Data)
		case "deconv":
			in := vals[n.In[0]].Out
			gw := tk.NewArr[float64](par[i].W.Shape)
			am := tk.NewArr[float64](par[i].W.Shape)
			for ii := range in.Data {
				idx := tk.Index(in.Shape, ii)
				for f := uint(0); f < n.N; f++ {
					for kx := uint(0); kx < n.KW; kx++ {
						for ky := uint(0); ky < n.KH; ky++ {
							wi := tk.Offset(gw.Shape, []uint{f, idx[0], kx, ky})
							o := tk.Offset(n.Shape, []uint{f, idx[1]*n.SX + kx, idx[2]*n.SY + ky})
							gw.Data[wi] += d.Data[o] * in.Data[ii]
							am.Data[wi] += math.Abs(d.Data[o] * in.Data[ii])
							pd.Data[ii] += d.Data[o] * par[i].W.Data[wi] * pder.Data[ii]
						}
					}
				}
			}
			g[i] = Params{gw, d.Clone()}
			mags[i] = tk.RMax(am.Data)
		case "flatten", "softmax":
			for k := range d.Data {
				pd.Data[k] += d.Data[k]
			}
		case "norm", "enorm":
			f := 1.0
			if n.Kind == "enorm" {
				f = 2
			}
			for k := range d.Data {
				pd.Data[k] += d.Data[k] * f / vals[i].Max
			}
		case "maxpool":
			in := vals[n.In[0]].Out
			for o := range d.Data {
				for _, k := range window(n, in.Shape, o) {
					if in.Data[k] == vals[i].Out.Data[o] {
						pd.Data[k] += d.Data[o]
					}
				}
			}
		case "up":
			for o := range d.Data {
				idx := tk.Index(n.Shape, o)
				k := tk.Offset(pd.Shape, []uint{idx[0], idx[1] / n.SX, idx[2] / n.SY})
				pd.Data[k] += d.Data[o]
			}
		case "sub":
			for o := range d.Data {
				idx := tk.Index(n.Shape, o)
				idx[n.Dim] += n.From
				pd.Data[tk.Offset(pd.Shape, idx)] += d.Data[o]
			}
		case "concat":
			b := dif[n.In[1]]
			for o := range d.Data {
				idx := tk.Index(n.Shape, o)
				if idx[n.Dim] < pd.Shape[n.Dim] {
					pd.Data[tk.Offset(pd.Shape, idx)] += d.Data[o]
				} else {
					idx[n.Dim] -= pd.Shape[n.Dim]
					b.Data[tk.Offset(b.Shape, idx)] += d.Data[o]
				}
			}
		default:
			panic(n.Kind)
		}
	}
	return g, mags
}
