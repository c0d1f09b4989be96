package nn

import (
	"verif/harness/mon"
	"verif/harness/tk"
)

// Opt steers the architecture generator.
type Opt struct {
	// Kinds of parameterless layers that may appear.
	Pure []string
	// Image: conv and deconv layers may appear.
	Image bool
	// Branch: concats over branches of a shared input may appear.
	Branch bool
	// Acts that may appear.
	Acts []Act
	// MaxNodes bounds the length of the chain.
	MaxNodes int
	// MaxSize bounds the size of every layer.
	MaxSize int
	// NeedParam: at least this many layers with parameters.
	NeedParam int
	// LastPure: may end in a parameterless layer.
	LastPure bool
	// Share: inner layers may have several readers (their outputs are then used
	// twice; not for properties about gradients).
	Share bool
	// Once: the output holds no node twice.
	Once bool
	// In is the shape of the input, if given.
	In []uint
	// Nest: some of the layers are models.
	Nest bool
	// Big: few layers, some of their sizes far larger than usual.
	Big bool
	// Deep: very many small layers.
	Deep bool
}

var AllActs = []Act{{Name: "linear"}, {Name: "relu"}, {Name: "relu", P1: 0.1}, {Name: "elu", P1: 0.7}, {Name: "elu", P1: 1}, {Name: "selu", P1: 1.67326, P2: 1.0507},
	{Name: "sigmoid"}, {Name: "tanh"}, {Name: "sin"}, {Name: "swish"}, {Name: "gelu"}, {Name: "square", P1: 0.4}}

var IntActs = []Act{{Name: "linear"}, {Name: "relu"}, {Name: "relu", P1: 2}}

// AllPure are the parameterless layers.
var AllPure = []string{"flatten", "maxpool", "up", "norm", "enorm", "softmax", "sub"}

type gen struct {
	r *mon.Rng
	o Opt
	s Spec
}

func (g *gen) add(n Node) int {
	g.s.Nodes = append(g.s.Nodes, n)
	return len(g.s.Nodes) - 1
}

func (g *gen) act() Act { return g.o.Acts[g.r.Intn(len(g.o.Acts))] }

func lesser(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func small(r *mon.Rng, lo, hi int) uint { return uint(r.Range(lo, hi)) }

// sz draws a size, now and then a large one if the architecture may be big.
func (g *gen) sz(lo, hi, big int) uint {
	if g.o.Big && big > hi && g.r.P(0.35) {
		return uint(g.r.Range(hi+1, big))
	}
	return uint(g.r.Range(lo, hi))
}

// pure adds a parameterless layer behind node i, or returns i if none fits.
func (g *gen) pure(i int, kind string) int {
	r := g.r
	sh := g.s.Nodes[i].Shape
	n := Node{Kind: kind, In: []int{i}}
	switch kind {
	case "flatten":
		n.Shape = []uint{uint(tk.Size(sh))}
	case "norm", "enorm":
		n.Shape = tk.CloneU(sh)
	case "softmax":
		if tk.Size(sh) < 2 {
			return i
		}
		n.Shape = tk.CloneU(sh)
	case "sub":
		if len(sh) == 0 {
			return i
		}
		n.Dim = uint(r.Intn(len(sh)))
		n.From = uint(r.Intn(int(sh[n.Dim])))
		n.To = n.From + uint(r.Range(1, int(sh[n.Dim]-n.From)))
		n.Shape = tk.CloneU(sh)
		n.Shape[n.Dim] = n.To - n.From
	case "maxpool":
		if len(sh) != 3 {
			return i
		}
		n.SX, n.SY = g.sz(1, 3, 9), g.sz(1, 3, 9)
		if r.P(0.4) {
			n.SY = n.SX
		}
		if r.P(0.1) {
			n.SX = sh[1] + small(r, 0, 2)
		}
		n.Shape = []uint{sh[0], (sh[1] + n.SX - 1) / n.SX, (sh[2] + n.SY - 1) / n.SY}
	case "up":
		if len(sh) != 3 {
			return i
		}
		n.SX, n.SY = g.sz(1, 3, 9), g.sz(1, 3, 9)
		if r.P(0.4) {
			n.SY = n.SX
		}
		n.Shape = []uint{sh[0], sh[1] * n.SX, sh[2] * n.SY}
		if tk.Size(n.Shape) > g.o.MaxSize {
			return i
		}
	}
	return g.add(n)
}

// param adds a layer with parameters behind node i.
func (g *gen) param(i int) int {
	r := g.r
	sh := g.s.Nodes[i].Shape
	if g.o.Image && len(sh) == 3 && r.P(0.85) {
		if r.P(0.6) {
			n := Node{Kind: "conv", In: []int{i}, N: g.sz(1, 3, 40), Act: g.act()}
			n.KW, n.KH = g.sz(1, lesser(4, int(sh[1])), lesser(12, int(sh[1]))), g.sz(1, lesser(4, int(sh[2])), lesser(12, int(sh[2])))
			n.SX, n.SY = g.sz(1, 3, 9), g.sz(1, 3, 9)
			if r.P(0.3) && n.KW <= sh[2] {
				n.KH, n.SY = n.KW, n.SX
			}
			n.Shape = []uint{n.N, (sh[1]-n.KW)/n.SX + 1, (sh[2]-n.KH)/n.SY + 1}
			return g.add(n)
		}
		n := Node{Kind: "deconv", In: []int{i}, N: g.sz(1, 3, 40), Act: g.act()}
		n.KW, n.KH = g.sz(1, 3, 8), g.sz(1, 3, 8)
		n.SX, n.SY = g.sz(1, 3, 9), g.sz(1, 3, 9)
		if r.P(0.3) {
			n.KH, n.SY = n.KW, n.SX
		}
		n.Shape = []uint{n.N, (sh[1]-1)*n.SX + n.KW, (sh[2]-1)*n.SY + n.KH}
		if tk.Size(n.Shape) <= g.o.MaxSize {
			return g.add(n)
		}
	}
	n := Node{Kind: "dense", In: []int{i}, N: g.sz(1, 6, 150), Act: g.act()}
	if r.P(0.05) {
		n.N = small(r, 7, 40)
	}
	n.Shape = []uint{n.N}
	return g.add(n)
}

// grow adds layers behind i.
func (g *gen) grow(i, n int) int {
	for k := 0; k < n; k++ {
		if len(g.o.Pure) > 0 && g.r.P(0.5) {
			i = g.pure(i, g.o.Pure[g.r.Intn(len(g.o.Pure))])
		} else {
			i = g.param(i)
		}
	}
	return i
}

// join concatenates two branches that start at node i.
func (g *gen) join(i, depth int) int {
	r := g.r
	branch := func() int {
		if depth > 0 && r.P(0.3) {
			// a nested join; its branches start at the input as well
			return g.grow(g.join(i, depth-1), r.Range(0, 1))
		}
		return g.grow(i, r.Range(0, 2))
	}
	a, b := branch(), branch()
	// the branches must differ and nothing with parameters may be shared
	for a == b || a == i && b == i {
		b = g.param(i)
	}
	sa, sb := g.s.Nodes[a].Shape, g.s.Nodes[b].Shape
	// make the shapes fit: cut both to the common size except along d
	if len(sa) != len(sb) || r.P(0.3) {
		if len(sa) != 1 {
			if g.has("flatten") && r.Bool() {
				a = g.pure(a, "flatten")
			} else {
				a = g.dense(a)
			}
		}
		if len(sb) != 1 {
			b = g.dense(b)
		}
		sa, sb = g.s.Nodes[a].Shape, g.s.Nodes[b].Shape
	}
	d := uint(r.Intn(len(sa)))
	for k := range sa {
		if uint(k) == d || g.s.Nodes[a].Shape[k] == g.s.Nodes[b].Shape[k] {
			continue
		}
		x := &a
		lim := g.s.Nodes[b].Shape[k]
		if g.s.Nodes[a].Shape[k] < g.s.Nodes[b].Shape[k] {
			x, lim = &b, g.s.Nodes[a].Shape[k]
		}
		sh := tk.CloneU(g.s.Nodes[*x].Shape)
		from := uint(r.Intn(int(sh[k]-lim) + 1))
		sh[k] = lim
		*x = g.add(Node{Kind: "sub", In: []int{*x}, Dim: uint(k), From: from, To: from + lim, Shape: sh})
	}
	sh := tk.CloneU(g.s.Nodes[a].Shape)
	sh[d] += g.s.Nodes[b].Shape[d]
	return g.add(Node{Kind: "concat", In: []int{a, b}, Dim: d, Shape: sh})
}

func (g *gen) has(kind string) bool {
	for _, k := range g.o.Pure {
		if k == kind {
			return true
		}
	}
	return false
}

func (g *gen) dense(i int) int {
	n := Node{Kind: "dense", In: []int{i}, N: small(g.r, 1, 5), Act: g.act()}
	n.Shape = []uint{n.N}
	return g.add(n)
}

// Gen draws an architecture.
func Gen(r *mon.Rng, o Opt) Spec {
	if o.MaxNodes == 0 {
		o.MaxNodes = 5
	}
	if o.MaxSize == 0 {
		o.MaxSize = 160
	}
	if o.Acts == nil {
		o.Acts = AllActs
	}
	if o.Big {
		o.MaxSize, o.MaxNodes = 1000, lesser(o.MaxNodes, 3)
	}
	if o.Deep {
		o.Big, o.MaxSize, o.MaxNodes = false, 150, 60
	}
	for {
		g := &gen{r: r, o: o}
		var in []uint
		switch {
		case o.Image && r.P(0.9):
			in = []uint{g.sz(1, 3, 40), g.sz(1, 7, 20), g.sz(1, 7, 20)}
		default:
			in = tk.Shape(r, r.Range(1, 3), 24)
			if o.Big {
				in = tk.Shape(r, r.Range(1, 4), 600)
			}
		}
		if o.In != nil {
			in = tk.CloneU(o.In)
		}
		cur := 0
		if o.In == nil && !o.Branch && !o.Image && r.P(0.3) {
			n := Node{Kind: "indense", Ins: g.sz(1, 8, 400), N: g.sz(1, 6, 100), Act: g.act()}
			n.InShape, n.Shape = []uint{n.Ins}, []uint{n.N}
			cur = g.add(n)
		} else {
			cur = g.add(Node{Kind: "input", InShape: in, Shape: tk.CloneU(in)})
		}
		if o.Branch {
			if o.Share && r.P(0.6) {
				cur = g.grow(cur, r.Range(1, 2))
			}
			cur = g.join(cur, 2)
			if o.Share && r.P(0.25) {
				// the joined value is itself read by several layers
				cur = g.join(cur, 0)
			}
			cur = g.grow(cur, r.Range(0, 2))
		} else {
			n := r.Range(1, o.MaxNodes)
			if o.Deep {
				n = r.Range(20, 60)
			}
			cur = g.grow(cur, n)
		}
		if !o.LastPure && !g.s.Nodes[cur].HasParams() {
			cur = g.param(cur)
		}
		if g.ok(cur) {
			if o.Nest {
				g.nest()
			}
			return g.s
		}
	}
}

// nest turns parts of the network into models that are used as layers.
func (g *gen) nest() {
	r, n := g.r, len(g.s.Nodes)
	if g.s.Chain() && r.P(0.7) {
		for i := r.Intn(2); i < n; {
			j := i + r.Intn(3)
			if j >= n {
				j = n - 1
			}
			if r.P(0.6) {
				g.s.Nest = append(g.s.Nest, [2]int{i, j})
			}
			i = j + 1
		}
		return
	}
	g.s.Wrap = map[int]bool{}
	for i := 0; i < n; i++ {
		if r.P(0.4) {
			g.s.Wrap[i] = true
		}
	}
}

// ok: the last node is the output, everything is used, sizes are bounded and no
// node with parameters before it has two readers.
func (g *gen) ok(cur int) bool {
	if cur != len(g.s.Nodes)-1 {
		return false
	}
	params := 0
	cons := g.s.Consumers()
	for i, n := range g.s.Nodes {
		if n.HasParams() {
			params++
		}
		if tk.Size(n.Shape) > g.o.MaxSize || cons[i] == 0 {
			return false
		}
		if g.o.Big && (n.Kind == "conv" || n.Kind == "deconv") {
			in := g.s.Nodes[n.In[0]].Shape
			at := n.Shape[1] * n.Shape[2]
			if n.Kind == "deconv" {
				at = in[1] * in[2]
			}
			if n.N*in[0]*n.KW*n.KH*at > 60000 {
				return false
			}
		}
		if i > 0 && cons[i] > 1 && !g.o.Share {
			return false
		}
	}
	if g.o.Share && !g.o.Once {
		return params >= g.o.NeedParam
	}
	// an output joined only by concatenations and softmax that holds one node twice is a
	// recorded finding (the two copies share their error)
	if twice(g.s, cur, map[int]int{}) {
		return false
	}
	return params >= g.o.NeedParam
}

func twice(s Spec, i int, seen map[int]int) bool {
	switch s.Nodes[i].Kind {
	case "concat":
	case "softmax":
		return twice(s, s.Nodes[i].In[0], seen)
	default:
		seen[i]++
		return seen[i] > 1
	}
	return twice(s, s.Nodes[i].In[0], seen) || twice(s, s.Nodes[i].In[1], seen)
}
