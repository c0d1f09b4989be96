// C19: frozen layers keep their parameters, the others learn as if nothing was
// frozen.
package main

import (
	"fmt"

	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif/harness/mon"
	"verif/harness/nn"
	"verif/harness/tk"
)

// owner maps every parameter tensor (in the order of Raw) to its layer.
func owner[T types.Number](n *nn.Net[T]) []int {
	var out []int
	for i := range n.Layers {
		w, b := n.Tensors(i)
		if w != nil {
			out = append(out, i)
		}
		if b != nil {
			out = append(out, i)
		}
	}
	return out
}

func run[T types.Number](c *mon.C) {
	r := c.R
	o := nn.Opt{Image: r.Bool(), Pure: nn.AllPure, NeedParam: 2, LastPure: true, MaxSize: 120, Branch: r.P(0.4), Share: r.Bool(), Nest: r.P(0.3), Big: r.P(0.04), Deep: tk.IsFloat[T]() && r.P(0.02)}
	if !tk.IsFloat[T]() {
		o.Acts, o.MaxNodes, o.Pure = nn.IntActs, 4, []string{"flatten", "maxpool", "up", "sub"}
	}
	s := nn.Gen(r, o)
	c.Desc("%s", nn.Describe[T](s))
	net, twin := nn.Make[T](s, r.Bool()), nn.Make[T](s, r.Bool())
	frozen := map[int]bool{}
	hist := ""
	var params []int
	for i, n := range s.Nodes {
		if n.HasParams() {
			params = append(params, i)
		}
	}
	toggle := func() {
		switch r.Intn(4) {
		case 0, 1: // some layers
			for _, i := range params {
				if r.P(0.4) {
					f := r.Bool()
					frozen[i] = f
					i := i
					c.NoPanic("set", func() { net.Layers[i].SetTrainable(!f) })
					hist += fmt.Sprintf("%d:%v ", i, !f)
				}
			}
		default: // the whole model
			f := r.Bool()
			c.NoPanic("set", func() { net.M.SetTrainable(!f) })
			for _, i := range params {
				frozen[i] = f
			}
			hist += fmt.Sprintf("all:%v ", !f)
		}
		c.Ev("freezings", 1)
	}
	// the flag may be set before the model is compiled
	early := r.P(0.4)
	if early {
		toggle()
	}
	net.Compile(c)
	twin.Compile(c)
	net.Calm(c)
	own := owner(net)
	for k := r.Range(2, 7); k > 0; k-- {
		if !early && r.P(0.6) {
			toggle()
		}
		early = false
		before := net.Raw()
		if !nn.Bounded(before) {
			break
		}
		twin.SetRaw(c, before)
		x, t := nn.Sample[T](r, s.InShape()), nn.Sample[T](r, s.OutShape())
		a := T(1)
		if tk.IsFloat[T]() {
			a = T(mon.Pick(r, 0.1, 0.5, 0.02))
		}
		if r.P(0.3) {
			// one epoch over one sample is the same step
			hist += "Train "
			c.NoPanic("train", func() {
				if err := net.M.Train([]tensor.Tensor[T]{tk.Ten(x)}, []tensor.Tensor[T]{tk.Ten(t)}, 1, 1, a, 0); err != nil {
					c.Fail("train", "%v", err)
				}
			})
			c.Ev("training_steps", 1)
		} else {
			hist += "step "
			net.TrainOne(c, x, t, a, 0)
		}
		twin.TrainOne(c, x, t, a, 0)
		after, free := net.Raw(), twin.Raw()
		moved := 0
		for i := range after {
			for j := range after[i] {
				if free[i][j] != before[i][j] {
					moved++
				}
				if frozen[own[i]] && !nn.EqNum(after[i][j], before[i][j]) {
					c.Fail("frozen", "after [%s] frozen layer %d %v changed from %v to %v", hist, own[i], s.Nodes[own[i]], before[i][j], after[i][j])
				}
				if !frozen[own[i]] && !nn.EqNum(after[i][j], free[i][j]) {
					c.Fail("free", "after [%s] layer %d %v is not frozen; a parameter went from %v to %v, without any freezing it goes to %v", hist, own[i], s.Nodes[own[i]], before[i][j], after[i][j], free[i][j])
				}
			}
			if frozen[own[i]] {
				c.Ev("frozen_tensors_observed", 1)
			} else {
				c.Ev("free_tensors_observed", 1)
			}
		}
		if moved > 0 {
			c.Ev("steps_that_move_parameters", 1)
		}
		c.Eval(1)
	}
	c.Distinct("%s %s %s", tk.TypeName[T](), s.String(), hist)
}

func main() {
	mon.Main(mon.Check{
		ID:          "C19",
		Scale:       10,
		Rule:        "one case = one random network (chain or branches) with a random history of freezing and thawing single layers or the whole model between training steps; after every step frozen parameters are compared with before and the others with a twin where nothing was ever frozen; distinct by type, architecture and history",
		Need:        map[string]int64{"freezings": 4000, "frozen_tensors_observed": 10000, "free_tensors_observed": 10000, "steps_that_move_parameters": 4000},
		Assumptions: []string{"zero momentum, so that the twin has no velocity of its own"},
		Groups: []mon.Group{
			{Name: "history", Quick: 4000, Thorough: 80000, Run: func(c *mon.C) {
				switch c.Index % 5 {
				case 0:
					run[float32](c)
				case 1:
					mon.Pick(c.R, run[int], run[int64], run[int32])(c)
				default:
					run[float64](c)
				}
			}},
		},
	})
}
