//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"

	"github.com/GottfriedHerold/Bandersnatch/internal/stack"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

type big3 struct {
	a [3]int
	s string
}

type stOp struct {
	Op       string
	Pos, Val int
}

// every value is an integer on the model's side
func runStack[T any](ep *zz.Ep, ops []stOp, mk func(int) T, rd func(T) int, ptr bool) {
	var st *stack.Stack[T]
	if ptr {
		st = stack.NewStack[T]()
	} else {
		s := stack.MakeStack[T]()
		st = &s
	}
	var given []T    // values handed out
	var givenVal []int
	for _, o := range ops {
		ev := M{"pos": o.Pos, "val": o.Val, "got": 0}
		ev["out"] = zz.Outcome(func() {
			switch o.Op {
			case "Push":
				x := mk(o.Val)
				st.Push(x)
			case "PushPtr":
				x := mk(o.Val)
				st.PushPtr(&x)
				x = mk(-77) // the stack must hold a copy
			case "Pop":
				x := st.Pop()
				given = append(given, x)
				givenVal = append(givenVal, rd(x))
				ev["got"] = rd(x)
			case "Top":
				ev["got"] = rd(*st.Top())
			case "Peek":
				ev["got"] = rd(*st.Peek(o.Pos))
			case "SetTop":
				*st.Top() = mk(o.Val)
			case "SetPeek":
				*st.Peek(o.Pos) = mk(o.Val)
			}
		})
		content := []int{} // bottom to top
		for i := st.Len() - 1; i >= 0; i-- {
			content = append(content, rd(*st.Peek(i)))
		}
		ev["post"] = content
		ev["len"], ev["empty"] = st.Len(), st.IsEmpty()
		kept := true
		for i := range given {
			kept = kept && rd(given[i]) == givenVal[i]
		}
		ev["kept"] = kept
		ep.Log(o.Op, ev)
	}
}

func runStackAny(ep *zz.Ep, i int, ops []stOp) {
	switch i % 3 {
	case 0:
		runStack(ep, ops, func(v int) int { return v }, func(v int) int { return v }, i%2 == 0)
	case 1:
		runStack(ep, ops, func(v int) big3 { return big3{[3]int{v, v + 1, v}, fmt.Sprint(v)} }, func(b big3) int {
			if b.a[0] != b.a[2] || b.a[1] != b.a[0]+1 || b.s != fmt.Sprint(b.a[0]) {
				return -999
			}
			return b.a[0]
		}, i%2 == 0)
	default:
		runStack(ep, ops, func(v int) any { return v }, func(x any) int { return x.(int) }, i%2 == 0)
	}
}

func suiteI02(r *zz.Run) {
	if r.In != "" {
		for i, raw := range zz.ReadBehaviours(r.In) {
			i, raw := i, raw
			r.Episode(fmt.Sprintf("gen-%d", i), func(ep *zz.Ep) {
				var ops []stOp
				if err := json.Unmarshal(raw, &ops); err != nil {
					panic(err)
				}
				for k := range ops {
					ops[k].Val = 10*k + ops[k].Val
				}
				runStackAny(ep, i, ops)
			})
		}
	}
	names := []string{"Push", "PushPtr", "Pop", "Top", "Peek", "SetTop", "SetPeek"}
	r.Repeat("long", r.Scale(120, 2000), func(ep *zz.Ep, i int) {
		rng := ep.Rng
		var ops []stOp
		up := rng.Intn(3)
		for k := 10 + rng.Intn(120); k > 0; k-- {
			o := stOp{Op: zz.Pick(rng, names), Pos: rng.Intn(12) - 2, Val: rng.Intn(1000)}
			if up == 0 && rng.Intn(2) == 0 {
				o.Op = "Push"
			}
			if up == 1 && rng.Intn(2) == 0 {
				o.Op = zz.Pick(rng, names[:2])
			}
			if rng.Intn(20) == 0 {
				up = rng.Intn(3)
			}
			ops = append(ops, o)
		}
		runStackAny(ep, i, ops)
	})
}
