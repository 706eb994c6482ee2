//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"

	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

type fbOp struct {
	Op   string `json:"op"`
	Len  int    `json:"len"`
	Data []byteInt `json:"data"`
}
type byteInt = int

func toBytes(x []int) []byte {
	b := make([]byte, len(x))
	for i := range x {
		b[i] = byte(x[i])
	}
	return b
}

func runFaulty(ep *zz.Ep, thr int, ops []fbOp) {
	ep.Set("thr", thr)
	fault := errors.New("designated")
	fb := testutils.NewFaultyBuffer(thr, fault)
	name := func(err error) string {
		switch {
		case err == nil:
			return "nil"
		case errors.Is(err, fault):
			return "fault"
		case err == io.EOF:
			return "EOF"
		}
		return "other"
	}
	for _, o := range ops {
		data := toBytes(o.Data)
		keep := bytes.Clone(data)
		ev := M{"len": o.Len, "data": zz.Codes(data), "n": 0, "err": "nil", "read": []int{}}
		kept := true
		ev["out"] = zz.Outcome(func() {
			switch o.Op {
			case "Read":
				p := bytes.Repeat([]byte{0xEE}, o.Len+2)
				n, err := fb.Read(p[:o.Len])
				ev["n"], ev["err"] = n, name(err)
				if n >= 0 && n <= o.Len {
					ev["read"] = zz.Codes(p[:n])
				}
				kept = p[o.Len] == 0xEE && p[o.Len+1] == 0xEE
			case "Write":
				n, err := fb.Write(data)
				ev["n"], ev["err"] = n, name(err)
			case "Reset":
				fb.Reset()
			case "SetContent":
				fb.SetContent(data)
			}
		})
		kept = kept && bytes.Equal(data, keep)
		for i := range data { // the buffer must not refer to the caller's memory
			data[i] ^= 0x55
		}
		ev["kept"] = kept
		ev["rest"] = zz.Codes(fb.Bytes())
		ep.Log(o.Op, ev)
	}
}

func suiteI04(r *zz.Run) {
	r.Episode("invalid", func(ep *zz.Ep) {
		ep.Set("thr", 0)
		var z testutils.FaultyBuffer
		bad := func(what string, f func()) { ep.Log("Invalid", M{"what": what, "out": zz.Outcome(f)}) }
		bad("new", func() { testutils.NewFaultyBuffer(3, nil) })
		bad("read", func() { z.Read(make([]byte, 1)) })
		bad("read0", func() { z.Read(nil) })
		bad("write", func() { z.Write(make([]byte, 1)) })
		bad("write0", func() { z.Write(nil) })
		bad("reset", func() { z.Reset() })
		bad("set", func() { z.SetContent([]byte{1}) })
		bad("bytes", func() { z.Bytes() })
	})
	if r.In != "" {
		for i, raw := range zz.ReadBehaviours(r.In) {
			var b struct {
				Thr int    `json:"thr"`
				Ops []fbOp `json:"ops"`
			}
			if err := json.Unmarshal(raw, &b); err != nil {
				panic(err)
			}
			r.Episode(fmt.Sprintf("tlc-%d", i), func(ep *zz.Ep) { runFaulty(ep, b.Thr, b.Ops) })
		}
	}
	r.Repeat("rand", r.Scale(300, 5000), func(ep *zz.Ep, i int) {
		thr := ep.Rng.Intn(1 + ep.Rng.Intn(40))
		var ops []fbOp
		for j := 0; j < 3+ep.Rng.Intn(20); j++ {
			n := ep.Rng.Intn(1 + ep.Rng.Intn(20))
			d := make([]int, n)
			for k := range d {
				d[k] = ep.Rng.Intn(256)
			}
			switch x := ep.Rng.Intn(20); {
			case x < 9:
				ops = append(ops, fbOp{Op: "Read", Len: n})
			case x < 16:
				ops = append(ops, fbOp{Op: "Write", Len: n, Data: d})
			case x < 17:
				ops = append(ops, fbOp{Op: "Reset"})
			default:
				ops = append(ops, fbOp{Op: "SetContent", Len: n, Data: d})
			}
		}
		runFaulty(ep, thr, ops)
	})
}
