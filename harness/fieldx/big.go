//go:build go1.22

package main

import (
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

// the type under test: the reference implementation of field elements
type FE = fe.ZZBigInt

func main() {
	zz.Main(map[string]func(*zz.Run){"F01": suiteF01, "F02": suiteF02, "F03": suiteF03})
}

// not provided by this type: done here
func prodMany(z *FE, xs []*FE) {
	var r FE
	r.SetOne()
	for _, x := range xs {
		r.MulEq(x)
	}
	*z = r
}
func sumMany(z *FE, xs []*FE) {
	var r FE
	for _, x := range xs {
		r.AddEq(x)
	}
	*z = r
}
func ptrsTo(xs []FE) (r []*FE) {
	for i := range xs {
		r = append(r, &xs[i])
	}
	return
}
func prodSlice(z *FE, xs []FE) { prodMany(z, ptrsTo(xs)) }
func sumSlice(z *FE, xs []FE)  { sumMany(z, ptrsTo(xs)) }
func batchPtrs(skip bool, xs []*FE) (failed bool, zs []int, fine bool) {
	panic("harness: no batch inversion")
}
func batchSlice(skip bool, xs []FE) (failed bool, zs []int, fine bool) {
	panic("harness: no batch inversion")
}
