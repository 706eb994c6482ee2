//go:build go1.22

package main

import (
	"errors"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

// the type under test
type FE = fe.FieldElement

func main() {
	zz.Main(map[string]func(*zz.Run){"F01": suiteF01, "F02": suiteF02, "F03": suiteF03, "F04": suiteF04,
		"F05": suiteF05, "F06": suiteF06, "F07": suiteF07, "F08": suiteF08, "F08fe": suiteF08fe, "F10": suiteF10,
		"P01fe": suiteP01fe, "P01ser": suiteP01ser, "P01wide": suiteP01wide})
}

func prodSlice(z *FE, xs []FE) { z.MultiplySlice(xs) }
func sumSlice(z *FE, xs []FE)  { z.SummationSlice(xs) }
func prodMany(z *FE, xs []*FE) { z.MultiplyMany(xs...) }
func sumMany(z *FE, xs []*FE)  { z.SummationMany(xs...) }

func invErr(err fe.MultiInversionError) (failed bool, zs []int, fine bool) {
	zs, fine = []int{}, true
	if err != nil {
		d := err.GetData_struct()
		zs = append(zs, d.ZeroIndices...)
		fine = d.NumberOfZeroIndices == len(d.ZeroIndices) && errors.Is(err, fe.ErrDivisionByZero) &&
			err.Error() != "" && wellFormed(err)
		if n, ok := errorsWithData.GetParameter(err, "NumberOfZeroIndices"); !ok || n != len(zs) {
			fine = false
		}
	}
	return err != nil, zs, fine
}

func invSkip(r []int) (failed bool, zs []int, fine bool) {
	return false, append([]int{}, r...), (r == nil) == (len(r) == 0)
}

func batchPtrs(skip bool, xs []*FE) (failed bool, zs []int, fine bool) {
	if skip {
		return invSkip(fe.MultiInvertEqSkipZeros(xs...))
	}
	return invErr(fe.MultiInvertEq(xs...))
}

func batchSlice(skip bool, xs []FE) (failed bool, zs []int, fine bool) {
	if skip {
		return invSkip(fe.MultiInvertEqSliceSkipZeros(xs))
	}
	return invErr(fe.MultiInvertEqSlice(xs))
}
