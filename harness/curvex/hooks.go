//go:build go1.22

package main

import (
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
)

func init() {
	for n, f := range cp.ZZFormulas {
		formulas[n] = formula{f.Letters, f.Op, f.Safe, f.Call}
	}
	torsion, flip, rerandom, sample, sampleNaP = cp.ZZTorsion, cp.ZZFlip, cp.ZZRerandomize, cp.ZZSample, cp.ZZSampleNaP
}
