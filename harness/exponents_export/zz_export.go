package exponents

import "math/big"

// overlay file of the verification harness: makes the digit recoding observable from outside

type ZZDigit struct {
	Pos   uint
	Coeff uint
	Sign  int
}

func ZZDecompose(x *big.Int, maxbits uint) (out []ZZDigit) {
	var g glvExponent
	g.SetBigInt(x)
	for _, d := range decomposeUnalignedSignedAdic(g, maxbits) {
		out = append(out, ZZDigit{d.position, d.coeff, d.sign})
	}
	return
}
