//go:build go1.22

package fieldElements

// ZZBigInt is the reference implementation of field elements.
type ZZBigInt = bsFieldElement_BigInt
