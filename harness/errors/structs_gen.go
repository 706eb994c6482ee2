//go:build go1.22

// Code generated by tools/gen_structs.py. DO NOT EDIT.

package main

type T0 struct{}
type SA struct{ A int }
type SAB struct {
	A int
	B any
}
type X1 struct {
	A int
	_ int
}
type X2 struct {
	A int
	b int
}
type X3 struct {
	*SA
}
type X4 struct {
	SAB
	A string
}
type X5 struct {
	SA
	SAB
}
type X6 struct {
	error
	A int
}
type X7 struct {
	Named
	A int
}
type X8 struct {
	*Named
	B string
}
type X9 struct {
	Any
	A int
}
type X10 struct {
	X4
	B error
}
type X11 struct {
	X3
	B int
}
type X12 struct {
	SA
	X4
}
type X13 struct {
	SA
	X4
	A []int
}
type x14 struct {
	A int
	C *int
}
type X15 struct {
	x14
	B any
}
type X16 struct {
	x14
	SA
	B int
}
type X17 struct {
	x14
	A any
	B int
}
type X18 struct {
	named
	A int
}
type X19 struct {
	x14
	X4
	A int
	B int
}
type X20 struct {
	W1
	W2
}
type W1 struct {
	SA
	B int
}
type W2 struct {
	SA
	C int
}
type X21 struct {
	W1
	W2
	A any
}
type X22 struct {
	V1
	A any
}
type V1 struct {
	W1
	A string
}
type X23 struct {
	V1
	W2
	A int
}
type X24 struct {
	V2
	SA
}
type V2 struct {
	x14
}
type X25 struct {
	A any
	B error
	C *int
	D []int
}
type X26 struct {
	Err error
	Any any
}
type X27 struct {
	F func()
	A int
}
type G0 struct {
	C bool
}
type G1 struct {
	A []int
	SAB
}
type G2 struct {
	D *int
	B bool
	A bool
	V2
}
type G3 struct {
	B int
}
type g4 struct {
	SA
	C error
	SAB
	D string
}
type G5 struct {
}
type G6 struct {
	B bool
	C *int
	X4
	G2
}
type G7 struct {
	B []int
}
type G8 struct {
	A int
	D Named
	C float64
}
type g9 struct {
	C bool
	X4
	A *int
}
type G10 struct {
	X15
}
type G11 struct {
}
type G12 struct {
	SA
	A any
	x14
	D any
	z bool
}
type G13 struct {
	B any
	A any
	C int64
}
type g14 struct {
	A recVal
	SA
}
type G15 struct {
	D error
	A *int
	B float64
}
type G16 struct {
	D recVal
	B int64
	C []int
}
type G17 struct {
	A error
	SA
	W1
	D error
}
type G18 struct {
	T0
	G2
}
type g19 struct {
	G0
	D int
	B recVal
	C int64
	G10
}
type G20 struct {
	W2
}
type G21 struct {
	D any
	A recVal
	T0
	*SA
	W2
}
type G22 struct {
}
type G23 struct {
	D Named
	B bool
	C float64
	G18
}
type g24 struct {
	D bool
}
type G25 struct {
	X15
	B *Named
	C *Named
	W1
}
type G26 struct {
	C string
	D string
	*SA
}
type G27 struct {
	C error
}
type G28 struct {
}
type g29 struct {
	B Named
	A int
}
type G30 struct {
	C Named
	G6
	V1
}
type G31 struct {
	B any
}
type G32 struct {
	B int64
	A Named
	D bool
}
type G33 struct {
	W1
	C []int
}
type g34 struct {
	A *int
	C int
	W2
}
type G35 struct {
}

var dataTypes = []*typ{
	reg[T0]("T0"),
	reg[SA]("SA"),
	reg[SAB]("SAB"),
	reg[X1]("X1"),
	reg[X2]("X2"),
	reg[X3]("X3"),
	reg[X4]("X4"),
	reg[X5]("X5"),
	reg[X6]("X6"),
	reg[X7]("X7"),
	reg[X8]("X8"),
	reg[X9]("X9"),
	reg[X10]("X10"),
	reg[X11]("X11"),
	reg[X12]("X12"),
	reg[X13]("X13"),
	reg[x14]("x14"),
	reg[X15]("X15"),
	reg[X16]("X16"),
	reg[X17]("X17"),
	reg[X18]("X18"),
	reg[X19]("X19"),
	reg[X20]("X20"),
	reg[W1]("W1"),
	reg[W2]("W2"),
	reg[X21]("X21"),
	reg[X22]("X22"),
	reg[V1]("V1"),
	reg[X23]("X23"),
	reg[X24]("X24"),
	reg[V2]("V2"),
	reg[X25]("X25"),
	reg[X26]("X26"),
	reg[X27]("X27"),
	reg[G0]("G0"),
	reg[G1]("G1"),
	reg[G2]("G2"),
	reg[G3]("G3"),
	reg[g4]("g4"),
	reg[G5]("G5"),
	reg[G6]("G6"),
	reg[G7]("G7"),
	reg[G8]("G8"),
	reg[g9]("g9"),
	reg[G10]("G10"),
	reg[G11]("G11"),
	reg[G12]("G12"),
	reg[G13]("G13"),
	reg[g14]("g14"),
	reg[G15]("G15"),
	reg[G16]("G16"),
	reg[G17]("G17"),
	reg[G18]("G18"),
	reg[g19]("g19"),
	reg[G20]("G20"),
	reg[G21]("G21"),
	reg[G22]("G22"),
	reg[G23]("G23"),
	reg[g24]("g24"),
	reg[G25]("G25"),
	reg[G26]("G26"),
	reg[G27]("G27"),
	reg[G28]("G28"),
	reg[g29]("g29"),
	reg[G30]("G30"),
	reg[G31]("G31"),
	reg[G32]("G32"),
	reg[G33]("G33"),
	reg[g34]("g34"),
	reg[G35]("G35"),
	reg[int]("int"),
	reg[*SA]("*SA"),
	reg[error]("error"),
	reg[any]("any"),
	reg[[]int]("[]int"),
	reg[Named]("Named"),
}

var subtypePairs = []subPair{
	pair[G0, G0]("G0", "G0"),
	pair[G0, G25]("G0", "G25"),
	pair[G0, SA]("G0", "SA"),
	pair[G0, X19]("G0", "X19"),
	pair[G0, g4]("G0", "g4"),
	pair[G1, G1]("G1", "G1"),
	pair[G1, SA]("G1", "SA"),
	pair[G1, X13]("G1", "X13"),
	pair[G1, X22]("G1", "X22"),
	pair[G1, X8]("G1", "X8"),
	pair[G10, G1]("G10", "G1"),
	pair[G10, G10]("G10", "G10"),
	pair[G10, SA]("G10", "SA"),
	pair[G10, X8]("G10", "X8"),
	pair[G10, g24]("G10", "g24"),
	pair[G11, G11]("G11", "G11"),
	pair[G11, G20]("G11", "G20"),
	pair[G11, SA]("G11", "SA"),
	pair[G11, X1]("G11", "X1"),
	pair[G11, X7]("G11", "X7"),
	pair[G12, G12]("G12", "G12"),
	pair[G12, G16]("G12", "G16"),
	pair[G12, SA]("G12", "SA"),
	pair[G12, SAB]("G12", "SAB"),
	pair[G12, X27]("G12", "X27"),
	pair[G13, G13]("G13", "G13"),
	pair[G13, G33]("G13", "G33"),
	pair[G13, SA]("G13", "SA"),
	pair[G13, X6]("G13", "X6"),
	pair[G15, G15]("G15", "G15"),
	pair[G15, G21]("G15", "G21"),
	pair[G15, SA]("G15", "SA"),
	pair[G15, X11]("G15", "X11"),
	pair[G15, g29]("G15", "g29"),
	pair[G16, G16]("G16", "G16"),
	pair[G16, G32]("G16", "G32"),
	pair[G16, G8]("G16", "G8"),
	pair[G16, SA]("G16", "SA"),
	pair[G16, X1]("G16", "X1"),
	pair[G17, G17]("G17", "G17"),
	pair[G17, SA]("G17", "SA"),
	pair[G17, X13]("G17", "X13"),
	pair[G17, X2]("G17", "X2"),
	pair[G18, G18]("G18", "G18"),
	pair[G18, G23]("G18", "G23"),
	pair[G18, SA]("G18", "SA"),
	pair[G18, X24]("G18", "X24"),
	pair[G18, X25]("G18", "X25"),
	pair[G2, G2]("G2", "G2"),
	pair[G2, G31]("G2", "G31"),
	pair[G2, SA]("G2", "SA"),
	pair[G2, X1]("G2", "X1"),
	pair[G2, X17]("G2", "X17"),
	pair[G20, G20]("G20", "G20"),
	pair[G20, G32]("G20", "G32"),
	pair[G20, SA]("G20", "SA"),
	pair[G20, X13]("G20", "X13"),
	pair[G20, X6]("G20", "X6"),
	pair[G21, G21]("G21", "G21"),
	pair[G21, G23]("G21", "G23"),
	pair[G21, SA]("G21", "SA"),
	pair[G21, X25]("G21", "X25"),
	pair[G21, X26]("G21", "X26"),
	pair[G22, G22]("G22", "G22"),
	pair[G22, G25]("G22", "G25"),
	pair[G22, SA]("G22", "SA"),
	pair[G22, X3]("G22", "X3"),
	pair[G22, g29]("G22", "g29"),
	pair[G23, G23]("G23", "G23"),
	pair[G23, G25]("G23", "G25"),
	pair[G23, SA]("G23", "SA"),
	pair[G23, X3]("G23", "X3"),
	pair[G23, X8]("G23", "X8"),
	pair[G25, G25]("G25", "G25"),
	pair[G25, SA]("G25", "SA"),
	pair[G25, V1]("G25", "V1"),
	pair[G25, X21]("G25", "X21"),
	pair[G25, X25]("G25", "X25"),
	pair[G26, G2]("G26", "G2"),
	pair[G26, G26]("G26", "G26"),
	pair[G26, SA]("G26", "SA"),
	pair[G26, V2]("G26", "V2"),
	pair[G26, X3]("G26", "X3"),
	pair[G27, G10]("G27", "G10"),
	pair[G27, G27]("G27", "G27"),
	pair[G27, SA]("G27", "SA"),
	pair[G27, g24]("G27", "g24"),
	pair[G27, x14]("G27", "x14"),
	pair[G28, G22]("G28", "G22"),
	pair[G28, G28]("G28", "G28"),
	pair[G28, G6]("G28", "G6"),
	pair[G28, SA]("G28", "SA"),
	pair[G28, g29]("G28", "g29"),
	pair[G3, G11]("G3", "G11"),
	pair[G3, G12]("G3", "G12"),
	pair[G3, G3]("G3", "G3"),
	pair[G3, G5]("G3", "G5"),
	pair[G3, SA]("G3", "SA"),
	pair[G30, G12]("G30", "G12"),
	pair[G30, G2]("G30", "G2"),
	pair[G30, G30]("G30", "G30"),
	pair[G30, SA]("G30", "SA"),
	pair[G30, X21]("G30", "X21"),
	pair[G31, G31]("G31", "G31"),
	pair[G31, G33]("G31", "G33"),
	pair[G31, SA]("G31", "SA"),
	pair[G31, X16]("G31", "X16"),
	pair[G31, X20]("G31", "X20"),
	pair[G32, G32]("G32", "G32"),
	pair[G32, SA]("G32", "SA"),
	pair[G32, X24]("G32", "X24"),
	pair[G32, X26]("G32", "X26"),
	pair[G32, X5]("G32", "X5"),
	pair[G33, G32]("G33", "G32"),
	pair[G33, G33]("G33", "G33"),
	pair[G33, SA]("G33", "SA"),
	pair[G33, X2]("G33", "X2"),
	pair[G33, X20]("G33", "X20"),
	pair[G35, G26]("G35", "G26"),
	pair[G35, G35]("G35", "G35"),
	pair[G35, SA]("G35", "SA"),
	pair[G35, W2]("G35", "W2"),
	pair[G35, X11]("G35", "X11"),
	pair[G5, G23]("G5", "G23"),
	pair[G5, G5]("G5", "G5"),
	pair[G5, G6]("G5", "G6"),
	pair[G5, SA]("G5", "SA"),
	pair[G5, T0]("G5", "T0"),
	pair[G6, G2]("G6", "G2"),
	pair[G6, G26]("G6", "G26"),
	pair[G6, G6]("G6", "G6"),
	pair[G6, SA]("G6", "SA"),
	pair[G6, g24]("G6", "g24"),
	pair[G7, G5]("G7", "G5"),
	pair[G7, G7]("G7", "G7"),
	pair[G7, SA]("G7", "SA"),
	pair[G7, X1]("G7", "X1"),
	pair[G7, X4]("G7", "X4"),
	pair[G8, G8]("G8", "G8"),
	pair[G8, SA]("G8", "SA"),
	pair[G8, SAB]("G8", "SAB"),
	pair[G8, X2]("G8", "X2"),
	pair[G8, X8]("G8", "X8"),
	pair[SA, SA]("SA", "SA"),
	pair[SA, X9]("SA", "X9"),
	pair[SA, g19]("SA", "g19"),
	pair[SA, g34]("SA", "g34"),
	pair[SAB, G18]("SAB", "G18"),
	pair[SAB, G22]("SAB", "G22"),
	pair[SAB, SA]("SAB", "SA"),
	pair[SAB, SAB]("SAB", "SAB"),
	pair[SAB, W2]("SAB", "W2"),
	pair[T0, G1]("T0", "G1"),
	pair[T0, SA]("T0", "SA"),
	pair[T0, T0]("T0", "T0"),
	pair[T0, X12]("T0", "X12"),
	pair[T0, X2]("T0", "X2"),
	pair[V1, G1]("V1", "G1"),
	pair[V1, SA]("V1", "SA"),
	pair[V1, V1]("V1", "V1"),
	pair[V1, g14]("V1", "g14"),
	pair[V1, g9]("V1", "g9"),
	pair[V2, G30]("V2", "G30"),
	pair[V2, G31]("V2", "G31"),
	pair[V2, G33]("V2", "G33"),
	pair[V2, SA]("V2", "SA"),
	pair[V2, V2]("V2", "V2"),
	pair[W1, G11]("W1", "G11"),
	pair[W1, SA]("W1", "SA"),
	pair[W1, W1]("W1", "W1"),
	pair[W1, X21]("W1", "X21"),
	pair[W2, G3]("W2", "G3"),
	pair[W2, SA]("W2", "SA"),
	pair[W2, W1]("W2", "W1"),
	pair[W2, W2]("W2", "W2"),
	pair[W2, X23]("W2", "X23"),
	pair[X1, SA]("X1", "SA"),
	pair[X1, X1]("X1", "X1"),
	pair[X1, X10]("X1", "X10"),
	pair[X1, X20]("X1", "X20"),
	pair[X1, X3]("X1", "X3"),
	pair[X10, G11]("X10", "G11"),
	pair[X10, G5]("X10", "G5"),
	pair[X10, SA]("X10", "SA"),
	pair[X10, X10]("X10", "X10"),
	pair[X10, X27]("X10", "X27"),
	pair[X11, G17]("X11", "G17"),
	pair[X11, SA]("X11", "SA"),
	pair[X11, X11]("X11", "X11"),
	pair[X11, X6]("X11", "X6"),
	pair[X11, g34]("X11", "g34"),
	pair[X12, G12]("X12", "G12"),
	pair[X12, SA]("X12", "SA"),
	pair[X12, X12]("X12", "X12"),
	pair[X12, X5]("X12", "X5"),
	pair[X13, SA]("X13", "SA"),
	pair[X13, X13]("X13", "X13"),
	pair[X13, X18]("X13", "X18"),
	pair[X13, X20]("X13", "X20"),
	pair[X13, X24]("X13", "X24"),
	pair[X15, SA]("X15", "SA"),
	pair[X15, T0]("X15", "T0"),
	pair[X15, V1]("X15", "V1"),
	pair[X15, X15]("X15", "X15"),
	pair[X15, X3]("X15", "X3"),
	pair[X16, G15]("X16", "G15"),
	pair[X16, G25]("X16", "G25"),
	pair[X16, G35]("X16", "G35"),
	pair[X16, SA]("X16", "SA"),
	pair[X16, X16]("X16", "X16"),
	pair[X17, G2]("X17", "G2"),
	pair[X17, G25]("X17", "G25"),
	pair[X17, SA]("X17", "SA"),
	pair[X17, X17]("X17", "X17"),
	pair[X17, X9]("X17", "X9"),
	pair[X18, G3]("X18", "G3"),
	pair[X18, G33]("X18", "G33"),
	pair[X18, G8]("X18", "G8"),
	pair[X18, SA]("X18", "SA"),
	pair[X18, X18]("X18", "X18"),
	pair[X19, G23]("X19", "G23"),
	pair[X19, SA]("X19", "SA"),
	pair[X19, W2]("X19", "W2"),
	pair[X19, X11]("X19", "X11"),
	pair[X19, X19]("X19", "X19"),
	pair[X2, SA]("X2", "SA"),
	pair[X2, X18]("X2", "X18"),
	pair[X2, X2]("X2", "X2"),
	pair[X2, g29]("X2", "g29"),
	pair[X2, g4]("X2", "g4"),
	pair[X20, SA]("X20", "SA"),
	pair[X20, X13]("X20", "X13"),
	pair[X20, X17]("X20", "X17"),
	pair[X20, X2]("X20", "X2"),
	pair[X20, X20]("X20", "X20"),
	pair[X21, SA]("X21", "SA"),
	pair[X21, T0]("X21", "T0"),
	pair[X21, X13]("X21", "X13"),
	pair[X21, X21]("X21", "X21"),
	pair[X21, X4]("X21", "X4"),
	pair[X22, G20]("X22", "G20"),
	pair[X22, G30]("X22", "G30"),
	pair[X22, SA]("X22", "SA"),
	pair[X22, X22]("X22", "X22"),
	pair[X22, X23]("X22", "X23"),
	pair[X23, G35]("X23", "G35"),
	pair[X23, G6]("X23", "G6"),
	pair[X23, SA]("X23", "SA"),
	pair[X23, X23]("X23", "X23"),
	pair[X23, x14]("X23", "x14"),
	pair[X24, SA]("X24", "SA"),
	pair[X24, X24]("X24", "X24"),
	pair[X24, X4]("X24", "X4"),
	pair[X24, X9]("X24", "X9"),
	pair[X25, G26]("X25", "G26"),
	pair[X25, SA]("X25", "SA"),
	pair[X25, X16]("X25", "X16"),
	pair[X25, X20]("X25", "X20"),
	pair[X25, X25]("X25", "X25"),
	pair[X26, G10]("X26", "G10"),
	pair[X26, SA]("X26", "SA"),
	pair[X26, X22]("X26", "X22"),
	pair[X26, X26]("X26", "X26"),
	pair[X26, x14]("X26", "x14"),
	pair[X27, G3]("X27", "G3"),
	pair[X27, SA]("X27", "SA"),
	pair[X27, X10]("X27", "X10"),
	pair[X27, X16]("X27", "X16"),
	pair[X27, X27]("X27", "X27"),
	pair[X3, G1]("X3", "G1"),
	pair[X3, SA]("X3", "SA"),
	pair[X3, X24]("X3", "X24"),
	pair[X3, X25]("X3", "X25"),
	pair[X3, X3]("X3", "X3"),
	pair[X4, SA]("X4", "SA"),
	pair[X4, X10]("X4", "X10"),
	pair[X4, X13]("X4", "X13"),
	pair[X4, X4]("X4", "X4"),
	pair[X4, g34]("X4", "g34"),
	pair[X5, G21]("X5", "G21"),
	pair[X5, G23]("X5", "G23"),
	pair[X5, G8]("X5", "G8"),
	pair[X5, SA]("X5", "SA"),
	pair[X5, X5]("X5", "X5"),
	pair[X6, G35]("X6", "G35"),
	pair[X6, SA]("X6", "SA"),
	pair[X6, V2]("X6", "V2"),
	pair[X6, X19]("X6", "X19"),
	pair[X6, X6]("X6", "X6"),
	pair[X7, G23]("X7", "G23"),
	pair[X7, G31]("X7", "G31"),
	pair[X7, SA]("X7", "SA"),
	pair[X7, X5]("X7", "X5"),
	pair[X7, X7]("X7", "X7"),
	pair[X8, G30]("X8", "G30"),
	pair[X8, SA]("X8", "SA"),
	pair[X8, X1]("X8", "X1"),
	pair[X8, X8]("X8", "X8"),
	pair[X8, X9]("X8", "X9"),
	pair[X9, G2]("X9", "G2"),
	pair[X9, SA]("X9", "SA"),
	pair[X9, X1]("X9", "X1"),
	pair[X9, X26]("X9", "X26"),
	pair[X9, X9]("X9", "X9"),
	pair[g14, G6]("g14", "G6"),
	pair[g14, SA]("g14", "SA"),
	pair[g14, T0]("g14", "T0"),
	pair[g14, X11]("g14", "X11"),
	pair[g14, g14]("g14", "g14"),
	pair[g19, G10]("g19", "G10"),
	pair[g19, G13]("g19", "G13"),
	pair[g19, SA]("g19", "SA"),
	pair[g19, X6]("g19", "X6"),
	pair[g19, g19]("g19", "g19"),
	pair[g24, G32]("g24", "G32"),
	pair[g24, SA]("g24", "SA"),
	pair[g24, W1]("g24", "W1"),
	pair[g24, X18]("g24", "X18"),
	pair[g24, g24]("g24", "g24"),
	pair[g29, SA]("g29", "SA"),
	pair[g29, T0]("g29", "T0"),
	pair[g29, X13]("g29", "X13"),
	pair[g29, g29]("g29", "g29"),
	pair[g29, g4]("g29", "g4"),
	pair[g34, G30]("g34", "G30"),
	pair[g34, SA]("g34", "SA"),
	pair[g34, X11]("g34", "X11"),
	pair[g34, g34]("g34", "g34"),
	pair[g4, SA]("g4", "SA"),
	pair[g4, SAB]("g4", "SAB"),
	pair[g4, X1]("g4", "X1"),
	pair[g4, X27]("g4", "X27"),
	pair[g4, g4]("g4", "g4"),
	pair[g9, G31]("g9", "G31"),
	pair[g9, G5]("g9", "G5"),
	pair[g9, SA]("g9", "SA"),
	pair[g9, g19]("g9", "g19"),
	pair[g9, g9]("g9", "g9"),
	pair[x14, G22]("x14", "G22"),
	pair[x14, SA]("x14", "SA"),
	pair[x14, X7]("x14", "X7"),
	pair[x14, g19]("x14", "g19"),
	pair[x14, x14]("x14", "x14"),
}
