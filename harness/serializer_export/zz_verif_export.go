//go:build go1.22

package pointserializer

import "github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"

// ZZFormats gives access to the formats that are not exported yet.
func ZZFormats() map[string]CurvePointSerializerModifyable {
	return map[string]CurvePointSerializerModifyable{
		"xy": newMultiSerializer(&pointSerializerXY{valuesSerializerHeaderFeHeaderFe: valuesSerializerHeaderFeHeaderFe{fieldElementEndianness: common.DefaultEndian}}, trivialSimpleHeaderSerializer),
		"xs": newMultiSerializer(&pointSerializerXAndSignY{valuesSerializerFeCompressedBit: valuesSerializerFeCompressedBit{fieldElementEndianness: common.DefaultEndian}}, trivialSimpleHeaderSerializer),
		"ys": newMultiSerializer(&pointSerializerYAndSignX{valuesSerializerFeCompressedBit: valuesSerializerFeCompressedBit{fieldElementEndianness: common.DefaultEndian}}, trivialSimpleHeaderSerializer),
	}
}
