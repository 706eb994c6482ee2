From 6f8c3f1116b2b248b4fb110b437717b16315ea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 01/38] fix: bandersnatchErrors, errorTransform: pass
 data-treatment arguments to errorsWithData constructors (packages did not
 compile)

---
 bandersnatch/bandersnatchErrors/serializer_errors.go | 2 +-
 internal/errorTransform/error_transform.go           | 4 ++--
 internal/errorTransform/serializer_errors.go         | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/bandersnatchErrors/serializer_errors.go b/bandersnatch/bandersnatchErrors/serializer_errors.go
index 59b0aa6..79ddbc9 100644
--- a/bandersnatch/bandersnatchErrors/serializer_errors.go
+++ b/bandersnatch/bandersnatchErrors/serializer_errors.go
@@ -94,5 +94,5 @@ var (
 	ErrCannotSerializePointAtInfinity = errors.New("bandersnatch / point serialization: The selected serializer cannot serialize points at infinity")
 	ErrCannotSerializeNaP             = errors.New("bandersnatch / point serialization: cannot serialize NaP")
 	ErrCannotDeserializeNaP           = errors.New("bandersnatch / point deserialization: cannot deserialize coordinates corresponding to NaP")
-	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0")
+	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 )
diff --git a/internal/errorTransform/error_transform.go b/internal/errorTransform/error_transform.go
index b37f565..39a8b64 100644
--- a/internal/errorTransform/error_transform.go
+++ b/internal/errorTransform/error_transform.go
@@ -23,7 +23,7 @@ func UnexpectEOF(errPtr *error) {
 	if errors.Is(*errPtr, io.EOF) {
 		m := errorsWithData.GetData_map(*errPtr)
 		if len(m) > 0 {
-			*errPtr = errorsWithData.NewErrorWithData_any_map(io.ErrUnexpectedEOF, "", m)
+			*errPtr = errorsWithData.NewErrorWithData_any_map(io.ErrUnexpectedEOF, "", errorsWithData.ReplacePreviousData, m)
 		} else {
 			*errPtr = io.ErrUnexpectedEOF
 		}
@@ -34,6 +34,6 @@ func UnexpectEOF(errPtr *error) {
 func UnexpectEOF2[StructType any](errPtr *errorsWithData.ErrorWithData[StructType]) {
 	if errors.Is(*errPtr, io.EOF) {
 		m := errorsWithData.GetData_map(*errPtr)
-		*errPtr = errorsWithData.NewErrorWithData_map[StructType](io.ErrUnexpectedEOF, "", m)
+		*errPtr = errorsWithData.NewErrorWithData_map[StructType](io.ErrUnexpectedEOF, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, m)
 	}
 }
diff --git a/internal/errorTransform/serializer_errors.go b/internal/errorTransform/serializer_errors.go
index 23d260b..f10016f 100644
--- a/internal/errorTransform/serializer_errors.go
+++ b/internal/errorTransform/serializer_errors.go
@@ -83,5 +83,5 @@ var (
 	ErrCannotSerializePointAtInfinity = errors.New("bandersnatch / point serialization: The selected serializer cannot serialize points at infinity")
 	ErrCannotSerializeNaP             = errors.New("bandersnatch / point serialization: cannot serialize NaP")
 	ErrCannotDeserializeNaP           = errors.New("bandersnatch / point deserialization: cannot deserialize coordinates corresponding to NaP")
-	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0")
+	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 )
-- 
2.43.0


From d3d06b680518f2774d8a69d361ef7b620936fccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 02/38] fix: fieldElements: adapt error construction to the
 current errorsWithData API (package did not compile)

---
 bandersnatch/fieldElements/errors.go                   | 4 ++--
 bandersnatch/fieldElements/field_element_bigInt.go     | 4 ++--
 bandersnatch/fieldElements/field_element_montgomery.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bandersnatch/fieldElements/errors.go b/bandersnatch/fieldElements/errors.go
index 6f9ac01..c9016d9 100644
--- a/bandersnatch/fieldElements/errors.go
+++ b/bandersnatch/fieldElements/errors.go
@@ -39,9 +39,9 @@ var ErrDivisionByZero = errors.New(ErrorPrefix + "division by zero")
 // These are the errors that can occur during (de)serialization.
 var (
 	errPrefixDoesNotFit                   = errorsWithData.NewErrorWithData_struct(nil, ErrorPrefix+"while trying to serialize a field element with a prefix, the prefix did not fit, because the number was too large", &errorconsts.NoWriteAttempt)
-	ErrPrefixDoesNotFit                   = errorsWithData.MakeErrorIncomparable(errPrefixDoesNotFit)
+	ErrPrefixDoesNotFit             error = errPrefixDoesNotFit
 	errPrefixLengthInvalid                = errorsWithData.NewErrorWithData_struct(nil, ErrorPrefix+"in FieldElement deserializitation, an invalid prefix length > 8 was requested", &errorconsts.NoWriteAttempt)
-	ErrPrefixLengthInvalid                = errorsWithData.MakeErrorIncomparable(errPrefixLengthInvalid)
+	ErrPrefixLengthInvalid          error = errPrefixLengthInvalid
 	ErrPrefixMismatch               error = errors.New(ErrorPrefix + "during deserialization, the read prefix did not match the expected one")
 	ErrNonNormalizedDeserialization error = errors.New(ErrorPrefix + "during FieldElement deserialization, the read number was not the minimal representative modulo BaseFieldSize")
 )
diff --git a/bandersnatch/fieldElements/field_element_bigInt.go b/bandersnatch/fieldElements/field_element_bigInt.go
index 303fabe..aa763de 100644
--- a/bandersnatch/fieldElements/field_element_bigInt.go
+++ b/bandersnatch/fieldElements/field_element_bigInt.go
@@ -136,7 +136,7 @@ func (z *bsFieldElement_BigInt) SetInt64(x int64) {
 func (z *bsFieldElement_BigInt) ToUint64() (uint64, error) {
 	zInt := z.ToBigInt()
 	if !zInt.IsUint64() {
-		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an uint64", "FieldElement", *z)
+		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an uint64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 	}
 	return zInt.Uint64(), nil
 }
@@ -153,7 +153,7 @@ func (z *bsFieldElement_BigInt) ToInt64() (int64, error) {
 		zInt.Neg(zInt)
 	}
 	if !zInt.IsInt64() {
-		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", "FieldElement", *z)
+		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 	} else {
 		return zInt.Int64(), nil
 	}
diff --git a/bandersnatch/fieldElements/field_element_montgomery.go b/bandersnatch/fieldElements/field_element_montgomery.go
index b2cdc67..117511e 100644
--- a/bandersnatch/fieldElements/field_element_montgomery.go
+++ b/bandersnatch/fieldElements/field_element_montgomery.go
@@ -254,7 +254,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) ToUint64() (result uint64, err erro
 	result = temp[0]
 	if (temp[1] | temp[2] | temp[3]) != 0 {
 		// err = ErrCannotRepresentAsUint64
-		err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as a uint64", "FieldElement", *z)
+		err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as a uint64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 		result = 0
 	}
 	return
@@ -317,7 +317,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) ToInt64() (result int64, err error)
 		return
 	}
 	zCopy := *z // to avoid z escaping to the heap. Now only zCopy escapes, but this is only allocated conditionally in the first place.
-	err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", "FieldElement", zCopy)
+	err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", errorsWithData.ReplacePreviousData, "FieldElement", zCopy)
 
 	result = 0 // no-op, but stated for clarity.
 	return
-- 
2.43.0


From 7825eeca47db758364a1b407d9ead5159a82d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 03/38] fix: curvePoints: pass data-treatment arguments to
 errorsWithData constructors (package did not compile)

---
 bandersnatch/curvePoints/serializer_curve_field.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 9046265..2c13aca 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -95,10 +95,10 @@ func recoverYFromXAffine(x *FieldElement, legendreCheckX bool) (y FieldElement,
 			// The type of error depends on whether denom is a square or not.
 			num.DivideEq(&denom)
 			if y.SquareRoot(&num) {
-				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotInSubgroup, "%w. The received X coordinates was %v{X}", "X", *x)
+				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotInSubgroup, "%w. The received X coordinates was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 
 			} else {
-				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", "X", *x)
+				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 				y.SetZero() // not needed, but we like being explicit.
 			}
 			return
@@ -107,7 +107,7 @@ func recoverYFromXAffine(x *FieldElement, legendreCheckX bool) (y FieldElement,
 	}
 	num.DivideEq(&denom) // (1-ax^2)/(1-dx^2). Note that 1-dx^2 cannot be 0, as d is a non-square.
 	if !y.SquareRoot(&num) {
-		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", "X", *x)
+		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 		return
 	}
 	err = nil // err is nil at this point anyway, but we prefer to be explicit.
@@ -270,7 +270,7 @@ func CurvePointFromXAndSignY_full(x *FieldElement, signY int, trustLevel IsInput
 	point.y, errWithX = recoverYFromXAffine(x, false)
 
 	if errWithX != nil {
-		err = errorsWithData.AddDataToError_params[retData](errWithX, "%w", "SignY", signY)
+		err = errorsWithData.AddDataToError_params[retData](errWithX, errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "SignY", signY)
 		// On trusted input, we panic on error.
 		if trustLevel.Bool() {
 			panic(fmt.Errorf(ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full encountered error on trusted input. Error was %w", err))
@@ -429,7 +429,7 @@ func CurvePointFromYAndSignX_full(y *FieldElement, signX int, trustLevel IsInput
 	point.x, errFromRecoverX = recoverXFromYAffine(y)
 	if errFromRecoverX != nil {
 		err = errorsWithData.NewErrorWithData_params[errData](errFromRecoverX, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromYAndSignX_full: %w, signX = %v{SignX}",
-			"SignX", signX)
+			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "SignX", signX)
 		if trustLevel.Bool() {
 			panic(err)
 		}
@@ -514,7 +514,7 @@ func CurvePointFromXTimesSignY_subgroup(xSignY *FieldElement, trustLevel IsInput
 	point.y, err = recoverYFromXAffine(xSignY, !trustLevel.Bool())
 	if err != nil {
 		// update error message.
-		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](err, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromXTimesSignY_subgroup: %w. Note that this error only depends on the absolute value |X|")
+		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](err, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromXTimesSignY_subgroup: %w. Note that this error only depends on the absolute value |X|", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 		point = Point_axtw_subgroup{}
 		if trustLevel.Bool() {
 			panic(err)
-- 
2.43.0


From f8bd594f464a852b949a11d5b8527d7bb7c13f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 04/38] fix: pointserializer: adapt to the current
 errorsWithData / errorconsts API (package did not compile)

---
 .../pointserializer/headerSerializer.go       | 11 +++---
 .../pointserializer/serialize_curve_point.go  | 30 +++++++-------
 .../pointserializer/serialize_curve_points.go | 39 ++++++++++---------
 bandersnatch/pointserializer/utils.go         | 16 ++++----
 .../pointserializer/values_serializers.go     |  4 +-
 5 files changed, 52 insertions(+), 48 deletions(-)

diff --git a/bandersnatch/pointserializer/headerSerializer.go b/bandersnatch/pointserializer/headerSerializer.go
index 85f2b85..231e18a 100644
--- a/bandersnatch/pointserializer/headerSerializer.go
+++ b/bandersnatch/pointserializer/headerSerializer.go
@@ -290,7 +290,7 @@ func (shd *simpleHeaderDeserializer) GetGlobalSliceHeader() []byte {
 func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reader) (bytesRead int, size int32, err bandersnatchErrors.DeserializationError) {
 	bytesRead, errCER := consumeExpectRead(input, shd.headerSlice[:])
 	if errCER != nil {
-		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errCER, FIELDNAME_PARTIAL_READ, bytesRead != 0)
+		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errCER, errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, bytesRead != 0)
 		return
 	}
 	var buf [simpleHeaderSliceLengthOverhead]byte
@@ -298,7 +298,7 @@ func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reade
 	bytesRead += bytesJustRead // Validate ensures this fits into int32
 	if errPlain != nil {
 		errorTransform.UnexpectEOF(&errPlain) // turn io.EOF into io.ErrUnexpectedEOF
-		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errPlain,
+		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errPlain, errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 			FIELDNAME_PARTIAL_READ, bytesJustRead != simpleHeaderSliceLengthOverhead,
 			FIELDNAME_ACTUALLY_READ, buf[:],
 			FIELDNAME_BYTES_READ, bytesJustRead,
@@ -308,7 +308,7 @@ func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reade
 
 	var sizeUInt32 uint32 = shd.sliceSizeEndianness.Uint32(buf[:])
 	if sizeUInt32 > math.MaxInt32 {
-		errPlain = errorsWithData.NewErrorWithData_any_params(bandersnatchErrors.ErrSizeDoesNotFitInt32, "%w. Size read when deserializing was %v{Size}",
+		errPlain = errorsWithData.NewErrorWithData_any_params(bandersnatchErrors.ErrSizeDoesNotFitInt32, "%w. Size read when deserializing was %v{Size}", errorsWithData.ReplacePreviousData,
 			"Size", sizeUInt32)
 		err = errorsWithData.NewErrorWithData_struct(errPlain, "%w", &bandersnatchErrors.ReadErrorData{
 			PartialRead:  false,
@@ -368,7 +368,8 @@ func (shd *simpleHeaderDeserializer) GetGlobalSliceFooter() []byte {
 // addPartialReadInfo is a helper function that just "downcasts" the extra data type for the error.
 // This is because consumeExpectRead returns headerRead as additional data, which also contains ExpectedToRead.
 func fixReadErrorType(errIn errorsWithData.ErrorWithData[headerRead]) (errOut bandersnatchErrors.DeserializationError) {
-	return errorsWithData.AsErrorWithData[bandersnatchErrors.ReadErrorData](errIn)
+	errOut, _ = errorsWithData.AsErrorWithData[bandersnatchErrors.ReadErrorData](errIn, errorsWithData.EnsureDataIsPresent)
+	return
 }
 
 // deserializeGlobalSliceFooter reads from input and consumes the global slice footer
@@ -501,7 +502,7 @@ func (shd *simpleHeaderDeserializer) MultiPointHeaderOverhead(numPoints int32) (
 	ret64 += int64(len(shd.headerSlice) + len(shd.footerSlice))                                 // term added is guaranteed to fit into int32
 	// NOTE: ret64 is guaranteed to not have overflown an int64, since it is at most (2^31-1) * (2^31-1) + 4 + (2^31-1), which is smaller than 2^63-1
 	if ret64 > math.MaxInt32 {
-		err = errorsWithData.NewErrorWithData_any_params(nil, "MultiPointOverhead does not fit into int32, size was %v{Size}",
+		err = errorsWithData.NewErrorWithData_any_params(nil, "MultiPointOverhead does not fit into int32, size was %v{Size}", errorsWithData.ReplacePreviousData,
 			"Size", ret64)
 	}
 	ret = int32(ret64)
diff --git a/bandersnatch/pointserializer/serialize_curve_point.go b/bandersnatch/pointserializer/serialize_curve_point.go
index 6af6811..7a5c752 100644
--- a/bandersnatch/pointserializer/serialize_curve_point.go
+++ b/bandersnatch/pointserializer/serialize_curve_point.go
@@ -539,7 +539,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 	if err != nil {
 		if bytesRead > 0 {
 			errorTransform.UnexpectEOF2(&err) // not really doing anything, since bytesRead > 0 contradicts err is EOF.
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, true)
 		}
 		return
 	}
@@ -558,7 +558,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 		// So assume the footer is trivial. If err does not alreay contain the partial read_flag, bytesJustRead is either 0 or everything was read.
 		// In the latter case, we really have no partial read; if bytesJustRead, we have a partial read situation if there was a header.
 		if (bytesJustRead == 0 && bytesRead > 0) || (!md.headerDeserializer.trivialSinglePointFooter() && bytesRead > 0) {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, true)
 		}
 		return
 	}
@@ -567,7 +567,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 	if err != nil {
 		errorTransform.UnexpectEOF2(&err)
 		if bytesJustRead == 0 {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, true)
 		}
 		// outputPoint.SetFrom(originalPoint)
 	}
@@ -583,7 +583,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Read
 	if err != nil {
 		if bytesRead > 0 {
 			errorTransform.UnexpectEOF2(&err) // not really doing anything, since bytesRead > 0 contradicts err is EOF.
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, true)
 		}
 
 		return
@@ -604,7 +604,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Read
 		// So assume the footer is trivial. If err does not alreay contain the partial read_flag, bytesJustRead is either 0 or everything was read.
 		// In the latter case, we really have no partial read; if bytesJustRead, we have a partial read situation if there was a header.
 		if (bytesJustRead == 0 && bytesRead > 0) || (!md.headerSerializer.trivialSinglePointFooter() && bytesRead > 0) {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, true)
 		}
 
 		return
@@ -614,7 +614,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Read
 	if err != nil {
 		errorTransform.UnexpectEOF2(&err)
 		if bytesJustRead == 0 {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, true)
 		}
 		// outputPoint.SetFrom(originalPoint)
 	}
@@ -628,7 +628,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoint(outputStream io.Write
 	if err != nil {
 		if bytesWritten > 0 {
 			errorTransform.UnexpectEOF2(&err) // does nothing, actually, because err cannot be EOF for bytesWritten > 0
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", FIELDNAME_PARTIAL_WRITE, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_WRITE, true)
 		}
 		return
 	}
@@ -637,7 +637,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoint(outputStream io.Write
 	if err != nil {
 		if bytesWritten > 0 && bytesWritten < int(md.OutputLength()) {
 			errorTransform.UnexpectEOF2(&err)
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", FIELDNAME_PARTIAL_WRITE, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_WRITE, true)
 		}
 		return
 	}
@@ -646,7 +646,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoint(outputStream io.Write
 	if err != nil {
 		if bytesWritten > 0 && bytesWritten < int(md.OutputLength()) {
 			errorTransform.UnexpectEOF2(&err)
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", FIELDNAME_PARTIAL_WRITE, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_WRITE, true)
 		}
 	}
 	return
@@ -740,18 +740,18 @@ func (md *multiDeserializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int
 
 		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 		}
 		return -1, err // we return -1 for the int32 in case of error here, as the actual value is meaningless. Note that that overhead might well be negative at this point anyway.
 
 	}
 	var ret64 int64 = int64(overhead) + pointCost64 // Cannot overflow, because it is bounded by MaxInt32^2 + MaxInt32
 	if ret64 > math.MaxInt32 {
-		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", "Size", ret64)
+		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", errorsWithData.ReplacePreviousData, "Size", ret64)
 		return -1, err
 	}
 	return int32(ret64), nil
@@ -774,11 +774,11 @@ func (md *multiSerializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int32
 
 		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 		}
 		return -1, err
 
@@ -786,7 +786,7 @@ func (md *multiSerializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int32
 
 	var ret64 int64 = int64(overhead) + pointCost64 // Cannot overflow, because it is bounded by MaxInt32^2 + MaxInt32
 	if ret64 > math.MaxInt32 {
-		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", "Size", ret64)
+		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", errorsWithData.ReplacePreviousData, "Size", ret64)
 		return -1, err
 	}
 	return int32(ret64), nil
diff --git a/bandersnatch/pointserializer/serialize_curve_points.go b/bandersnatch/pointserializer/serialize_curve_points.go
index ff2c44d..73b63e1 100644
--- a/bandersnatch/pointserializer/serialize_curve_points.go
+++ b/bandersnatch/pointserializer/serialize_curve_points.go
@@ -11,6 +11,7 @@ import (
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
 	"github.com/GottfriedHerold/Bandersnatch/internal/errorTransform"
+	"github.com/GottfriedHerold/Bandersnatch/internal/errorconsts"
 	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
 )
 
@@ -96,7 +97,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoints(inputStream io.R
 			}
 
 			// the index i gives the correct value for the PointsDeserialized error data. The other data (including PartialRead) is actually correct.
-			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errSingle, ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w", "PointsDeserialized", i)
+			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errSingle, ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, "PointsDeserialized", i)
 			return
 		}
 	}
@@ -142,7 +143,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoints(inputStream io.Rea
 
 			// the index i gives the correct value for the PointsDeserialized error data. The other data (including PartialRead) is actually correct.
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errSingle,
-				ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w",
+				ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 				"PointsDeserialized", i)
 			return
 		}
@@ -195,7 +196,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
-				ErrorPrefix+"slice deserialization failed when reading per-point header after reading %v{PointsDeserialized} points. Errors was %w",
+				ErrorPrefix+"slice deserialization failed when reading per-point header after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 				"PointsDeserialized", i,
 				FIELDNAME_PARTIAL_READ, true)
 			return
@@ -206,12 +207,12 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		if errNonBatch != nil {
 			if i != size || !deserializer_header.trivialPerPointFooter() || !deserializer_header.trivialPerPointFooter() || bytesJustRead == 0 {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
-					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w",
+					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 					"PointsDeserialized", i,
 					FIELDNAME_PARTIAL_READ, true)
 			} else {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
-					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w",
+					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 					"PointsDeserialized", i)
 			}
 			return
@@ -220,7 +221,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_header.deserializePerPointFooter(inputStream)
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
-			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+"slice deserialization failed when reading per-point footer after reading %v{PointsDeserialized} points. Errors was %w", "PointsDeserialized", i+1, FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+"slice deserialization failed when reading per-point footer after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, "PointsDeserialized", i+1, FIELDNAME_PARTIAL_READ, true)
 			return
 		}
 	}
@@ -252,7 +253,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader,
 
 	// If reading the slice header fails, bail out
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
 
 		output, _, _ = sliceMaker(-1) // create a dummy value for output
 		return
@@ -290,7 +291,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader,
 	bytesJustRead, errNonBatch = md.headerDeserializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", FIELDNAME_POINTSDESERIALIZED, int(size))
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_POINTSDESERIALIZED, int(size))
 		return
 	}
 
@@ -319,7 +320,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader, t
 
 	bytesRead, size, errNonBatch = md.headerSerializer.deserializeGlobalSliceHeader(inputStream)
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
 
 		output, _, _ = sliceMaker(-1)
 		return
@@ -351,7 +352,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader, t
 	bytesJustRead, errNonBatch = md.headerSerializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", FIELDNAME_POINTSDESERIALIZED, int(size))
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_POINTSDESERIALIZED, int(size))
 		return
 	}
 
@@ -415,13 +416,13 @@ func UseExistingSlice[PointType any, PointTypePtr interface {
 			// The error message depends on whether the capacity is too small as well.
 			if cap(existingSlice) < int(length) {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](ErrInsufficientBufferForDeserialization,
-					"%w: in UseExistingSlice, The length of the given buffer was %v{BufferSize}, but the slice read would have size %v{ReadSliceLen}",
+					"%w: in UseExistingSlice, The length of the given buffer was %v{BufferSize}, but the slice read would have size %v{ReadSliceLen}", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 					"BufferSize", targetSliceLen,
 					"ReadSliceLen", int(length),
 					"BufferCapacity", cap(existingSlice))
 			} else {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](ErrInsufficientBufferForDeserialization,
-					"%w: in UseExistingSlice, the length of the given buffer was %v{BufferSize}, but the slice read would have size %v{ReadSliceLen}. Note that the given buffer would have had sufficient capacity %v{BufferCapacity}",
+					"%w: in UseExistingSlice, the length of the given buffer was %v{BufferSize}, but the slice read would have size %v{ReadSliceLen}. Note that the given buffer would have had sufficient capacity %v{BufferCapacity}", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 					"BufferSize", targetSliceLen,
 					"ReadSliceLen", int(length),
 					"BufferCapacity", cap(existingSlice))
@@ -470,7 +471,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoints(outputStream io.Writ
 				errorTransform.UnexpectEOF2(&errSingle)
 			}
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errSingle,
-				ErrorPrefix+"batch serialization failed after deserializing %{PointsSerialized} many points with error %w",
+				ErrorPrefix+"batch serialization failed after deserializing %{PointsSerialized} many points with error %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 				"PointsSerialized", i)
 			return
 		}
@@ -491,7 +492,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 	expectedSize, errOverflow := md.SliceOutputLength(L)
 	if errOverflow != nil {
 		// var noWriteAttempt :=
-		overflowErrData := BatchSerializationErrorData{WriteErrorData: bandersnatchErrors.NoWriteAttempt, PointsSerialized: 0}
+		overflowErrData := BatchSerializationErrorData{WriteErrorData: errorconsts.NoWriteAttempt, PointsSerialized: 0}
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrSizeDoesNotFitInt32, ErrorPrefix+"called SerializeSlice with a slice that would require more than MaxInt32 bytes to serialize", &overflowErrData)
 		return
 	}
@@ -501,7 +502,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 	bytesWritten += bytesJustWritten
 	if errHeader != nil {
 		err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errHeader,
-			ErrorPrefix+"failed to write slice header. Error was %w",
+			ErrorPrefix+"failed to write slice header. Error was %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 			"PointsSerialized", 0,
 			"PartialWrite", bytesWritten != 0)
 		return
@@ -522,7 +523,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 		bytesWritten += bytesJustWritten
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
-				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
+				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 				"PointsSerialized", i,
 				FIELDNAME_PARTIAL_WRITE, true)
 			return
@@ -533,7 +534,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 		bytesWritten += bytesJustWritten
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
-				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
+				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 				"PointsSerialized", i,
 				FIELDNAME_PARTIAL_WRITE, true)
 			return
@@ -544,7 +545,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 		bytesWritten += bytesJustWritten
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
-				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
+				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 				"PointsSerialized", i+1,
 				FIELDNAME_PARTIAL_WRITE, true)
 			return
@@ -556,7 +557,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 	bytesWritten += bytesJustWritten
 	if errNonBatch != nil {
 		err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
-			ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
+			ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 			"PointsSerialized", LInt, // Note: PointsSerialized needs type int, not int32
 			FIELDNAME_PARTIAL_WRITE, true)
 		return
diff --git a/bandersnatch/pointserializer/utils.go b/bandersnatch/pointserializer/utils.go
index 526a0c1..7368e2b 100644
--- a/bandersnatch/pointserializer/utils.go
+++ b/bandersnatch/pointserializer/utils.go
@@ -9,12 +9,13 @@ import (
 
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
+	"github.com/GottfriedHerold/Bandersnatch/internal/errorconsts"
 )
 
-const FIELDNAME_PARTIAL_READ = bandersnatchErrors.FIELDNAME_PARTIAL_READ
-const FIELDNAME_PARTIAL_WRITE = bandersnatchErrors.FIELDNAME_PARTIAL_WRITE
-const FIELDNAME_ACTUALLY_READ = bandersnatchErrors.FIELDNAME_ACTUALLY_READ
-const FIELDNAME_BYTES_READ = bandersnatchErrors.FIELDNAME_BYTES_READ
+const FIELDNAME_PARTIAL_READ = errorconsts.FIELDNAME_PARTIAL_READ
+const FIELDNAME_PARTIAL_WRITE = errorconsts.FIELDNAME_PARTIAL_WRITE
+const FIELDNAME_ACTUALLY_READ = errorconsts.FIELDNAME_ACTUALLY_READ
+const FIELDNAME_BYTES_READ = errorconsts.FIELDNAME_BYTES_READ
 
 // additional data contained in errors returned by consumeExpectRead. Note that this "extends" bandersnatchErrors.ReadErrorData
 type headerRead struct {
@@ -22,6 +23,7 @@ type headerRead struct {
 	ActuallyRead   []byte
 	ExpectedToRead []byte
 	BytesRead      int
+	IoError        bool
 }
 
 func init() {
@@ -92,7 +94,7 @@ func consumeExpectRead(input io.Reader, expectToRead []byte) (bytes_read int, re
 		buf = buf[0:bytes_read:bytes_read] // We reduce the cap, so maybe some future version of Go actually frees the trailing memory. (We *could* copy it to a new buffer, but that's probably worse in most cases)
 
 		// Note: We deep-copy the contents of expectToRead. The reason is that the caller might later modify the backing array otherwise.
-		var returnedErrorData headerRead = headerRead{ActuallyRead: buf, ExpectedToRead: copyByteSlice(expectToRead), BytesRead: bytes_read} // extra data returned in error
+		var returnedErrorData headerRead = headerRead{ActuallyRead: buf, ExpectedToRead: copyByteSlice(expectToRead), BytesRead: bytes_read, IoError: true} // extra data returned in error
 
 		if errors.Is(err, io.ErrUnexpectedEOF) {
 			// Note: Sprintf is only used for the length of the expected input. The other %%v{arg} are done via errorsWithData, hence escaping the %.
@@ -170,9 +172,9 @@ func writeFull(output io.Writer, data []byte) (bytesWritten int, err bandersnatc
 
 	bytesWritten, errPlain := output.Write(data)
 	if errPlain != nil {
-		err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](errPlain, ErrorPrefix+"An error occured when trying to write %v{Data} to io.Writer. We only wrote %v{BytesWritten} data. The error was:\n%w",
+		err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](errPlain, ErrorPrefix+"An error occured when trying to write %v{Data} to io.Writer. We only wrote %v{BytesWritten} data. The error was:\n%w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 			"Data", copyByteSlice(data),
-			bandersnatchErrors.FIELDNAME_BYTES_WRITTEN, bytesWritten,
+			errorconsts.FIELDNAME_BYTES_WRITTEN, bytesWritten,
 			FIELDNAME_PARTIAL_WRITE, bytesWritten != 0 && bytesWritten < len(data),
 		)
 	} // else err == nil
diff --git a/bandersnatch/pointserializer/values_serializers.go b/bandersnatch/pointserializer/values_serializers.go
index 4374426..9eb31b6 100644
--- a/bandersnatch/pointserializer/values_serializers.go
+++ b/bandersnatch/pointserializer/values_serializers.go
@@ -72,7 +72,7 @@ type valuesSerializer interface {
 func updateReadError(errPtr *bandersnatchErrors.DeserializationError, bytesReadPtr *int, expectToRead int) {
 	if *errPtr != nil {
 		var bytesRead int = *bytesReadPtr
-		*errPtr = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](*errPtr,
+		*errPtr = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](*errPtr, errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 			FIELDNAME_PARTIAL_READ, bytesRead != 0 && bytesRead != expectToRead,
 			// NOTE: We do not update the "BytesRead" metadata in the error. This is intentional: "BytesRead" refers to the failing sub-call.
 		)
@@ -85,7 +85,7 @@ func updateReadError(errPtr *bandersnatchErrors.DeserializationError, bytesReadP
 func updateWriteError(errPtr *bandersnatchErrors.SerializationError, bytesWrittenPtr *int, expectToWrite int) {
 	if *errPtr != nil {
 		var bytesWritten int = *bytesWrittenPtr
-		*errPtr = errorsWithData.AddDataToError_params[bandersnatchErrors.WriteErrorData](*errPtr,
+		*errPtr = errorsWithData.AddDataToError_params[bandersnatchErrors.WriteErrorData](*errPtr, errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 			FIELDNAME_PARTIAL_WRITE, (bytesWritten != 0) && (bytesWritten != expectToWrite),
 			// NOTE: We do not update the "BytesWritten" metadata in the error. This is intentional: "BytesWritten" refers to the failing sub-call.
 		)
-- 
2.43.0


From 15ab9da3979754c40994fd7326a8ff1e492bde82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 05/38] fix: exponents: Neg negates its argument instead of the
 receiver's old value

---
 bandersnatch/exponents/exponents.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/exponents/exponents.go b/bandersnatch/exponents/exponents.go
index d6ddcbc..8f68c71 100644
--- a/bandersnatch/exponents/exponents.go
+++ b/bandersnatch/exponents/exponents.go
@@ -227,10 +227,10 @@ func (z *Exponent) Neg(x *Exponent) {
 		return
 	}
 	var borrow uint64
-	z.value[0], borrow = bits.Sub64(curveExponent_0, z.value[0], 0)
-	z.value[1], borrow = bits.Sub64(curveExponent_1, z.value[1], borrow)
-	z.value[2], borrow = bits.Sub64(curveExponent_2, z.value[2], borrow)
-	z.value[3], _ = bits.Sub64(curveExponent_3, z.value[3], borrow)
+	z.value[0], borrow = bits.Sub64(curveExponent_0, x.value[0], 0)
+	z.value[1], borrow = bits.Sub64(curveExponent_1, x.value[1], borrow)
+	z.value[2], borrow = bits.Sub64(curveExponent_2, x.value[2], borrow)
+	z.value[3], _ = bits.Sub64(curveExponent_3, x.value[3], borrow)
 }
 
 // SetZero sets the exponent value to 0
-- 
2.43.0


From 06ef32fb9c4f7a9f71f283598ecbc3a01abe2209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 06/38] fix: exponents: ModuloP253 subtracts the group order
 instead of subtracting from it

---
 bandersnatch/exponents/exponents.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/exponents/exponents.go b/bandersnatch/exponents/exponents.go
index 8f68c71..f22d3fd 100644
--- a/bandersnatch/exponents/exponents.go
+++ b/bandersnatch/exponents/exponents.go
@@ -55,7 +55,7 @@ func (z *Exponent) ModuloP253() (ret Exponent) {
 	if z.isNormalized_Subgroup() {
 		ret = *z
 	} else {
-		ret.Sub(&p253Exponent, z)
+		ret.Sub(z, &p253Exponent)
 	}
 	return
 }
-- 
2.43.0


From 267131a69d0b1a4bb657d0f93366cac780255680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 07/38] fix: Uint256 (de)serialization from buffers and slices
 must account for the bytes read

Deserialize_Buffer and DeserializeAndGetPrefix_Buffer left the data in the buffer and reported 0 bytes read on success;
Deserialize_Bytes and DeserializeAndGetPrefix_Bytes reported 0 bytes read.
---
 bandersnatch/fieldElements/uint256_serialize.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bandersnatch/fieldElements/uint256_serialize.go b/bandersnatch/fieldElements/uint256_serialize.go
index 10f7a31..7dd0531 100644
--- a/bandersnatch/fieldElements/uint256_serialize.go
+++ b/bandersnatch/fieldElements/uint256_serialize.go
@@ -210,7 +210,8 @@ func (z *Uint256) Deserialize_Buffer(input *bytes.Buffer, byteOrder FieldElement
 	}
 
 	// Write to z
-	byteOrder.Uint256_indirect(input.Bytes(), (*[4]uint64)(z))
+	bytesRead = 32
+	byteOrder.Uint256_indirect(input.Next(32), (*[4]uint64)(z)) // input.Next consumes the bytes, as for any other reader
 	return
 }
 
@@ -221,6 +222,7 @@ func (z *Uint256) Deserialize_Bytes(input []byte, byteOrder FieldElementEndianne
 	}
 
 	// Write to z
+	bytesRead = 32
 	byteOrder.Uint256_indirect(input, (*[4]uint64)(z))
 	return
 }
@@ -285,7 +287,7 @@ func (z *Uint256) DeserializeAndGetPrefix_Buffer(input *bytes.Buffer, prefixLeng
 		return
 	}
 
-	// Optimization: Instead of copying the data into buf, we check for the correct size and then read directly from the underlying wrapped []byte via input.Bytes()
+	// Optimization: Instead of copying the data into buf, we check for the correct size and then read directly from the underlying wrapped []byte via input.Next()
 
 	// check that the input has sufficient size
 	if inputSize := input.Len(); inputSize < 32 {
@@ -295,7 +297,8 @@ func (z *Uint256) DeserializeAndGetPrefix_Buffer(input *bytes.Buffer, prefixLeng
 	}
 
 	// Write to z
-	byteOrder.Uint256_indirect(input.Bytes(), (*[4]uint64)(z))
+	bytesRead = 32
+	byteOrder.Uint256_indirect(input.Next(32), (*[4]uint64)(z)) // input.Next consumes the bytes, as for any other reader
 
 	// read out the top prefixLength many bits.
 	prefix = common.PrefixBits(z[3] >> (64 - prefixLength))
@@ -323,6 +326,7 @@ func (z *Uint256) DeserializeAndGetPrefix_Bytes(input []byte, prefixLength uint8
 	}
 
 	// Write to z
+	bytesRead = 32
 	byteOrder.Uint256_indirect(input, (*[4]uint64)(z))
 	// read out the top prefixLength many bits.
 	prefix = common.PrefixBits(z[3] >> (64 - prefixLength))
-- 
2.43.0


From dae92cf67e53a217f972eed6633bd1a2540803d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 08/38] fix: callcounters: Id.Get reports ok == false for
 unknown ids instead of dereferencing nil

---
 internal/callcounters/callcounters.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index a050604..d129af4 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -499,6 +499,9 @@ func (id Id) Get() (ret int, ok bool) {
 	}
 	correctDependencies()
 	cc, ok := callCounters[id]
+	if !ok {
+		return
+	}
 	ret = cc.count_modified
 	return
 }
-- 
2.43.0


From 80e33a4b427a6e51f225abc9b33acd5308187742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 09/38] fix: callcounters: CreateAttachedCallCounter accepts an
 empty attachTo id, as documented

---
 internal/callcounters/callcounters.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index d129af4..b89211b 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -225,7 +225,9 @@ func CreateNewCallCounter(id Id, displayName string, doDisplay bool, attachTo Id
 // It also makes the attached-to parent display the difference between itself and its children.
 func CreateAttachedCallCounter(id Id, displayName string, attachTo Id) (cc *CallCounter) {
 	cc = CreateNewCallCounter(id, displayName, true, attachTo, false)
-	attachTo.SetDisplayRemaining(true)
+	if attachTo != "" {
+		attachTo.SetDisplayRemaining(true)
+	}
 	return
 }
 
-- 
2.43.0


From 86a1641254645501ed787a91cac8bccaa2c98630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 10/38] fix: callcounters: the structure report marks counters
 below hidden ones as recursively hidden

---
 internal/callcounters/callcounters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index b89211b..ae05467 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -402,7 +402,7 @@ func GetCallCounterStructureReport(indent string) (ret string) {
 				ret += item.Tag
 				if !item.CC.display {
 					ret += " (hidden)"
-					if hidebelow > item.depth {
+					if hidebelow == -1 || hidebelow > item.depth {
 						hidebelow = item.depth
 					}
 				} else if hidebelow == -1 {
-- 
2.43.0


From 1e56a84cb686ca0fe46153a83e8f73f57916e186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 11/38] fix: FaultyBuffer: a short read below the fault
 threshold is not a fault

---
 internal/testutils/failingIO.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/testutils/failingIO.go b/internal/testutils/failingIO.go
index 085d897..f6177ad 100644
--- a/internal/testutils/failingIO.go
+++ b/internal/testutils/failingIO.go
@@ -49,7 +49,7 @@ func (fb *FaultyBuffer) Read(p []byte) (n int, err error) {
 	if err != nil {
 		return
 	}
-	if fault {
+	if fault && n == L { // if n < L, the content ended before we reached faultThreshold
 		err = fb.designatedErr
 		fb.alreadyRead += 1 // to differentiate repeated calls
 	}
-- 
2.43.0


From 5844dc2a7473d47072cfcb5a0869cd6dc30cf598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:46 +0000
Subject: [PATCH 12/38] fix: BitHeader.SetBitHeader validates before modifying
 the receiver

---
 bandersnatch/common/embedded_params.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bandersnatch/common/embedded_params.go b/bandersnatch/common/embedded_params.go
index 024a8a5..2dc0f96 100644
--- a/bandersnatch/common/embedded_params.go
+++ b/bandersnatch/common/embedded_params.go
@@ -51,9 +51,7 @@ func (bh *BitHeader) GetBitHeader() BitHeader {
 // You are supposed to write e.g. bh.SetBitHeader(PrefixBits(0b0101), 4)
 // with explicit type conversion to PrefixBits in order to not mess up the order of parameters.
 func (bh *BitHeader) SetBitHeader(prefixBits PrefixBits, prefixLen uint8) {
-	bh.prefixBits = prefixBits
-	bh.prefixLen = prefixLen
-	bh.validate()
+	*bh = MakeBitHeader(prefixBits, prefixLen) // validates before we write to bh
 }
 
 // MakeBitHeader creates a new BitHeader with the given prefixBits and prefixLen.
-- 
2.43.0


From b224f3e0d003406b95b84760bfe31e59914fc0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:46 +0000
Subject: [PATCH 13/38] fix: errorsWithData: syntax conditions are checked
 below conditionals, too

---
 bandersnatch/errorsWithData/formatting_interpolate.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index d4fcbfc..8d4435e 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -202,14 +202,15 @@ func (abase *base_ast_fmt) handleSyntaxConditions() error {
 // It checks that the strings given as format verbs, conditions, variable names satisfy specific constraints
 // and ensures that errors are handled correctly later.
 //
-// For ast_cond, we just flag the conditional as invalid on failure.
+// For ast_cond, we flag the conditional as invalid on failure and process the child. Note that we process the child even on failure.
 func (abase *base_ast_condition) handleSyntaxConditions() error {
+	childError := abase.child.handleSyntaxConditions()
 	if !validConditionString(abase.condition) {
 		// make_invalid(3) causes Interpolate to display children unconditionally && display an error message containing the condition.
 		abase.make_invalid(3)
 		return fmt.Errorf(ErrorPrefix+"invalid condition string: %s", abase.condition)
 	} else {
-		return nil
+		return childError
 	}
 }
 
-- 
2.43.0


From a8dd9f4484c21a8ebaf8288c45ad9faf27bc2bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 14/38] fix: errorsWithData: ValidateError_Params(nil) uses the
 error's own parameters, as documented, instead of panicking

---
 bandersnatch/errorsWithData/plainErrorWithParams.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index b8bf691..cbd5747 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -251,5 +251,8 @@ func (e *errorWithParameters_common) ValidateError_Base() error {
 //
 // This method is required for [ValidateError_Base] or [ValidateError_Final] to recurse and part of the [ErrorInterpolater] interface.
 func (e *errorWithParameters_common) ValidateError_Params(params_passed ParamMap) error {
+	if params_passed == nil {
+		params_passed = e.params
+	}
 	return e.parsedInterpolationString.VerifyParameters_passed(e.params, params_passed, e.wrapped_error)
 }
-- 
2.43.0


From 689c732e91fb7d3c1b82ec7bb675a2cca05334b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 15/38] fix: errorsWithData: validation does not report the
 special names for the parameter map as missing

---
 bandersnatch/errorsWithData/formatting_interpolate.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index 8d4435e..21b310b 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -349,7 +349,7 @@ func (a ast_string) VerifyParameters_passed(ParamMap, ParamMap, error) error {
 func (a ast_fmtPercent) VerifyParameters_direct(parameters_direct ParamMap, _ error) (err error) {
 
 	_, ok := parameters_direct[a.variableName]
-	if !ok {
+	if !ok && !utils.ElementInList(a.variableName, validMapSelectors[:]) { // the map itself is always present
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
 	}
 	return nil
@@ -360,7 +360,7 @@ func (a ast_fmtPercent) VerifyParameters_passed(parameters_direct ParamMap, _ Pa
 
 	// same as VerifyParameters_direct. We ignore the parameters_passed map
 	_, ok := parameters_direct[a.variableName]
-	if !ok {
+	if !ok && !utils.ElementInList(a.variableName, validMapSelectors[:]) { // the map itself is always present
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
 	}
 	return nil
@@ -377,7 +377,7 @@ func (a ast_fmtDollar) VerifyParameters_direct(_ ParamMap, _ error) error {
 func (a ast_fmtDollar) VerifyParameters_passed(_ ParamMap, parameters_passed ParamMap, _ error) (err error) {
 
 	_, ok := parameters_passed[a.variableName]
-	if !ok {
+	if !ok && !utils.ElementInList(a.variableName, validMapSelectors[:]) { // the map itself is always present
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
 	}
 	return nil
-- 
2.43.0


From b6369957003ccdfbc04db9a5f0f2fb5c27dd0be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:13 +0000
Subject: [PATCH 16/38] fix: errorsWithData: garbled in-band messages for
 invalid format verbs and variable names

---
 bandersnatch/errorsWithData/formatting_interpolate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index 21b310b..317ed13 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -178,7 +178,7 @@ func (abase *base_ast_fmt) handleSyntaxConditions() error {
 	}
 
 	if strings.ContainsRune(abase.formatString, '%') {
-		abase.errorString = fmt.Errorf(`<!Format Verb %s for %s contains %%>`+abase.formatString, abase.variableName)
+		abase.errorString = fmt.Errorf(`<!Format Verb %s for %s contains %%>`, abase.formatString, abase.variableName)
 		return fmt.Errorf(ErrorPrefix+`Interpolation string contains a format string verb %s, which contains  '%%'. This will not work with the fmt package`, abase.formatString)
 	}
 
@@ -190,7 +190,7 @@ func (abase *base_ast_fmt) handleSyntaxConditions() error {
 			return fmt.Errorf(ErrorPrefix+"Variable name %s in interpolation string starting with %s is not recognized by the language", abase.variableName, string(specialVariableNameIndicator))
 		}
 	} else if !ValidInterpolationName(abase.variableName) {
-		abase.errorString = fmt.Errorf(`<!Variable name %s not allowed by the language`, abase.variableName)
+		abase.errorString = fmt.Errorf(`<!Variable name %s not allowed by the language>`, abase.variableName)
 		return fmt.Errorf(ErrorPrefix+"Variable name %s is not allowed by the language", abase.variableName)
 	}
 
-- 
2.43.0


From 2971518fea881b57daaebde94c1a150a45dee542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:15 +0000
Subject: [PATCH 17/38] fix: errorsWithData: complete the syntax tree when
 creating an error; printing an error from several goroutines was a data race

---
 bandersnatch/errorsWithData/plainErrorWithParams.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index cbd5747..3736ec7 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -140,6 +140,8 @@ func makeErrorWithParametersCommon(baseError error, interpolationString string)
 	// Parse the intepolation string.
 	// We ignore potential returned errors: If there is a parsing error, this is additionally recorded in ret.parsedInterpolationString itself.
 	ret.parsedInterpolationString, _ = make_ast(tokens)
+	// This modifies the syntax tree, so we have to do it before the error can be used concurrently. Again, errors are recorded in the tree.
+	_ = ret.parsedInterpolationString.handleSyntaxConditions()
 	ret.params = GetData_map(baseError)
 	return
 }
-- 
2.43.0


From eb6adfadf7dd8c44dd3655b422f91aa3ddfc63b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 18/38] fix: errorsWithData: a parse error inside two or more
 nested conditionals panicked (only half of the open conditionals were closed)

---
 bandersnatch/errorsWithData/formatting_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/errorsWithData/formatting_parse.go b/bandersnatch/errorsWithData/formatting_parse.go
index d5fe6c7..a79913e 100644
--- a/bandersnatch/errorsWithData/formatting_parse.go
+++ b/bandersnatch/errorsWithData/formatting_parse.go
@@ -777,7 +777,7 @@ func make_ast(tokens tokenList) (ret ast_root, err error) {
 		// nodes of types ast_condPercent and ast_condDollar and causes
 		// the condition to be ignored, so the conditional interpolation is always evaluated.
 		// This is mostly to ensure that diagnostic is not hidden.
-		for i := 0; i < (stack.Len()/2)-1; i++ {
+		for stack.Len() > 2 {
 			_ = stack.Pop().(ast_list)
 			condNode := stack.Pop().(ast_cond)
 			condition := condNode.get_condition()
-- 
2.43.0


From e3be146642bfb53debb90706cde1f6a7aa1c12e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 19/38] fix: errorsWithData: NewErrorWithData_struct could
 create an ErrorWithData[T] from which no T can be read (wrongly typed
 parameter kept by PreferPreviousData)

---
 bandersnatch/errorsWithData/modify_errors.go        | 3 ++-
 bandersnatch/errorsWithData/plainErrorWithParams.go | 9 ++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/errorsWithData/modify_errors.go b/bandersnatch/errorsWithData/modify_errors.go
index 04c6bad..c79c0da 100644
--- a/bandersnatch/errorsWithData/modify_errors.go
+++ b/bandersnatch/errorsWithData/modify_errors.go
@@ -28,7 +28,8 @@ import (
 //
 // For baseError == nil, interpolationString == "", this function panics.
 // For baseError == nil, interpolationString != "", creates a new error that does not wrap an error.
-// The function also panics if StructType is unsuited (e.g. contains unexported fields)
+// The function also panics if StructType is unsuited (e.g. contains unexported fields) or if mode is [PreferPreviousData] and
+// some parameter of baseError, which then takes precedence, has the wrong type for the corresponding field of StructType.
 func NewErrorWithData_struct[StructType any](baseError error, interpolationString string, data *StructType, mode ...PreviousDataTreatment) ErrorWithData[StructType] {
 	if len(mode) > 1 {
 		panic(ErrorPrefix + "called NewErrorWithData_struct with more than 1 mode")
diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index 3736ec7..367e54e 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -196,11 +196,18 @@ func deleteParameterFromError[StructType any](baseError error, interpolationStri
 // mode controls how already-present data in baseError should be handled.
 //
 // The function may panic if called with invalid StructType, so StructType should be checked by the caller beforehand.
-// By design, it also panics if mode==[AssertDataIsNotReplaced] and there is different data in base error.
+// By design, it also panics if mode==[AssertDataIsNotReplaced] and there is different data in base error
+// or if mode==[PreferPreviousData] and data in base error, which is kept, has the wrong type for StructType.
 func newErrorWithData_struct[StructType any](baseError error, interpolationString string, data *StructType, mode PreviousDataTreatment) (ret *errorWithParameters_T[StructType]) {
 	ret = new(errorWithParameters_T[StructType])
 	ret.errorWithParameters_common = makeErrorWithParametersCommon(baseError, interpolationString)
 	fillMapFromStruct(data, &ret.errorWithParameters_common.params, mode)
+
+	// If mode == [PreferPreviousData], we keep parameters of baseError. Those may be of the wrong type for StructType.
+	err := ensureCanMakeStructFromParameters[StructType](&ret.errorWithParameters_common.params, EnsureDataIsPresent)
+	if err != nil {
+		panic(err)
+	}
 	return
 }
 
-- 
2.43.0


From 1d17c1c94ee4f31b53a1f5a4258cc9cbd7db4f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 20/38] fix: curvePoints: Point_efgh_full.IsInSubgroup answered
 true for a NaP without calling the NaP handler

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index d00e343..acb1bf2 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -1112,6 +1112,9 @@ func (p *Point_efgh_full) SetFrom(input CurvePointPtrInterfaceRead) {
 
 // IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
 func (p *Point_efgh_full) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
 	return legendreCheckA_EG(p.e, p.g) && legendreCheckE1_FH(p.f, p.h)
 }
 
-- 
2.43.0


From 62479c3b33b836ed3b1a1b7e85a0d3a7791fd311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 21/38] fix: curvePoints: IsInSubgroup of the subgroup point
 types answered true for a NaP without calling the NaP handler

---
 bandersnatch/curvePoints/curve_point.go            | 1 -
 bandersnatch/curvePoints/curve_point_axtw.go       | 9 +++++++++
 bandersnatch/curvePoints/curve_point_doubleproj.go | 9 +++++++++
 bandersnatch/curvePoints/curve_point_xtw.go        | 9 +++++++++
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/bandersnatch/curvePoints/curve_point.go b/bandersnatch/curvePoints/curve_point.go
index f1cb5e6..44d36ec 100644
--- a/bandersnatch/curvePoints/curve_point.go
+++ b/bandersnatch/curvePoints/curve_point.go
@@ -262,7 +262,6 @@ type thisCurvePointCanRepresentFullCurve struct{}
 func (thisCurvePointCanRepresentInfinity) CanRepresentInfinity() bool         { return true }
 func (thisCurvePointCannotRepresentInfinity) CanRepresentInfinity() bool      { return false }
 func (thisCurvePointCanOnlyRepresentSubgroup) CanOnlyRepresentSubgroup() bool { return true }
-func (thisCurvePointCanOnlyRepresentSubgroup) IsInSubgroup() bool             { return true }
 func (thisCurvePointCanRepresentFullCurve) CanOnlyRepresentSubgroup() bool    { return false }
 func (thisCurvePointCanRepresentFullCurve) HasDecaf() bool                    { return false }
 
diff --git a/bandersnatch/curvePoints/curve_point_axtw.go b/bandersnatch/curvePoints/curve_point_axtw.go
index 9380b7f..22f1c31 100644
--- a/bandersnatch/curvePoints/curve_point_axtw.go
+++ b/bandersnatch/curvePoints/curve_point_axtw.go
@@ -429,6 +429,15 @@ func (p *point_axtw_base) toDecaf_axtw() (ret point_axtw_base) {
 }
 */
 
+// IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
+// For this type, this is true for every point that is not a NaP.
+func (p *Point_axtw_subgroup) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
+	return true
+}
+
 // IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
 func (p *Point_axtw_full) IsInSubgroup() bool {
 	if p.IsNaP() {
diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index acb1bf2..d5c742f 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -1110,6 +1110,15 @@ func (p *Point_efgh_full) SetFrom(input CurvePointPtrInterfaceRead) {
 	}
 }
 
+// IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
+// For this type, this is true for every point that is not a NaP.
+func (p *Point_efgh_subgroup) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
+	return true
+}
+
 // IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
 func (p *Point_efgh_full) IsInSubgroup() bool {
 	if p.IsNaP() {
diff --git a/bandersnatch/curvePoints/curve_point_xtw.go b/bandersnatch/curvePoints/curve_point_xtw.go
index f1aaa40..e0f7b16 100644
--- a/bandersnatch/curvePoints/curve_point_xtw.go
+++ b/bandersnatch/curvePoints/curve_point_xtw.go
@@ -585,6 +585,15 @@ func (p *point_xtw_base) T_decaf_affine() FieldElement {
 	return p.t
 }
 
+// IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
+// For this type, this is true for every point that is not a NaP.
+func (p *Point_xtw_subgroup) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
+	return true
+}
+
 // IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
 func (p *Point_xtw_full) IsInSubgroup() bool {
 	if p.IsNaP() {
-- 
2.43.0


From a22be4ed9689df545b8e5a921608f39304d67960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 22/38] fix: curvePoints: failing SetFromSubgroupPoint of the
 xtw types on a NaP overwrote the receiver

---
 bandersnatch/curvePoints/curve_point_xtw.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/bandersnatch/curvePoints/curve_point_xtw.go b/bandersnatch/curvePoints/curve_point_xtw.go
index e0f7b16..f0ad3b8 100644
--- a/bandersnatch/curvePoints/curve_point_xtw.go
+++ b/bandersnatch/curvePoints/curve_point_xtw.go
@@ -1073,7 +1073,6 @@ func (p *point_xtw_base) NegEq() {
 func (p *Point_xtw_subgroup) SetFromSubgroupPoint(input CurvePointPtrInterfaceRead, trusted IsInputTrusted) (ok bool) {
 	if input.IsNaP() {
 		napEncountered("Converting NaP to xtw via SetFromSubgroupPoint", false, input)
-		*p = Point_xtw_subgroup{}
 		return false
 	}
 	if input.CanOnlyRepresentSubgroup() {
@@ -1115,7 +1114,6 @@ func (p *Point_xtw_subgroup) SetFromSubgroupPoint(input CurvePointPtrInterfaceRe
 func (p *Point_xtw_full) SetFromSubgroupPoint(input CurvePointPtrInterfaceRead, trusted IsInputTrusted) (ok bool) {
 	if input.IsNaP() {
 		napEncountered("Converting NaP point to xtw subgroup point", false, input)
-		*p = Point_xtw_full{}
 		return false
 	}
 	if !trusted.Bool() {
-- 
2.43.0


From 9976a102fc100e844b737037ec6f68fde1f83fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 23/38] fix: curvePoints: Point_efgh_full.EndoEq turned a NaP
 into a valid point if the NaP handler returned true

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index d5c742f..d97f5ea 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -976,6 +976,11 @@ func (p *Point_efgh_subgroup) EndoEq() {
 //
 // p.EndoEq() is equivalent to p.Endo(&p).
 func (p *Point_efgh_full) EndoEq() {
+	if p.IsNaP() {
+		napEncountered("Computing endomorphism of NaP", false, p)
+		p.point_efgh_base = point_efgh_base{}
+		return
+	}
 	if p.IsAtInfinity() {
 		p.point_efgh_base = orderTwoPoint_efghbase
 	} else {
-- 
2.43.0


From 2400c754e853ffdd49510aef67bab5dc49b73b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 24/38] fix: curvePoints: Point_efgh_subgroup.Endo kept
 computing with a NaP of a foreign point type

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index d97f5ea..45efa90 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -857,6 +857,8 @@ func (p *Point_efgh_subgroup) Endo(input CurvePointPtrInterfaceRead) {
 		ensureSubgroupOnly(input)
 		if input.IsNaP() {
 			napEncountered("Computing endomorphism of NaP", false, input)
+			p.point_efgh_base = point_efgh_base{}
+			return
 		}
 		if input.IsNeutralElement() {
 			p.point_efgh_base = neutralElement_efghbase
-- 
2.43.0


From 6398beb7b40ec836c3e8f9d8489969037158a875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 25/38] fix: curvePoints: Double silently ignored its argument
 if it was of a foreign point type

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index 45efa90..7f797f5 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -796,6 +796,19 @@ func (p *point_efgh_base) Double(x CurvePointPtrInterfaceRead) {
 		p.double_ss(&x.point_efgh_base)
 	case *Point_efgh_subgroup:
 		p.double_ss(&x.point_efgh_base)
+	default:
+		if x.IsNaP() {
+			napEncountered("NaP of unknown type encountered while Doubling", false, x)
+			*p = point_efgh_base{}
+			return
+		}
+		// Doubling P and doubling P+A gives the same result, so the P vs. P+A ambiguity does not matter.
+		var xConverted point_xtw_base
+		xConverted.x = x.X_decaf_projective()
+		xConverted.y = x.Y_decaf_projective()
+		xConverted.z = x.Z_decaf_projective()
+		// double_st does not use the input's t
+		p.double_st(&xConverted)
 	}
 }
 
-- 
2.43.0


From 589994fa6dff03733c167e2d3ebb12def152a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 26/38] fix: curvePoints: NormalizeForZ of the axtw types did
 not pass the NaP to the NaP handler

---
 bandersnatch/curvePoints/curve_point_axtw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/curvePoints/curve_point_axtw.go b/bandersnatch/curvePoints/curve_point_axtw.go
index 22f1c31..1e94e3d 100644
--- a/bandersnatch/curvePoints/curve_point_axtw.go
+++ b/bandersnatch/curvePoints/curve_point_axtw.go
@@ -812,7 +812,7 @@ func (p *Point_axtw_full) SetAffineTwoTorsion() {
 // On such failure, the representation may still change (to a different NaP or to a different representation of the point at infinity)
 func (p *point_axtw_base) NormalizeForZ() (ok bool) {
 	if p.IsNaP() {
-		napEncountered("called NormalizerForZ on NaP of type axtw", false)
+		napEncountered("called NormalizerForZ on NaP of type axtw", false, p)
 		return false
 	}
 	return true
-- 
2.43.0


From 64319e7cb7137704679dec7849772e925f10a12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 27/38] fix: curvePoints: message of ErrInvalidSign for
 CurvePointFromXAndSignY referred to a non-existing parameter signY

---
 bandersnatch/curvePoints/serializer_curve_field.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 2c13aca..626bb20 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -253,7 +253,7 @@ func CurvePointFromXAndSignY_full(x *FieldElement, signY int, trustLevel IsInput
 	// accept signs from +/- 1 in this function.
 	if signY != 1 && signY != -1 {
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrInvalidSign,
-			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full expects the sign argument be either -1 or +1. Got %v{signY} instead. The X coordinate given was %v{X}",
+			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full expects the sign argument be either -1 or +1. Got %v{SignY} instead. The X coordinate given was %v{X}",
 			&retData{X: *x, SignY: signY},
 		)
 
@@ -314,7 +314,7 @@ func CurvePointFromXAndSignY_subgroup(x *FieldElement, signY int, trustLevel IsI
 	// accept signs from +/- 1 in this function.
 	if signY != 1 && signY != -1 {
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrInvalidSign,
-			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_subgroup expects the sign argument be either -1 or +1. Got %v{signY} instead. The X coordinate given was %v{X}",
+			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_subgroup expects the sign argument be either -1 or +1. Got %v{SignY} instead. The X coordinate given was %v{X}",
 			&retData{X: *x, SignY: signY},
 		)
 
-- 
2.43.0


From 8fb426c3edd3af96203353e5fffcf2d1366d543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 28/38] fix: curvePoints: ErrNotInSubgroup from
 CurvePointFromYAndSignX_subgroup did not contain the given Y and SignX

---
 bandersnatch/curvePoints/serializer_curve_field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 626bb20..8bb2c95 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -483,7 +483,7 @@ func CurvePointFromYAndSignX_subgroup(y *FieldElement, signX int, trustLevel IsI
 			&struct {
 				Y     FieldElement
 				SignX int
-			}{})
+			}{Y: *y, SignX: signX})
 		point = Point_axtw_subgroup{} // just for clarity. This is the case anyway.
 		if trustLevel.Bool() {
 			panic(err)
-- 
2.43.0


From 0865076c029aac22a67bad33bcdf36bff136b84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 29/38] fix: curvePoints: the message of ErrInvalidSign from
 CurvePointFromYAndSignX was not a valid error template (unescaped braces)

---
 bandersnatch/curvePoints/serializer_curve_field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 8bb2c95..973f11e 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -413,7 +413,7 @@ func CurvePointFromYAndSignX_full(y *FieldElement, signX int, trustLevel IsInput
 	}
 	if signX != +1 && signX != -1 {
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrInvalidSign,
-			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromYAndSignX_full and CurvePointFromYAndSignX_subgroup expect signX from {-1,0,+1}. Got: %v{SignX}. The provided Y coorindate was %v{Y}",
+			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromYAndSignX_full and CurvePointFromYAndSignX_subgroup expect signX from -1, 0 or +1. Got: %v{SignX}. The provided Y coorindate was %v{Y}",
 			&errData{Y: *y, SignX: signX})
 		if trustLevel.Bool() {
 			panic(err)
-- 
2.43.0


From 86abd5ce8a6837794c74e0c83d2948b2e8354ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:02 +0000
Subject: [PATCH 30/38] fix: curvePoints: IsE1 and IsE2 ignored the result of
 the NaP handler

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 6 ++++++
 bandersnatch/curvePoints/curve_point_xtw.go        | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index 7f797f5..02a4bc9 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -500,6 +500,9 @@ func (p *Point_efgh_full) IsNeutralElement() bool {
 // Note that none of the points at infinity is in the p253 prime-order subgroup and so the method cannot return true for Point_efgh_subgroup.
 // Also note that for twisted Edwards curves, the neutral element is NOT at infinity.
 func (p *point_efgh_base) IsE1() bool {
+	if p.IsNaP() {
+		return napEncountered("checking whether NaP point is E1", true, p)
+	}
 	if !p.IsAtInfinity() {
 		return false
 	}
@@ -513,6 +516,9 @@ func (p *point_efgh_base) IsE1() bool {
 // Note that none of the points at infinity is in the p253 prime-order subgroup and so the method cannot return true for Point_efgh_subgroup.
 // Also note that for twisted Edwards curves, the neutral element is NOT at infinity.
 func (p *point_efgh_base) IsE2() bool {
+	if p.IsNaP() {
+		return napEncountered("checking whether NaP point is E2", true, p)
+	}
 	if !p.IsAtInfinity() {
 		return false
 	}
diff --git a/bandersnatch/curvePoints/curve_point_xtw.go b/bandersnatch/curvePoints/curve_point_xtw.go
index f0ad3b8..bc8b7ba 100644
--- a/bandersnatch/curvePoints/curve_point_xtw.go
+++ b/bandersnatch/curvePoints/curve_point_xtw.go
@@ -914,6 +914,9 @@ func (p *Point_xtw_subgroup) IsAtInfinity() bool {
 // Note that none of the points at infinity is in the p253 prime-order subgroup and so the method cannot return true for Point_xtw_subgroup.
 // Also note that for twisted Edwards curves, the neutral element is NOT at infinity.
 func (p *point_xtw_base) IsE1() bool {
+	if p.IsNaP() {
+		return napEncountered("checking whether NaP point is E1", true, p)
+	}
 	if !p.IsAtInfinity() {
 		return false
 	}
@@ -927,6 +930,9 @@ func (p *point_xtw_base) IsE1() bool {
 // Note that none of the points at infinity is in the p253 prime-order subgroup and so the method cannot return true for Point_xtw_subgroup.
 // Also note that for twisted Edwards curves, the neutral element is NOT at infinity.
 func (p *point_xtw_base) IsE2() bool {
+	if p.IsNaP() {
+		return napEncountered("checking whether NaP point is E2", true, p)
+	}
 	if !p.IsAtInfinity() {
 		return false
 	}
-- 
2.43.0


From 89888d70c91f9ccbe44066a0049de14af5812c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 31/38] fix: pointserializer: DeserializeSlice reported an
 unexpected EOF (and bytes that were never read) when nothing at all could be
 read

---
 bandersnatch/pointserializer/headerSerializer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/pointserializer/headerSerializer.go b/bandersnatch/pointserializer/headerSerializer.go
index 231e18a..c73b551 100644
--- a/bandersnatch/pointserializer/headerSerializer.go
+++ b/bandersnatch/pointserializer/headerSerializer.go
@@ -297,10 +297,12 @@ func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reade
 	bytesJustRead, errPlain := io.ReadFull(input, buf[:])
 	bytesRead += bytesJustRead // Validate ensures this fits into int32
 	if errPlain != nil {
-		errorTransform.UnexpectEOF(&errPlain) // turn io.EOF into io.ErrUnexpectedEOF
+		if bytesRead > 0 {
+			errorTransform.UnexpectEOF(&errPlain) // turn io.EOF into io.ErrUnexpectedEOF
+		}
 		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errPlain, errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 			FIELDNAME_PARTIAL_READ, bytesJustRead != simpleHeaderSliceLengthOverhead,
-			FIELDNAME_ACTUALLY_READ, buf[:],
+			FIELDNAME_ACTUALLY_READ, buf[:bytesJustRead],
 			FIELDNAME_BYTES_READ, bytesJustRead,
 		)
 		return
-- 
2.43.0


From 85545380b95c8577e1f39da3739a3b2a7eabe2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 32/38] fix: pointserializer: DeserializeSlice reported a plain
 EOF when the input ended inside the slice

---
 bandersnatch/pointserializer/serialize_curve_points.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bandersnatch/pointserializer/serialize_curve_points.go b/bandersnatch/pointserializer/serialize_curve_points.go
index 73b63e1..d2a6e1d 100644
--- a/bandersnatch/pointserializer/serialize_curve_points.go
+++ b/bandersnatch/pointserializer/serialize_curve_points.go
@@ -195,6 +195,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_header.deserializePerPointHeader(inputStream)
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
+			errorTransform.UnexpectEOF2(&errNonBatch) // we are inside the slice
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
 				ErrorPrefix+"slice deserialization failed when reading per-point header after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 				"PointsDeserialized", i,
@@ -205,6 +206,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_point.DeserializeCurvePoint(inputStream, trustLevel, targetSlice.GetByIndex(i))
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
+			errorTransform.UnexpectEOF2(&errNonBatch) // we are inside the slice
 			if i != size || !deserializer_header.trivialPerPointFooter() || !deserializer_header.trivialPerPointFooter() || bytesJustRead == 0 {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
 					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
@@ -221,6 +223,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_header.deserializePerPointFooter(inputStream)
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
+			errorTransform.UnexpectEOF2(&errNonBatch) // we are inside the slice
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+"slice deserialization failed when reading per-point footer after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, "PointsDeserialized", i+1, FIELDNAME_PARTIAL_READ, true)
 			return
 		}
@@ -291,6 +294,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader,
 	bytesJustRead, errNonBatch = md.headerDeserializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
+		errorTransform.UnexpectEOF2(&errNonBatch) // we are inside the slice
 		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_POINTSDESERIALIZED, int(size))
 		return
 	}
@@ -352,6 +356,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader, t
 	bytesJustRead, errNonBatch = md.headerSerializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
+		errorTransform.UnexpectEOF2(&errNonBatch) // we are inside the slice
 		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_POINTSDESERIALIZED, int(size))
 		return
 	}
-- 
2.43.0


From 08d4dec4c8b18049496e799e9d5da87f7188660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 33/38] fix: pointserializer: DeserializeSlice set PartialRead
 although the whole slice was read, and did not set it when the global footer
 was missing

---
 bandersnatch/pointserializer/serialize_curve_points.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bandersnatch/pointserializer/serialize_curve_points.go b/bandersnatch/pointserializer/serialize_curve_points.go
index d2a6e1d..b0ecb66 100644
--- a/bandersnatch/pointserializer/serialize_curve_points.go
+++ b/bandersnatch/pointserializer/serialize_curve_points.go
@@ -207,7 +207,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
 			errorTransform.UnexpectEOF2(&errNonBatch) // we are inside the slice
-			if i != size || !deserializer_header.trivialPerPointFooter() || !deserializer_header.trivialPerPointFooter() || bytesJustRead == 0 {
+			if i != size-1 || !deserializer_header.trivialPerPointFooter() || !deserializer_header.trivialGlobalSliceFooter() || bytesJustRead == 0 {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
 					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 					"PointsDeserialized", i,
@@ -295,6 +295,9 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader,
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
 		errorTransform.UnexpectEOF2(&errNonBatch) // we are inside the slice
+		if bytesJustRead == 0 {
+			errNonBatch = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](errNonBatch, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, true)
+		}
 		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_POINTSDESERIALIZED, int(size))
 		return
 	}
@@ -357,6 +360,9 @@ func (md *multiSerializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader, t
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
 		errorTransform.UnexpectEOF2(&errNonBatch) // we are inside the slice
+		if bytesJustRead == 0 {
+			errNonBatch = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](errNonBatch, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, true)
+		}
 		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_POINTSDESERIALIZED, int(size))
 		return
 	}
-- 
2.43.0


From 0d15cd92fa82534f9ee2bd6c80ebc2b54a628452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 34/38] fix: pointserializer: the error of SliceOutputLength
 referred to a datum that does not exist

---
 bandersnatch/pointserializer/serialize_curve_point.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/pointserializer/serialize_curve_point.go b/bandersnatch/pointserializer/serialize_curve_point.go
index 7a5c752..3524947 100644
--- a/bandersnatch/pointserializer/serialize_curve_point.go
+++ b/bandersnatch/pointserializer/serialize_curve_point.go
@@ -738,9 +738,9 @@ func (md *multiDeserializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int
 
 		// TODO: Guarantee Size parameter via the type system to make that check obsolete?
 
-		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
+		overheadSize, OverheadSizeExists := errorsWithData.GetParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{OverheadSize}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "OverheadSize", overheadSize, "PointSize", pointCost64)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
@@ -772,9 +772,9 @@ func (md *multiSerializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int32
 
 		// TODO: Guarantee Size parameter via the type system to make that check obsolete?
 
-		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
+		overheadSize, OverheadSizeExists := errorsWithData.GetParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{OverheadSize}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "OverheadSize", overheadSize, "PointSize", pointCost64)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
-- 
2.43.0


From 1ff056bea899ec2c9f954f089cb1a02771bb8a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 35/38] fix: pointserializer: PointsDeserialized did not count
 the point that was stored before its footer turned out to be wrong

---
 .../pointserializer/serialize_curve_point.go  | 14 +++++++++++++
 .../pointserializer/serialize_curve_points.go | 20 +++++++++++++------
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/bandersnatch/pointserializer/serialize_curve_point.go b/bandersnatch/pointserializer/serialize_curve_point.go
index 3524947..47fa182 100644
--- a/bandersnatch/pointserializer/serialize_curve_point.go
+++ b/bandersnatch/pointserializer/serialize_curve_point.go
@@ -535,6 +535,12 @@ func (md *multiSerializer[_, _, _, _]) WithEndianness(newEndianness binary.ByteO
 //
 // On error, outputPoint may or may not be changed.
 func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Reader, trustLevel common.IsInputTrusted, outputPoint curvePoints.CurvePointPtrInterfaceWrite) (bytesRead int, err bandersnatchErrors.DeserializationError) {
+	bytesRead, _, err = md.deserializeCurvePoint(inputStream, trustLevel, outputPoint)
+	return
+}
+
+// deserializeCurvePoint is DeserializeCurvePoint; it additionally reports whether outputPoint was written to (this may be the case even if there was an error).
+func (md *multiDeserializer[_, _, _, _]) deserializeCurvePoint(inputStream io.Reader, trustLevel common.IsInputTrusted, outputPoint curvePoints.CurvePointPtrInterfaceWrite) (bytesRead int, pointWritten bool, err bandersnatchErrors.DeserializationError) {
 	bytesRead, err = md.headerDeserializer.deserializeSinglePointHeader(inputStream)
 	if err != nil {
 		if bytesRead > 0 {
@@ -562,6 +568,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 		}
 		return
 	}
+	pointWritten = true
 	bytesJustRead, err = md.headerDeserializer.deserializeSinglePointFooter(inputStream)
 	bytesRead += bytesJustRead
 	if err != nil {
@@ -579,6 +586,12 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 //
 // On error, outputPoint may or may not be changed.
 func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Reader, trustLevel common.IsInputTrusted, outputPoint curvePoints.CurvePointPtrInterfaceWrite) (bytesRead int, err bandersnatchErrors.DeserializationError) {
+	bytesRead, _, err = md.deserializeCurvePoint(inputStream, trustLevel, outputPoint)
+	return
+}
+
+// deserializeCurvePoint is DeserializeCurvePoint; it additionally reports whether outputPoint was written to (this may be the case even if there was an error).
+func (md *multiSerializer[_, _, _, _]) deserializeCurvePoint(inputStream io.Reader, trustLevel common.IsInputTrusted, outputPoint curvePoints.CurvePointPtrInterfaceWrite) (bytesRead int, pointWritten bool, err bandersnatchErrors.DeserializationError) {
 	bytesRead, err = md.headerSerializer.deserializeSinglePointHeader(inputStream)
 	if err != nil {
 		if bytesRead > 0 {
@@ -609,6 +622,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Read
 
 		return
 	}
+	pointWritten = true
 	bytesJustRead, err = md.headerSerializer.deserializeSinglePointFooter(inputStream)
 	bytesRead += bytesJustRead
 	if err != nil {
diff --git a/bandersnatch/pointserializer/serialize_curve_points.go b/bandersnatch/pointserializer/serialize_curve_points.go
index b0ecb66..72fd40f 100644
--- a/bandersnatch/pointserializer/serialize_curve_points.go
+++ b/bandersnatch/pointserializer/serialize_curve_points.go
@@ -88,7 +88,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoints(inputStream io.R
 	}
 	for i := 0; i < L; i++ {
 		outputPoint := outputPoints.GetByIndex(i) // returns pointer, wrapped in interface
-		bytesJustRead, errSingle := md.DeserializeCurvePoint(inputStream, trustLevel, outputPoint)
+		bytesJustRead, pointWritten, errSingle := md.deserializeCurvePoint(inputStream, trustLevel, outputPoint)
 		bytesRead += bytesJustRead
 		if errSingle != nil {
 			// Turns an EOF into an UnexpectedEOF if i != 0.
@@ -96,8 +96,12 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoints(inputStream io.R
 				errorTransform.UnexpectEOF2(&errSingle)
 			}
 
-			// the index i gives the correct value for the PointsDeserialized error data. The other data (including PartialRead) is actually correct.
-			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errSingle, ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, "PointsDeserialized", i)
+			// the index i (plus one, if only the footer was wrong) gives the correct value for the PointsDeserialized error data. The other data (including PartialRead) is actually correct.
+			pointsDeserialized := i
+			if pointWritten {
+				pointsDeserialized++
+			}
+			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errSingle, ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, "PointsDeserialized", pointsDeserialized)
 			return
 		}
 	}
@@ -133,7 +137,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoints(inputStream io.Rea
 	}
 	for i := 0; i < L; i++ {
 		outputPoint := outputPoints.GetByIndex(i) // returns pointer, wrapped in interface
-		bytesJustRead, errSingle := md.DeserializeCurvePoint(inputStream, trustLevel, outputPoint)
+		bytesJustRead, pointWritten, errSingle := md.deserializeCurvePoint(inputStream, trustLevel, outputPoint)
 		bytesRead += bytesJustRead
 		if errSingle != nil {
 			// Turns an EOF into an UnexpectedEOF if i != 0.
@@ -141,10 +145,14 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoints(inputStream io.Rea
 				errorTransform.UnexpectEOF2(&errSingle)
 			}
 
-			// the index i gives the correct value for the PointsDeserialized error data. The other data (including PartialRead) is actually correct.
+			// the index i (plus one, if only the footer was wrong) gives the correct value for the PointsDeserialized error data. The other data (including PartialRead) is actually correct.
+			pointsDeserialized := i
+			if pointWritten {
+				pointsDeserialized++
+			}
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errSingle,
 				ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
-				"PointsDeserialized", i)
+				"PointsDeserialized", pointsDeserialized)
 			return
 		}
 	}
-- 
2.43.0


From a479b9d8544f4e456c88f32f3cbb89636a442484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:52 +0000
Subject: [PATCH 36/38] fix: utils: DoesMethodExist counted a receiver argument
 for methods of interface types, so WithParameter refused every serializer
 held in an interface variable

---
 internal/utils/reflect_call.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/utils/reflect_call.go b/internal/utils/reflect_call.go
index 91813ad..fa04f60 100644
--- a/internal/utils/reflect_call.go
+++ b/internal/utils/reflect_call.go
@@ -39,17 +39,22 @@ func DoesMethodExist(receiverType reflect.Type, methodName string, inputs []refl
 		return false, fmt.Sprintf("type %v has no method named %v", typeName, methodName)
 	}
 	methodType := method.Type
-	// +1 comes from the receiver. Since we called MethodByName on a reflect.Type (rather than a reflect.Value), the method is unbound and has the receiver as explicit first input.
-	if methodType.NumIn() != len(inputs)+1 {
-		return false, fmt.Sprintf("method %v.%v has an unexpected number of input arguments. We expected %v, got %v", typeName, methodName, len(inputs), methodType.NumIn()-1)
+	// Since we called MethodByName on a reflect.Type (rather than a reflect.Value), the method is unbound and has the receiver as explicit first input.
+	// The exception are methods of interface types: for those, the type of the method does not include a receiver.
+	numReceivers := 1
+	if receiverType.Kind() == reflect.Interface {
+		numReceivers = 0
+	}
+	if methodType.NumIn() != len(inputs)+numReceivers {
+		return false, fmt.Sprintf("method %v.%v has an unexpected number of input arguments. We expected %v, got %v", typeName, methodName, len(inputs), methodType.NumIn()-numReceivers)
 	}
 	if methodType.NumOut() != len(outputs) {
 		return false, fmt.Sprintf("method %v.%v has an unexpected number of output arguments. We expected %v, got %v", typeName, methodName, len(outputs), methodType.NumOut())
 	}
 
 	for i, t := range inputs {
-		if !t.AssignableTo(methodType.In(i + 1)) {
-			return false, fmt.Sprintf("method %v.%v's %v'th parameter type %v is not assignable to the expected parameter %v", typeName, methodName, i+1, GetReflectName(t), GetReflectName(methodType.In(i+1)))
+		if !t.AssignableTo(methodType.In(i + numReceivers)) {
+			return false, fmt.Sprintf("method %v.%v's %v'th parameter type %v is not assignable to the expected parameter %v", typeName, methodName, i+1, GetReflectName(t), GetReflectName(methodType.In(i+numReceivers)))
 		}
 	}
 
-- 
2.43.0


From 54f68d4d4d24615d92fb0d0ac93d990a9ff54f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 37/38] fix: convert NaPs and points at infinity of any type to
 Point_xtw_full

SetFrom for a point type that only satisfies the mandatory interface panicked
with "Not implemented" for points at infinity and NaPs.
---
 bandersnatch/curvePoints/curve_point_xtw.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/bandersnatch/curvePoints/curve_point_xtw.go b/bandersnatch/curvePoints/curve_point_xtw.go
index bc8b7ba..b39cb46 100644
--- a/bandersnatch/curvePoints/curve_point_xtw.go
+++ b/bandersnatch/curvePoints/curve_point_xtw.go
@@ -1181,10 +1181,21 @@ func (p *Point_xtw_full) SetFrom(input CurvePointPtrInterfaceRead) {
 	case CurvePointPtrInterfaceCooReadExtended:
 		p.x, p.y, p.t, p.z = input.XYTZ_projective()
 	default:
-		p.x, p.y, p.z = input.XYZ_projective()
-		if p.z.IsZero() {
-			panic("Not implemented.") // TODO: FIX THIS
+		// X:Y:Z alone does not determine NaPs and points at infinity, so these need to be treated separately.
+		if input.IsNaP() {
+			napEncountered("Converting NaP to xtw_full", false, input)
+			*p = Point_xtw_full{}
+			return
+		}
+		if input.IsAtInfinity() {
+			if input.(CurvePointPtrInterfaceDistinguishInfinity).IsE1() {
+				p.SetE1()
+			} else {
+				p.SetE2()
+			}
+			return
 		}
+		p.x, p.y, p.z = input.XYZ_projective()
 		p.t.Mul(&p.x, &p.y)
 		p.x.MulEq(&p.z)
 		p.y.MulEq(&p.z)
-- 
2.43.0


From cf0bb518af35282536e55e085a2b57fd78c7a510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:58 +0000
Subject: [PATCH 38/38] fix: fieldElements: reciprocal of a modulus just below
 2^193 could be one too small

---
 bandersnatch/fieldElements/modulus.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/bandersnatch/fieldElements/modulus.go b/bandersnatch/fieldElements/modulus.go
index 777efc1..62ec8b6 100644
--- a/bandersnatch/fieldElements/modulus.go
+++ b/bandersnatch/fieldElements/modulus.go
@@ -493,6 +493,20 @@ func (z *modulus) reciprocal() {
 	x4, _ = bits.Add64(r4h, r4h, c)
 
 	if p < 0 {
+		// Doubling the (rounded down) candidate always gives an even number; the correct reciprocal may be one larger.
+		// This is the case iff the next larger number x, multiplied by m, is still smaller than 2^512.
+		var product [9]uint64
+		for i, x := range [5]uint64{x0 | 1, x1, x2, x3, x4} {
+			var row [5]uint64
+			LongMulUint64(&row, (*Uint256)(&z.m), x)
+			c = 0
+			for j := range row {
+				product[i+j], c = bits.Add64(product[i+j], row[j], c)
+			}
+		}
+		if product[8] == 0 {
+			x0 |= 1
+		}
 		r4h, r4i, r4j, r4k, r4l = x4, x3, x2, x1, x0
 		p = 0 // avoid negative shift below
 	}
-- 
2.43.0

