From 7bd10ddc26134d30502cf8dac020855f514bd5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 01/53] fix: Pad101Bits adds a spurious block when one padding
 byte is missing

---
 circuits/gadgets/keccak/pad.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/keccak/pad.go b/circuits/gadgets/keccak/pad.go
index 57156e8..1e2bd2b 100644
--- a/circuits/gadgets/keccak/pad.go
+++ b/circuits/gadgets/keccak/pad.go
@@ -75,7 +75,7 @@ func Pad101Bits(
 		}
 
 		actualLen := j
-		rounds := (actualLen+8)/1088 + 1
+		rounds := actualLen/1088 + 1
 
 		// insert the padding part
 		for ; j < actualLen+7; j++ {
@@ -83,11 +83,11 @@ func Pad101Bits(
 		}
 		padded[i][j] = 1
 		j++
-		for ; j < rounds*1088-8; j++ {
+		for ; j < rounds*1088; j++ {
 			padded[i][j] = 0
 		}
-		padded[i][j] = 1
-		j++
+		// if a single byte is missing, it holds both padding bits (0x81)
+		padded[i][rounds*1088-8] = 1
 
 		// populate the rest with dummy zeros
 		for ; j < outBitsLen; j++ {
-- 
2.43.0


From 00e7c9ad32738092525fbedd8bb45f3ec12a62df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 02/53] fix: PadBits101 overflows the block when one padding
 byte is missing

---
 circuits/gadgets/keccak/periphery.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/keccak/periphery.go b/circuits/gadgets/keccak/periphery.go
index 65f53f5..ffcfcbb 100644
--- a/circuits/gadgets/keccak/periphery.go
+++ b/circuits/gadgets/keccak/periphery.go
@@ -246,11 +246,15 @@ func PadBits101(api frontend.API, data []frontend.Variable, maxRound int) []fron
 	var missedLen = 1088 - len(data)%1088
 	var zeroBitLen = missedLen - 8*2
 
-	padBits = append(padBits, api.ToBinary(1, 8)...) // 1000, 0000
-	for i := 0; i < zeroBitLen; i++ {
-		padBits = append(padBits, 0) //00...0000
+	if missedLen == 8 {
+		padBits = append(padBits, api.ToBinary(129, 8)...) // 1000 0001
+	} else {
+		padBits = append(padBits, api.ToBinary(1, 8)...) // 1000, 0000
+		for i := 0; i < zeroBitLen; i++ {
+			padBits = append(padBits, 0) //00...0000
+		}
+		padBits = append(padBits, api.ToBinary(128, 8)...) // 0000 0001
 	}
-	padBits = append(padBits, api.ToBinary(128, 8)...) // 0000 0001
 
 	padZeroLen := maxRound*1088 - len(padBits)
 
-- 
2.43.0


From 17018940b8a3e30d08e2fee42f9bcd2eba6bd7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 03/53] fix: GetRoundIndex is one too high when one padding
 byte is missing

---
 circuits/gadgets/keccak/periphery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/keccak/periphery.go b/circuits/gadgets/keccak/periphery.go
index ffcfcbb..7c97e92 100644
--- a/circuits/gadgets/keccak/periphery.go
+++ b/circuits/gadgets/keccak/periphery.go
@@ -37,7 +37,7 @@ func GetKeccakRoundForPaddedBytes(data []byte) int {
 }
 
 func GetRoundIndex(bitsLen int) int {
-	return (bitsLen + 8) / 1088
+	return bitsLen / 1088
 }
 
 func Bytes2BlockBits(bytes []byte) (bits []uint8) {
-- 
2.43.0


From 4fde7e28033fe24966600bf2d3c35c938b0a861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 04/53] fix: Pad101Bytes overwrites memory after the caller's
 slice

---
 circuits/gadgets/keccak/periphery.go | 2 +-
 common/circuits/keccak.go            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/keccak/periphery.go b/circuits/gadgets/keccak/periphery.go
index 7c97e92..54ce222 100644
--- a/circuits/gadgets/keccak/periphery.go
+++ b/circuits/gadgets/keccak/periphery.go
@@ -24,7 +24,7 @@ func Pad101Bytes(data []byte) []byte {
 	if len(data)%136 == 0 {
 		miss = 136
 	}
-	data = append(data, 1)
+	data = append(data[:len(data):len(data)], 1) // never into the caller's spare capacity
 	for i := 0; i < miss-1; i++ {
 		data = append(data, 0)
 	}
diff --git a/common/circuits/keccak.go b/common/circuits/keccak.go
index 5ebb751..8fdcec8 100644
--- a/common/circuits/keccak.go
+++ b/common/circuits/keccak.go
@@ -9,7 +9,7 @@ func Pad101Bytes(data []byte) []byte {
 	if len(data)%136 == 0 {
 		miss = 136
 	}
-	data = append(data, 1)
+	data = append(data[:len(data):len(data)], 1) // never into the caller's spare capacity
 	for i := 0; i < miss-1; i++ {
 		data = append(data, 0)
 	}
-- 
2.43.0


From 56c46394724fd8aee15f8ca2240ec5ffa3238d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 05/53] fix: Bits2Nibbles groups nothing and never solves

---
 circuits/gadgets/conv/bits.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/conv/bits.go b/circuits/gadgets/conv/bits.go
index 4e232ca..4f1cfe8 100644
--- a/circuits/gadgets/conv/bits.go
+++ b/circuits/gadgets/conv/bits.go
@@ -48,9 +48,9 @@ func Bits2Uint128s(api frontend.API, bits [256]frontend.Variable) [2]frontend.Va
 }
 
 func Bits2Nibbles(api frontend.API, bits []frontend.Variable) []frontend.Variable {
-	bytes := []frontend.Variable{}
-	for i := 0; i < len(bits); i += 8 {
-		bytes = append(bytes, api.FromBinary(bits[i:i+4]))
+	nibbles := []frontend.Variable{}
+	for i := 0; i < len(bits); i += 4 {
+		nibbles = append(nibbles, api.FromBinary(bits[i:i+4]...))
 	}
-	return bytes
+	return nibbles
 }
-- 
2.43.0


From 632c8c63f69274fc1548c6ef0f78c0f8716cae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 06/53] fix: BitsToFrBigInt leaves the modulus itself unreduced

---
 common/utils/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/utils/binary.go b/common/utils/binary.go
index ba021f6..0b6ee43 100644
--- a/common/utils/binary.go
+++ b/common/utils/binary.go
@@ -59,7 +59,7 @@ func BitsToFrBigInt(b []uint, frModulus *big.Int) *big.Int {
 			var decimal = big.NewInt(1)
 			decimal.Lsh(decimal, uint(lens-i-1))
 			res.Add(res, decimal)
-			if res.Cmp(frModulus) > 0 {
+			if res.Cmp(frModulus) >= 0 {
 				res.Mod(res, frModulus)
 			}
 		}
-- 
2.43.0


From f59c6a2bf175ded49145a9d28139a2a76bdd9bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 07/53] fix: limbs.Split does not constrain the sizes of the
 hinted limbs

---
 circuits/gadgets/limbs/limbapi.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/circuits/gadgets/limbs/limbapi.go b/circuits/gadgets/limbs/limbapi.go
index 5dd8357..994514c 100644
--- a/circuits/gadgets/limbs/limbapi.go
+++ b/circuits/gadgets/limbs/limbapi.go
@@ -97,6 +97,13 @@ func (wa *API) Split(l Limb, newLimbSize int, nbLimbsOpt ...int) Limbs {
 		ret = append(ret, Limb{Val: out[len(out)-1], Size: remSize})
 	}
 	wa.api.AssertIsEqual(acc, l.Val)
+	// the sum alone leaves the hinted limbs free to borrow from each other: tie each of them to the bits of the word
+	bits := wa.api.ToBinary(l.Val, l.Size)
+	nbLow := l.Size
+	for _, limb := range ret {
+		nbLow -= limb.Size
+		wa.api.AssertIsEqual(limb.Val, wa.api.FromBinary(bits[nbLow:nbLow+limb.Size]...))
+	}
 	return ret
 }
 
-- 
2.43.0


From 611611ad885bad61bb69fe67150503ea61ece039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 08/53] fix: Resplit returns a single limb unsplit

---
 circuits/gadgets/limbs/limbapi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/limbs/limbapi.go b/circuits/gadgets/limbs/limbapi.go
index 994514c..ce51778 100644
--- a/circuits/gadgets/limbs/limbapi.go
+++ b/circuits/gadgets/limbs/limbapi.go
@@ -132,7 +132,7 @@ func (wa *API) Merge(ws Limbs) Limb {
 
 // Resplit resplits limbs into new limb sizes
 func (wa *API) Resplit(ws Limbs, newLimbSize int) Limbs {
-	if len(ws) == 1 {
+	if len(ws) == 1 && ws[0].Size <= newLimbSize {
 		return ws
 	}
 	totalSize := ws.TotalSize()
-- 
2.43.0


From 993a38e2f3398410b470b7a580159286f7a86f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 09/53] fix: ToElements drops chunks that fill no whole element

---
 circuits/gadgets/emulated/element.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuits/gadgets/emulated/element.go b/circuits/gadgets/emulated/element.go
index a5048a6..d99eeb6 100644
--- a/circuits/gadgets/emulated/element.go
+++ b/circuits/gadgets/emulated/element.go
@@ -34,6 +34,9 @@ func ToElements[T emulated.FieldParams](api frontend.API, in []frontend.Variable
 	var p T
 	s := inBitSize
 	inBits := len(in) * s
+	if int(p.BitsPerLimb())%s != 0 || inBits%int(p.BitsPerLimb()*p.NbLimbs()) != 0 {
+		panic(fmt.Errorf("cannot group %d chunks of %d bits into elements of %d limbs of %d bits", len(in), s, p.NbLimbs(), p.BitsPerLimb()))
+	}
 	varsPerLimb := int(p.BitsPerLimb()) / s
 	la := limbs.NewAPI(api)
 	ls := limbs.NewLimbs(in, s)
-- 
2.43.0


From 3df29c9fa1be14a7f72ad3cc4a36592be1a1b774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 10/53] fix: an empty list field counts as valid twice

---
 circuits/gadgets/rlp/rlp.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index afa2884..1690245 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -265,7 +265,7 @@ func RlpFieldPrefix(api frontend.API, in [2]frontend.Variable) (frontend.Variabl
 	isValid = api.Sub(isValid, api.Mul(lt1, isEmptyList))
 
 	prefixOrTotalHexLen = api.Add(api.Mul(isValid, prefixOrTotalHexLen), api.Mul(isArray, arrayHexLen))
-	isValid = api.Add(isValid, isArray)
+	isValid = api.Or(isValid, isArray)
 
 	isBig = api.Add(isBig, isArrayBig)
 
@@ -474,7 +474,7 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 			shiftToFieldIn = append(shiftToFieldIn, shiftToFieldRlpsOuts[idx][j])
 		}
 
-		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, isEmptyList, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
+		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, _, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
 
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 
@@ -517,7 +517,6 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 
 		//  lenSum = lenSum + 2 - 2 * fieldPrefix[idx].isLiteral + fieldRlpPrefix1HexLen[idx] + fieldHexLen[idx];
 		lenSum = api.Sub(api.Add(lenSum, 2), api.Mul(2, fieldPrefixIsLiteral))
-		lenSum = api.Sub(lenSum, api.Mul(1, isEmptyList))
 		lenSum = api.Add(lenSum, fieldRlpPrefix1HexLen, fieldHexLen)
 
 		fieldHexLen = api.Add(fieldHexLen, keptArrayPrefixLen)
-- 
2.43.0


From f97f589e049323c06870060ec00df06d412d0df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 11/53] fix: RlpNestArrayCheck takes the one-byte string 0x00
 for a field of no length

---
 circuits/gadgets/rlp/rlp.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index 1690245..4c74081 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -474,7 +474,7 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 			shiftToFieldIn = append(shiftToFieldIn, shiftToFieldRlpsOuts[idx][j])
 		}
 
-		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, _, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
+		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, _, _ := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
 
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 
@@ -511,7 +511,6 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 
 		fieldHexLen := api.Add(fieldTemp, api.Mul(2, fieldPrefixIsLiteral))
 		fieldHexLen = api.Sub(fieldHexLen, api.Mul(fieldTemp, fieldPrefixIsLiteral))
-		fieldHexLen = api.Mul(fieldHexLen, api.Sub(1, isZero))
 
 		check = api.Add(check, fieldPrefixIsValid)
 
-- 
2.43.0


From 6942238f93bbfba2e421f13304161679b450793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 12/53] fix: RLP prefixes that fill their declared room cannot
 be skipped

---
 circuits/gadgets/rlp/rlp.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index 4c74081..04e0c8b 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -402,7 +402,7 @@ func (a *ArrayCheck) LeftShiftRlpArrayPrefix(api frontend.API, in []frontend.Var
 	totalArrayHexLen := api.Sub(api.Mul(2, totalArrayOut[0]), prefixOrTotalHexLen)
 	totalArrayHexLen = api.Add(prefixOrTotalHexLen, api.Mul(isBig, totalArrayHexLen))
 
-	shlOut := ShiftLeft(api, a.MaxHexLen, 0, a.ArrayPrefixMaxHexLen, in, api.Add(2, arrayRlpPrefix1HexLen))
+	shlOut := ShiftLeft(api, a.MaxHexLen, 0, a.ArrayPrefixMaxHexLen+2, in, api.Add(2, arrayRlpPrefix1HexLen))
 	return shlOut, totalArrayHexLen
 }
 
@@ -456,7 +456,7 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 			for j := 0; j < a.MaxHexLen; j++ {
 				shiftToFieldRlpsIn = append(shiftToFieldRlpsIn, in[j])
 			}
-			shlOut := ShiftLeft(api, a.MaxHexLen, 0, a.ArrayPrefixMaxHexLen, shiftToFieldRlpsIn, api.Add(2, arrayRlpPrefix1HexLen))
+			shlOut := ShiftLeft(api, a.MaxHexLen, 0, a.ArrayPrefixMaxHexLen+2, shiftToFieldRlpsIn, api.Add(2, arrayRlpPrefix1HexLen))
 			shiftToFieldRlpsOuts = append(shiftToFieldRlpsOuts, make([]frontend.Variable, len(shlOut)))
 			shiftToFieldRlpsOuts[idx] = shlOut
 		} else {
@@ -484,7 +484,7 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 		shlToFieldShift = api.Sub(api.Add(2, fieldRlpPrefix1HexLen), shlToFieldShift)
 		keptArrayPrefixLen := api.Mul(shlToFieldShift, isArrayField) // array prefix will not be remove, so len should be added to filed hex
 		shlToFieldShift = api.Mul(shlToFieldShift, api.Sub(1, isArrayField))
-		shiftToLeftOut := ShiftLeft(api, a.MaxHexLen, 0, lenPrefixMaxHexs, shiftToFieldIn, shlToFieldShift)
+		shiftToLeftOut := ShiftLeft(api, a.MaxHexLen, 0, lenPrefixMaxHexs+2, shiftToFieldIn, shlToFieldShift)
 
 		shiftToFieldOuts = append(shiftToFieldOuts, make([]frontend.Variable, len(shiftToLeftOut)))
 		shiftToFieldOuts[idx] = shiftToLeftOut
@@ -615,7 +615,7 @@ func (a *ArrayCheck) RlpArrayCheck(api frontend.API, in []frontend.Variable, num
 		lenPrefixMaxHexs = (lenPrefixMaxHexs + 1) * 2
 		shlToFieldShift := api.Mul(fieldPrefixIsLiteral, api.Add(2, fieldRlpPrefix1HexLen))
 		shlToFieldShift = api.Sub(api.Add(2, fieldRlpPrefix1HexLen), shlToFieldShift)
-		shiftToLeftOut := ShiftLeft(api, a.MaxHexLen, 0, lenPrefixMaxHexs, shiftToFieldIn, shlToFieldShift)
+		shiftToLeftOut := ShiftLeft(api, a.MaxHexLen, 0, lenPrefixMaxHexs+2, shiftToFieldIn, shlToFieldShift)
 
 		shiftToFieldOuts = append(shiftToFieldOuts, make([]frontend.Variable, len(shiftToLeftOut)))
 		shiftToFieldOuts[idx] = shiftToLeftOut
@@ -711,7 +711,7 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 			for j := 0; j < a.MaxHexLen; j++ {
 				shiftToFieldRlpsIn = append(shiftToFieldRlpsIn, in[j])
 			}
-			shlOut := ShiftLeft(api, a.MaxHexLen, 0, a.ArrayPrefixMaxHexLen, shiftToFieldRlpsIn, api.Add(2, arrayRlpPrefix1HexLen))
+			shlOut := ShiftLeft(api, a.MaxHexLen, 0, a.ArrayPrefixMaxHexLen+2, shiftToFieldRlpsIn, api.Add(2, arrayRlpPrefix1HexLen))
 			shiftToFieldRlpsOuts = append(shiftToFieldRlpsOuts, make([]frontend.Variable, len(shlOut)))
 			shiftToFieldRlpsOuts[idx] = shlOut
 		} else {
@@ -737,7 +737,7 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 		lenPrefixMaxHexs = (lenPrefixMaxHexs + 1) * 2
 		shlToFieldShift := api.Mul(fieldPrefixIsLiteral, api.Add(2, fieldRlpPrefix1HexLen))
 		shlToFieldShift = api.Sub(api.Add(2, fieldRlpPrefix1HexLen), shlToFieldShift)
-		shiftToLeftOut := ShiftLeft(api, a.MaxHexLen, 0, lenPrefixMaxHexs, shiftToFieldIn, shlToFieldShift)
+		shiftToLeftOut := ShiftLeft(api, a.MaxHexLen, 0, lenPrefixMaxHexs+2, shiftToFieldIn, shlToFieldShift)
 
 		shiftToFieldOuts = append(shiftToFieldOuts, make([]frontend.Variable, len(shiftToLeftOut)))
 		shiftToFieldOuts[idx] = shiftToLeftOut
-- 
2.43.0


From cc7ca712aad6293e08d5777b4956150c937fbada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 13/53] fix: lists with fewer fields never decode when an
 absent field has a minimum size

---
 circuits/gadgets/rlp/rlp.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index 04e0c8b..2cede8e 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -594,7 +594,9 @@ func (a *ArrayCheck) RlpArrayCheck(api frontend.API, in []frontend.Variable, num
 			for j := 0; j < a.MaxHexLen; j++ {
 				shiftToFieldRlpsIn = append(shiftToFieldRlpsIn, shiftToFieldOuts[idx-1][j])
 			}
-			shlOut := ShiftLeft(api, a.MaxHexLen, a.FieldMinHexLen[idx-1], a.FieldMaxHexLen[idx-1], shiftToFieldRlpsIn, fieldHexLens[idx-1])
+			// a field past the last one has no length: stay inside the range of the shift
+			shiftLen := api.Select(LessThan(api, idx-1, fieldNum), fieldHexLens[idx-1], a.FieldMinHexLen[idx-1])
+			shlOut := ShiftLeft(api, a.MaxHexLen, a.FieldMinHexLen[idx-1], a.FieldMaxHexLen[idx-1], shiftToFieldRlpsIn, shiftLen)
 			//shlOut := ShiftLeft(api, a.MaxHexLen, a.FieldMinHexLen[idx-1], a.FieldMaxHexLen[idx-1], shiftToFieldRlpsIn, lenSum)
 			shiftToFieldRlpsOuts = append(shiftToFieldRlpsOuts, make([]frontend.Variable, len(shlOut)))
 			shiftToFieldRlpsOuts[idx] = shlOut
@@ -719,7 +721,9 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 			for j := 0; j < a.MaxHexLen; j++ {
 				shiftToFieldRlpsIn = append(shiftToFieldRlpsIn, shiftToFieldOuts[idx-1][j])
 			}
-			shlOut := ShiftLeft(api, a.MaxHexLen, a.FieldMinHexLen[idx-1], a.FieldMaxHexLen[idx-1], shiftToFieldRlpsIn, fieldHexLens[idx-1])
+			// a field past the last one has no length: stay inside the range of the shift
+			shiftLen := api.Select(LessThan(api, idx-1, FieldsNum), fieldHexLens[idx-1], a.FieldMinHexLen[idx-1])
+			shlOut := ShiftLeft(api, a.MaxHexLen, a.FieldMinHexLen[idx-1], a.FieldMaxHexLen[idx-1], shiftToFieldRlpsIn, shiftLen)
 			shiftToFieldRlpsOuts = append(shiftToFieldRlpsOuts, make([]frontend.Variable, len(shlOut)))
 			shiftToFieldRlpsOuts[idx] = shlOut
 		}
-- 
2.43.0


From d6a796efb5487d33dbc4f000485a7c40791d5b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 14/53] fix: the padding after a short block header is read as
 fields

---
 circuits/gadgets/rlp/rlp.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index 2cede8e..566fabb 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -706,7 +706,7 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 	var shiftToFieldRlpsOuts [][]frontend.Variable
 
 	for idx := 0; idx < a.MaxFields; idx++ {
-
+		idxLessThanMaxFields := LessThan(api, idx, FieldsNum)
 		if idx == 0 {
 			var shiftToFieldRlpsIn []frontend.Variable
 
@@ -735,6 +735,10 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 
 		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, _, _, _ := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
 
+		// what follows the last field is padding, whatever it looks like
+		fieldPrefixIsBig = api.Mul(fieldPrefixIsBig, idxLessThanMaxFields)
+		fieldPrefixIsLiteral = api.Or(fieldPrefixIsLiteral, api.Sub(1, idxLessThanMaxFields))
+
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 
 		lenPrefixMaxHexs := LogCeil(a.FieldMaxHexLen[idx]) / 8
@@ -766,7 +770,6 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 		temp2 := api.Sub(api.Mul(fieldHexLenMultiOut[0], 2), fieldPrefixPrefixOrTotalHexLen)
 		fieldTemp := api.Add(fieldPrefixPrefixOrTotalHexLen, api.Mul(fieldPrefixIsBig, temp2))
 
-		idxLessThanMaxFields := LessThan(api, idx, FieldsNum)
 		fieldHexLen := api.Add(fieldTemp, api.Mul(2, fieldPrefixIsLiteral))
 		fieldHexLen = api.Sub(fieldHexLen, api.Mul(fieldTemp, fieldPrefixIsLiteral))
 		fieldHexLen = api.Mul(fieldHexLen, idxLessThanMaxFields)
-- 
2.43.0


From 99560dc3cecf74e9b7205af654fd010ad81f410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 15/53] fix: fields whose declared bounds coincide may have
 another length

---
 circuits/gadgets/rlp/rlp.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index 566fabb..04b5351 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -420,6 +420,8 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 
 	check := isValid
 
+	sizeCheck := frontend.Variable(1)
+
 	lenSum := frontend.Variable(0)
 
 	var temp = frontend.Variable(0)
@@ -465,6 +467,10 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 				shiftToFieldRlpsIn = append(shiftToFieldRlpsIn, shiftToFieldOuts[idx-1][j])
 			}
 			shlOut := ShiftLeft(api, a.MaxHexLen, a.FieldMinHexLen[idx-1], a.FieldMaxHexLen[idx-1], shiftToFieldRlpsIn, fieldHexLens[idx-1])
+			if a.FieldMinHexLen[idx-1] == a.FieldMaxHexLen[idx-1] {
+				// the shift is a constant here, so it does not bound the length
+				sizeCheck = api.And(sizeCheck, api.IsZero(api.Sub(fieldHexLens[idx-1], a.FieldMinHexLen[idx-1])))
+			}
 			shiftToFieldRlpsOuts = append(shiftToFieldRlpsOuts, make([]frontend.Variable, len(shlOut)))
 			shiftToFieldRlpsOuts[idx] = shlOut
 		}
@@ -525,6 +531,7 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 	lenCheck := api.IsZero(api.Sub(totalArrayHexLen, lenSum))
 
 	out = api.IsZero(api.Sub(api.Add(check, lenCheck), api.Add(a.MaxFields, 2)))
+	out = api.And(out, sizeCheck)
 
 	return
 }
@@ -548,6 +555,8 @@ func (a *ArrayCheck) RlpArrayCheck(api frontend.API, in []frontend.Variable, num
 
 	check := isValid
 
+	sizeCheck := frontend.Variable(1)
+
 	lenSum := frontend.Variable(0)
 
 	var temp = frontend.Variable(0)
@@ -597,6 +606,10 @@ func (a *ArrayCheck) RlpArrayCheck(api frontend.API, in []frontend.Variable, num
 			// a field past the last one has no length: stay inside the range of the shift
 			shiftLen := api.Select(LessThan(api, idx-1, fieldNum), fieldHexLens[idx-1], a.FieldMinHexLen[idx-1])
 			shlOut := ShiftLeft(api, a.MaxHexLen, a.FieldMinHexLen[idx-1], a.FieldMaxHexLen[idx-1], shiftToFieldRlpsIn, shiftLen)
+			if a.FieldMinHexLen[idx-1] == a.FieldMaxHexLen[idx-1] {
+				// the shift is a constant here, so it does not bound the length
+				sizeCheck = api.And(sizeCheck, api.IsZero(api.Sub(shiftLen, a.FieldMinHexLen[idx-1])))
+			}
 			//shlOut := ShiftLeft(api, a.MaxHexLen, a.FieldMinHexLen[idx-1], a.FieldMaxHexLen[idx-1], shiftToFieldRlpsIn, lenSum)
 			shiftToFieldRlpsOuts = append(shiftToFieldRlpsOuts, make([]frontend.Variable, len(shlOut)))
 			shiftToFieldRlpsOuts[idx] = shlOut
@@ -659,6 +672,7 @@ func (a *ArrayCheck) RlpArrayCheck(api frontend.API, in []frontend.Variable, num
 
 	lenCheck := api.IsZero(api.Sub(totalArrayHexLen, lenSum))
 	out = api.IsZero(api.Sub(api.Add(check, lenCheck), api.Add(fieldNum, 2)))
+	out = api.And(out, sizeCheck)
 
 	return
 }
@@ -677,6 +691,8 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 
 	check := isValid
 
+	sizeCheck := frontend.Variable(1)
+
 	lenSum := frontend.Variable(0)
 
 	var temp = frontend.Variable(0)
@@ -724,6 +740,10 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 			// a field past the last one has no length: stay inside the range of the shift
 			shiftLen := api.Select(LessThan(api, idx-1, FieldsNum), fieldHexLens[idx-1], a.FieldMinHexLen[idx-1])
 			shlOut := ShiftLeft(api, a.MaxHexLen, a.FieldMinHexLen[idx-1], a.FieldMaxHexLen[idx-1], shiftToFieldRlpsIn, shiftLen)
+			if a.FieldMinHexLen[idx-1] == a.FieldMaxHexLen[idx-1] {
+				// the shift is a constant here, so it does not bound the length
+				sizeCheck = api.And(sizeCheck, api.IsZero(api.Sub(shiftLen, a.FieldMinHexLen[idx-1])))
+			}
 			shiftToFieldRlpsOuts = append(shiftToFieldRlpsOuts, make([]frontend.Variable, len(shlOut)))
 			shiftToFieldRlpsOuts[idx] = shlOut
 		}
@@ -785,6 +805,7 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 	lenCheck := api.IsZero(api.Sub(totalArrayHexLen, lenSum))
 
 	out = api.IsZero(api.Sub(api.Add(check, lenCheck), api.Add(a.MaxFields, 2)))
+	out = api.And(out, sizeCheck)
 
 	return
 }
-- 
2.43.0


From c934f0a464b459952a5090b8ea12a7bbd5e0a7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 16/53] fix: trie proofs must begin at the first nibble of the
 key

---
 circuits/gadgets/mpt/mpt.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 5663ed5..9deee65 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -70,7 +70,8 @@ func CheckMPTInclusionFixedKeyLength(
 	allFragmentsInput[0] = append(allFragmentsInput[0], tmp)
 
 	allFragmentsValidMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allFragmentsInput)
-	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth))
+	// the walk must begin at the first nibble of the key
+	allFragmentsValid := api.And(rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth)), api.IsZero(keyFragmentStarts[0]))
 
 	var leafStartInput [][]frontend.Variable
 	for i := 0; i < maxDepth; i++ {
@@ -304,7 +305,8 @@ func CheckMPTInclusionNoBranchTermination(
 	allFragmentsInput[0] = append(allFragmentsInput[0], tmp)
 
 	allFragmentsValidMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allFragmentsInput)
-	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth))
+	// the walk must begin at the first nibble of the key
+	allFragmentsValid := api.And(rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth)), api.IsZero(keyFragmentStarts[0]))
 
 	var leafStartInput [][]frontend.Variable
 	for i := 0; i < maxDepth; i++ {
-- 
2.43.0


From 8d14b4bd3439b105694901164f1de89a153aecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 17/53] fix: a trie of one node: compare the root with the last
 node

---
 circuits/gadgets/mpt/mpt.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 9deee65..97196f2 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -224,7 +224,12 @@ func CheckMPTInclusionFixedKeyLength(
 		nodeHashes[layer] = *rlp.Keccak256AsNibbles(api, nodeHashInputLengthAtCurrentLayer, nodeRlpBlock, nodeRoundIndexes[layer])
 	}
 
-	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], nodeHashes[0].Output[:], 64, 64)
+	// the root is the first inner node, or the last node if there is no other
+	var topHash []frontend.Variable
+	for i := 0; i < 64; i++ {
+		topHash = append(topHash, api.Select(depthEqual[0], leafHash.Output[i], nodeHashes[0].Output[i]))
+	}
+	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], topHash, 64, 64)
 	log.Debug(rootHashCheck, lastNodeCheckResult.result.output, allFragmentsValid, extensionCheckResults, branchCheckResults)
 
 	var allCheckMultiplexerInput [][]frontend.Variable
@@ -435,7 +440,12 @@ func CheckMPTInclusionNoBranchTermination(
 		nodeHashes[layer] = *rlp.Keccak256AsNibbles(api, nodeHashInputLengthAtCurrentLayer, nodeRlpBlock, nodeRoundIndexes[layer])
 	}
 
-	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], nodeHashes[0].Output[:], 64, 64)
+	// the root is the first inner node, or the last node if there is no other
+	var topHash []frontend.Variable
+	for i := 0; i < 64; i++ {
+		topHash = append(topHash, api.Select(depthEqual[0], leafHash[i], nodeHashes[0].Output[i]))
+	}
+	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], topHash, 64, 64)
 	log.Debug("Inclusion Check:", rootHashCheck, allFragmentsValid, extensionCheckResults, branchCheckResults)
 
 	var allCheckMultiplexerInput [][]frontend.Variable
-- 
2.43.0


From 9ad0a3e02d459a81470dfb7cd60150c45d44f14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:04 +0000
Subject: [PATCH 18/53] fix: index proofs: only branches consume exactly one
 nibble

---
 circuits/gadgets/mpt/mpt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 97196f2..e94b15c 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -290,7 +290,7 @@ func CheckMPTInclusionNoBranchTermination(
 	for index := 0; index < maxDepth-1; index++ {
 		isSingleKeyFragment = append(isSingleKeyFragment, rlp.Equal(api, api.Add(keyFragmentStarts[index], 1), keyFragmentStarts[index+1]))
 		isMonotoneStart = append(isMonotoneStart, rlp.LessThan(api, keyFragmentStarts[index], keyFragmentStarts[index+1]))
-		keyFragmentValidBranch = append(keyFragmentValidBranch, api.Or(isSingleKeyFragment[index], api.Sub(1, nodeTypes[index])))
+		keyFragmentValidBranch = append(keyFragmentValidBranch, api.Or(isSingleKeyFragment[index], nodeTypes[index]))
 		isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[index], keyLength))
 	}
 
-- 
2.43.0


From 26ebfade2ab8ac0fd7f04107fd0e17c50a40538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 19/53] fix: index proofs: the sum of all checks is 4*depth+2

---
 circuits/gadgets/mpt/mpt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index e94b15c..3611327 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -473,7 +473,7 @@ func CheckMPTInclusionNoBranchTermination(
 	allCheckMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allCheckMultiplexerInput)
 
 	return CheckMPTInclusionFixedKeyLengthResult{
-		Output:      rlp.Equal(api, allCheckMultiplexer[0], api.Add(api.Mul(depth, 4), 1)),
+		Output:      rlp.Equal(api, allCheckMultiplexer[0], api.Add(api.Mul(depth, 4), 2)),
 		ValueLength: 0,
 	}
 }
-- 
2.43.0


From 1a056b6090bce59c1b621e5c6ee3a6c9a240c91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:59 +0000
Subject: [PATCH 20/53] fix: storage absence: use the nibble at which the last
 branch is entered

---
 circuits/gadgets/mpt/mpt.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 3611327..5de5f95 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -99,10 +99,9 @@ func CheckMPTInclusionFixedKeyLength(
 	// 1. the node is last node
 	// 2. in case of the node is branch node or an extension node, but the key path is not matched
 	if isStorageProof {
-		lastNodeLayer := api.Sub(depth, 1)
-		lastNodeKeySelector := selector.Mux(api, lastNodeLayer, key[:]...)
+		// the nibble of the key at which the last node is entered
+		lastNodeKeySelector := selector.Mux(api, leafStartMultiplexer[0], key[:]...)
 
-		// layer index start at 0, last node layer = depth -1
 		lastNodeBranchCheck := NewMPTBranchCheck(64)
 		lastNodeBranchNonExistence := lastNodeBranchCheck.CheckBranchForNonExistence(api, lastNodeKeySelector, lastNodeRlp)
 		log.Infoln("lastNodeBranchNonExistence:", lastNodeBranchNonExistence)
-- 
2.43.0


From f336c9e055bc425cc940dd8048ac0697e7cc52d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 21/53] fix: storage absence: an extension that matches the key
 proves nothing

---
 circuits/gadgets/mpt/mpt_util.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt_util.go b/circuits/gadgets/mpt/mpt_util.go
index a3d3328..1dfe82f 100644
--- a/circuits/gadgets/mpt/mpt_util.go
+++ b/circuits/gadgets/mpt/mpt_util.go
@@ -230,13 +230,11 @@ func (ec *MPTExtensionCheck) checkExtensionNodeNonExistence(
 	// shift node type (node prefix), max type len = 2
 	keyPathsArr := rlp.ShiftLeft(api, ec.maxRLPLength, 0, 2, fields[0], nodeTypePrefixLength)
 
-	// check key path part
+	// check key path part: the key leaves the path of the extension (it goes on below the extension otherwise)
 	keyNibblesMatched := rlp.ArrayEqual(api, keyNibbles, keyPathsArr, ec.maxKeyLength, api.Sub(fieldsLength[0], nodeTypePrefixLength))
-	keyNibblesLengthMatched := rlp.Equal(api, keyNibbleLen, api.Sub(fieldsLength[0], nodeTypePrefixLength))
+	keyNotExistInPath := api.Sub(1, keyNibblesMatched)
 
-	keyNotExistInPath := api.Sub(1, api.And(keyNibblesMatched, keyNibblesLengthMatched))
-
-	isNotExist := rlp.Equal(api, api.Add(prefixCheck, keyNotExistInPath), 2)
+	isNotExist := rlp.Equal(api, api.Add(rlpout, prefixCheck, keyNotExistInPath), 3)
 	return isNotExist
 
 }
-- 
2.43.0


From 82f60696d42fa12ba1263494e1d5528a267bbe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 22/53] fix: storage absence: the claimed value must be zero

---
 circuits/gadgets/mpt/mpt.go      | 3 ++-
 circuits/gadgets/mpt/mpt_util.go | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 5de5f95..14c3389 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -110,7 +110,8 @@ func CheckMPTInclusionFixedKeyLength(
 		lastNodeExtensionNonExistence := lastNodeExtensionCheck.checkExtensionNodeNonExistence(api, leafSelector, leafSelectorLength, lastNodeRlp, leafPathPrefixLength)
 		log.Infoln("lastNodeExtensionNonExistence:", lastNodeExtensionNonExistence)
 
-		isNotExist := api.Or(lastNodeBranchNonExistence, lastNodeExtensionNonExistence)
+		// 3. the claimed value is zero
+		isNotExist := api.And(api.Or(lastNodeBranchNonExistence, lastNodeExtensionNonExistence), lastNodeCheckResult.isZeroValue)
 		lastNodeCheckResult.result.output = api.Select(isNotExist, 4, lastNodeCheckResult.result.output)
 
 	}
diff --git a/circuits/gadgets/mpt/mpt_util.go b/circuits/gadgets/mpt/mpt_util.go
index 1dfe82f..0f851d4 100644
--- a/circuits/gadgets/mpt/mpt_util.go
+++ b/circuits/gadgets/mpt/mpt_util.go
@@ -35,6 +35,7 @@ type MPTLeafCheck struct {
 type MPTLeafCheckResult struct {
 	result      MPTCheckResult
 	valueLength frontend.Variable
+	isZeroValue frontend.Variable
 }
 
 func (m *MPTLeafCheckResult) GetResult() MPTCheckResult {
@@ -109,6 +110,7 @@ func (leafCheck *MPTLeafCheck) CheckLeaf(
 			rlpTotalLength: totalRlpLength,
 		},
 		valueLength: fieldsLength[1],
+		isZeroValue: isZeroValue,
 	}
 }
 
-- 
2.43.0


From 816baa87eb21c34bf19559105b46a9904ad1c72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:24 +0000
Subject: [PATCH 23/53] fix: MimcRoot of no leaves recurses without end

---
 circuits/gadgets/merkle/emulated_mimc_root.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuits/gadgets/merkle/emulated_mimc_root.go b/circuits/gadgets/merkle/emulated_mimc_root.go
index 2bf81fc..a3f9e85 100644
--- a/circuits/gadgets/merkle/emulated_mimc_root.go
+++ b/circuits/gadgets/merkle/emulated_mimc_root.go
@@ -52,6 +52,9 @@ func (a *MimcRootAPI[T]) RestoreMimcRoot(
 // MimcRoot computes the merkle root of leaves using mimc hash
 // uses emulated.RemHint and limbs.SplitHint
 func (a *MimcRootAPI[T]) MimcRoot(leaves []*emulated.Element[T]) *emulated.Element[T] {
+	if !isPowerOfTwo(len(leaves)) {
+		panic("leaf count is not power of two")
+	}
 	if len(leaves) == 1 {
 		return leaves[0]
 	}
-- 
2.43.0


From 313435cc2da1676e4ea1bc02176e3ffce8976f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 24/53] fix: the emulated MiMC hasher digests again what it
 already digested

---
 circuits/gadgets/emulated/mimc/mimc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/gadgets/emulated/mimc/mimc.go b/circuits/gadgets/emulated/mimc/mimc.go
index 470222c..6be4f5a 100644
--- a/circuits/gadgets/emulated/mimc/mimc.go
+++ b/circuits/gadgets/emulated/mimc/mimc.go
@@ -82,5 +82,6 @@ func (h *MiMC[Base]) Sum() *emulated.Element[Base] {
 		temp := h.fp.Add(h.h, r)
 		h.h = h.fp.Add(temp, stream)
 	}
+	h.data = nil // flush the data already hashed
 	return h.fp.Reduce(h.h)
 }
-- 
2.43.0


From c61c20e7a404a7ac723c14ef8f8b2e2305a8e667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:43 +0000
Subject: [PATCH 25/53] fix: decomposing a negative number yields the bits of
 another number

---
 common/utils/compose.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/utils/compose.go b/common/utils/compose.go
index 585d162..7397861 100644
--- a/common/utils/compose.go
+++ b/common/utils/compose.go
@@ -23,6 +23,9 @@ func recompose[T uint | byte](data []T, bitSize int) *big.Int {
 }
 
 func decompose[T uint | byte](data *big.Int, bitSize uint, length int) []T {
+	if data.Sign() < 0 {
+		panic(fmt.Errorf("decomposed integer %s is negative", data))
+	}
 	if data.BitLen() > length*int(bitSize) {
 		panic(fmt.Errorf("decomposed integer (bit len %d) does not fit into output (bit len %d, length %d)",
 			data.BitLen(), bitSize, length))
-- 
2.43.0


From 17a52dbfac43c81cf4055af8ba7adcb7b7da34bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:45 +0000
Subject: [PATCH 26/53] fix: a negative slot value hashes as its absolute value

---
 common/proof/query_id.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/proof/query_id.go b/common/proof/query_id.go
index 6016fd2..9a75229 100644
--- a/common/proof/query_id.go
+++ b/common/proof/query_id.go
@@ -1,6 +1,7 @@
 package proof
 
 import (
+	"fmt"
 	"math/big"
 
 	"github.com/brevis-network/zk-utils/common/utils"
@@ -78,7 +79,10 @@ func MiMCHashStorageCustomInputs(
 	var slot = utils.ParseBytes32(GetPaddedSlotBytes(data.Slot), 248)
 	bits = append(bits, utils.Byte32ToFrBits(slot, 248)...)
 
-	storageValue, _ := new(big.Int).SetString(data.SlotValue, 10)
+	storageValue, ok := new(big.Int).SetString(data.SlotValue, 10)
+	if !ok || storageValue.Sign() < 0 {
+		return nil, fmt.Errorf("invalid slot value %s", data.SlotValue)
+	}
 
 	var value = utils.ParseBytes32(storageValue.Bytes(), 248)
 	bits = append(bits, utils.Byte32ToFrBits(value, 248)...)
-- 
2.43.0


From c20102a39d72628c28382410dbde6e1ac1ae380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:47 +0000
Subject: [PATCH 27/53] fix: EncodeHeaders accepts headers longer than its five
 blocks

---
 circuits/fabric/smt/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuits/fabric/smt/utils.go b/circuits/fabric/smt/utils.go
index ce88e17..48806ed 100644
--- a/circuits/fabric/smt/utils.go
+++ b/circuits/fabric/smt/utils.go
@@ -49,6 +49,9 @@ func EncodeHeaders(headers []types.Header) (encoded [][]frontend.Variable, idxs
 		}
 		idxs = append(idxs, len(fv)/1088-1)
 		zerosToPad := 5*1088 - len(paddedBits)
+		if zerosToPad < 0 {
+			return nil, nil, fmt.Errorf("header of %d bytes does not fit into 5 blocks", len(headerRLP))
+		}
 		for i := 0; i < zerosToPad; i++ {
 			fv = append(fv, 0)
 		}
-- 
2.43.0


From 5d046cc4038e547412d696b6439f8f6d943a0b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:48 +0000
Subject: [PATCH 28/53] fix: EncodeHeaders panics on headers without a base fee

---
 circuits/fabric/smt/utils.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/circuits/fabric/smt/utils.go b/circuits/fabric/smt/utils.go
index 48806ed..c50afe3 100644
--- a/circuits/fabric/smt/utils.go
+++ b/circuits/fabric/smt/utils.go
@@ -62,15 +62,22 @@ func EncodeHeaders(headers []types.Header) (encoded [][]frontend.Variable, idxs
 
 func checkDynamicFieldLen(h types.Header) bool {
 	hasErr := 0
-	hasErr += checkLen("Difficulty", len(h.Difficulty.Bytes()), 7)
-	hasErr += checkLen("Number", len(h.Number.Bytes()), 8)
+	hasErr += checkLen("Difficulty", getBigIntByteLen(h.Difficulty), 7)
+	hasErr += checkLen("Number", getBigIntByteLen(h.Number), 8)
 	hasErr += checkLen("GasLimit", getUintByteLen(h.GasLimit), 4)
 	hasErr += checkLen("GasUsed", getUintByteLen(h.GasUsed), 4)
 	hasErr += checkLen("Time", getUintByteLen(h.Time), 4)
-	hasErr += checkLen("BaseFee", len(h.BaseFee.Bytes()), 7)
+	hasErr += checkLen("BaseFee", getBigIntByteLen(h.BaseFee), 7)
 	return hasErr == 0
 }
 
+func getBigIntByteLen(x *big.Int) int {
+	if x == nil {
+		return 0
+	}
+	return len(x.Bytes())
+}
+
 func getUintByteLen(x uint64) int {
 	i := 0
 	for x > 0 {
-- 
2.43.0


From 93572b30aa304e971ad7f2310f21813a46f83421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:50 +0000
Subject: [PATCH 29/53] fix: chunk proof block numbers above 2^63 are encoded
 wrongly

---
 common/proof/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/proof/types.go b/common/proof/types.go
index 640f609..9bf473d 100644
--- a/common/proof/types.go
+++ b/common/proof/types.go
@@ -175,9 +175,9 @@ func (p *ChunkProof) EncodeABI() []byte {
 	args = append(args, prevHash[0:16], prevHash[16:])
 	endHash := utils.Hex2Hash(p.EndHash)
 	args = append(args, endHash[0:16], endHash[16:])
-	startBlockNum := big.NewInt(int64(p.StartBlockNum)).Bytes()
+	startBlockNum := new(big.Int).SetUint64(p.StartBlockNum).Bytes()
 	args = append(args, startBlockNum)
-	endBlockNum := big.NewInt(int64(p.EndBlockNum)).Bytes()
+	endBlockNum := new(big.Int).SetUint64(p.EndBlockNum).Bytes()
 	args = append(args, endBlockNum)
 
 	var ret []byte
-- 
2.43.0


From acdb059e0d5b666744760d1b722b6390ac9fcfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:52 +0000
Subject: [PATCH 30/53] fix: chunk proof hashes of more than 32 bytes lose
 their leading bytes

---
 common/proof/types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/proof/types.go b/common/proof/types.go
index 9bf473d..ca82143 100644
--- a/common/proof/types.go
+++ b/common/proof/types.go
@@ -169,11 +169,11 @@ func (p *ChunkProof) EncodeABI() []byte {
 	args = append(args, utils.Hex2Bytes(p.Proof.C[0]), utils.Hex2Bytes(p.Proof.C[1]))
 	args = append(args, []byte{}, []byte{}) // field commitment should always be empty
 
-	chunkRoot := utils.Hex2Hash(p.ChunkRoot)
+	chunkRoot := utils.Pad32Bytes(utils.Hex2Bytes(p.ChunkRoot))
 	args = append(args, chunkRoot[0:16], chunkRoot[16:])
-	prevHash := utils.Hex2Hash(p.PrevHash)
+	prevHash := utils.Pad32Bytes(utils.Hex2Bytes(p.PrevHash))
 	args = append(args, prevHash[0:16], prevHash[16:])
-	endHash := utils.Hex2Hash(p.EndHash)
+	endHash := utils.Pad32Bytes(utils.Hex2Bytes(p.EndHash))
 	args = append(args, endHash[0:16], endHash[16:])
 	startBlockNum := new(big.Int).SetUint64(p.StartBlockNum).Bytes()
 	args = append(args, startBlockNum)
-- 
2.43.0


From 96c0f0e7b2455395b94a2ddd28230c6dff06046d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:53 +0000
Subject: [PATCH 31/53] fix: Str2Uint64 does not read numbers above 2^63

---
 common/utils/string.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/utils/string.go b/common/utils/string.go
index 8fd7855..e597dae 100644
--- a/common/utils/string.go
+++ b/common/utils/string.go
@@ -17,5 +17,8 @@ func Str2Int(str string) int {
 }
 
 func Str2Uint64(str string) uint64 {
+	if ret, err := strconv.ParseUint(str, 10, 64); err == nil {
+		return ret
+	}
 	return uint64(Str2Int(str))
 }
-- 
2.43.0


From d9c9bbbabf1f62f87547cfaaf69a1b487258c17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:55 +0000
Subject: [PATCH 32/53] fix: GenerateBls12377Hash reduces its groups in the
 wrong field

---
 common/utils/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/utils/utils.go b/common/utils/utils.go
index 32a162b..05c6885 100644
--- a/common/utils/utils.go
+++ b/common/utils/utils.go
@@ -181,9 +181,9 @@ func GenerateBls12377Hash(input []byte) []byte {
 	var i int
 	for i < len(bits) {
 		if i+bitSize > len(bits) {
-			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:], ecc.BN254.ScalarField()))
+			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:], ecc.BLS12_377.ScalarField()))
 		} else {
-			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:i+bitSize], ecc.BN254.ScalarField()))
+			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:i+bitSize], ecc.BLS12_377.ScalarField()))
 		}
 		i += bitSize
 	}
-- 
2.43.0


From 9eb372ed2c0cbb1b8edbb0d4e7f9e0f686e6dd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:57 +0000
Subject: [PATCH 33/53] fix: PoseidonBn254Hasher hashes what the caller later
 makes of its inputs

---
 common/utils/poseidon_bn254.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/utils/poseidon_bn254.go b/common/utils/poseidon_bn254.go
index 1e72e45..1349e97 100644
--- a/common/utils/poseidon_bn254.go
+++ b/common/utils/poseidon_bn254.go
@@ -14,7 +14,7 @@ func NewPoseidonBn254() *PoseidonBn254Hasher {
 }
 
 func (p *PoseidonBn254Hasher) Write(input *big.Int) {
-	p.preimages = append(p.preimages, input)
+	p.preimages = append(p.preimages, new(big.Int).Set(input))
 }
 
 func (p *PoseidonBn254Hasher) Reset() {
-- 
2.43.0


From 1ac3039b26af275c62f4f13b1c0758ae4749007c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:10 +0000
Subject: [PATCH 34/53] fix: legacy transactions with a malformed v get a
 signer of a made-up chain

---
 common/proof/util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/proof/util.go b/common/proof/util.go
index 29f7146..887925e 100644
--- a/common/proof/util.go
+++ b/common/proof/util.go
@@ -90,6 +90,9 @@ func RecoverTransactionSignerAddress(transaction *ethtypes.Transaction) ([]byte,
 	v, r, s := transaction.RawSignatureValues()
 
 	if transactionType == types.LegacyTxType {
+		if v.Cmp(big.NewInt(35)) < 0 {
+			return nil, fmt.Errorf("legacy transaction is not replay-protected, v: %s", v)
+		}
 		actualV := v.Uint64() - 35 - transaction.ChainId().Uint64()*2
 		v = new(big.Int).SetUint64(actualV)
 	}
-- 
2.43.0


From 5563df0b4a12247c880ec661edf066c8155e864f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 35/53] fix: transaction and receipt proofs for entries the
 block does not have

---
 common/proof/tx_merkel_proof.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/proof/tx_merkel_proof.go b/common/proof/tx_merkel_proof.go
index be7a453..597a552 100644
--- a/common/proof/tx_merkel_proof.go
+++ b/common/proof/tx_merkel_proof.go
@@ -28,6 +28,10 @@ func (p *ProofWriter) Delete(key []byte) error {
 }
 
 func GetTransactionProof(bk *types.Block, index int) (nodes [][]byte, keyIndex, leafRlpPrefix []byte, err error) {
+	if index < 0 || index >= len(bk.Transactions()) {
+		err = fmt.Errorf("index out of range, blk: %d, index: %d", bk.NumberU64(), index)
+		return
+	}
 	var indexBuf []byte
 	keyIndex = rlp.AppendUint64(indexBuf[:0], uint64(index))
 
@@ -61,6 +65,10 @@ func GetTransactionProof(bk *types.Block, index int) (nodes [][]byte, keyIndex,
 }
 
 func GetReceiptProof(bk *types.Block, receipts types.Receipts, index int) (nodes [][]byte, keyIndex, leafRlpPrefix []byte, err error) {
+	if index < 0 || index >= len(receipts) {
+		err = fmt.Errorf("index out of range, blk: %d, index: %d", bk.NumberU64(), index)
+		return
+	}
 	var indexBuf []byte
 	keyIndex = rlp.AppendUint64(indexBuf[:0], uint64(index))
 
-- 
2.43.0


From 14fd85fb4f6bcec1aad5d92b52eb79401d84a1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 36/53] fix: ed25519 reduces the whole 512-bit hash

Reduce multiplies by one and only handles as many limbs as the field has; the
11-limb hash came out wrong, and no valid signature was accepted.
---
 circuits/gadgets/ed25519/ed25519.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index 10291b4..07e9090 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -150,7 +150,7 @@ func (e *Ed25519) Verify(
 	}
 
 	hRamScalar := e.fp.scalarField.FromBitsOverflow(bits...)
-	hRamScalar = e.fp.scalarField.Reduce(hRamScalar)
+	hRamScalar = e.fp.scalarField.ReduceWithoutConstantCheck(hRamScalar)
 
 	baseX := emulated.ValueOf[Ed25519Fp](curve.Params().Base[0])
 	baseY := emulated.ValueOf[Ed25519Fp](curve.Params().Base[1])
-- 
2.43.0


From 6aff44117bb89e113d5224e4d3b135186ef14b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 37/53] fix: ed25519 requires R and the public key to be on the
 curve

The encodings bind y and the parity of x only.  For any key and message an x
for R off the curve can be solved for that satisfies the equation.
---
 circuits/gadgets/ed25519/ed25519.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index 07e9090..7326d13 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -160,6 +160,10 @@ func (e *Ed25519) Verify(
 		Y: baseY,
 	}
 
+	// the group law holds on the curve only: elsewhere the equation can be solved without the key
+	curve.AssertIsOnCurve(sig.R)
+	curve.AssertIsOnCurve(pubKey.A)
+
 	//[S]G-[H(R,A,M)]*A
 	_A := curve.Neg(pubKey.A)
 
-- 
2.43.0


From d0eeffb276fb73ad252589875f2d0a480dbce74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 38/53] fix: ed25519 requires S to be below the group order

S + L, S + 2L and S + 3L were accepted in place of S.
---
 circuits/gadgets/ed25519/ed25519.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index 7326d13..3f3b3d8 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -3,6 +3,7 @@ package ed25519
 import (
 	"errors"
 	"fmt"
+	"math/big"
 
 	sha512 "github.com/brevis-network/zk-utils/circuits/gadgets/sha512"
 
@@ -164,6 +165,9 @@ func (e *Ed25519) Verify(
 	curve.AssertIsOnCurve(sig.R)
 	curve.AssertIsOnCurve(pubKey.A)
 
+	// S is below the group order (RFC 8032, 5.1.7)
+	e.api.AssertIsLessOrEqual(sig.S, new(big.Int).Sub(curve.Params().Order, big.NewInt(1)))
+
 	//[S]G-[H(R,A,M)]*A
 	_A := curve.Neg(pubKey.A)
 
-- 
2.43.0


From a838eda374d71a0a520a4ed52f7e5b766f76fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 39/53] fix: ed25519 encodes reduced coordinates only

A coordinate given as x+p was encoded with the other parity (or as y+p), so
keys with encodings that RFC 8032 refuses were accepted.
---
 circuits/gadgets/ed25519/ed25519.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index 3f3b3d8..93a081a 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -58,6 +58,8 @@ func (e *Ed25519) bytes(v *Point) [32]frontend.Variable {
 }
 
 func (e *Ed25519) copyFieldElement(v *emulated.Element[Ed25519Fp]) [32]frontend.Variable {
+	// x and x+p are the same coordinate with different bits
+	e.fp.baseField.AssertIsInRange(v)
 	bits := e.fp.baseField.ToBits(v)
 
 	var buf [32]frontend.Variable
-- 
2.43.0


From a712ad5db5c2e35f8ac16daf582bb456ba99c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:41 +0000
Subject: [PATCH 40/53] fix: bls12381 gadget: do not overwrite field elements
 that pending multiplication checks refer to

---
 circuits/gadgets/pairing_bls12381/g2.go       | 116 ++++++++----------
 .../gadgets/pairing_bls12381/hash2curve.go    |  29 ++---
 circuits/gadgets/pairing_bls12381/pairing.go  |  51 ++++----
 3 files changed, 91 insertions(+), 105 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/g2.go b/circuits/gadgets/pairing_bls12381/g2.go
index 80cb580..16c0617 100644
--- a/circuits/gadgets/pairing_bls12381/g2.go
+++ b/circuits/gadgets/pairing_bls12381/g2.go
@@ -69,36 +69,36 @@ func G2JacobianAddAssign(api frontend.API, p, a G2Jacobian) G2Jacobian {
 	r := et2.Sub(S2, S1)
 	r = et2.Double(r)
 	V := et2.Mul(U1, I)
-	p.X = *et2.Square(r)
-	p.X = *et2.Sub(&p.X, J)
-	p.X = *et2.Sub(&p.X, V)
-	p.X = *et2.Sub(&p.X, V)
-	p.Y = *et2.Sub(V, &p.X)
-	p.Y = *et2.Mul(&p.Y, r)
+	// the field keeps references to the operands until the circuit is finalised,
+	// so intermediate results must not overwrite them.
+	X := et2.Square(r)
+	X = et2.Sub(X, J)
+	X = et2.Sub(X, V)
+	X = et2.Sub(X, V)
+	Y := et2.Sub(V, X)
+	Y = et2.Mul(Y, r)
 	S1 = et2.Mul(S1, J)
 	S1 = et2.Double(S1)
-	p.Y = *et2.Sub(&p.Y, S1)
-	p.Z = *et2.Add(&p.Z, &a.Z)
-	p.Z = *et2.Square(&p.Z)
-	p.Z = *et2.Sub(&p.Z, Z1Z1)
-	p.Z = *et2.Sub(&p.Z, Z2Z2)
-	p.Z = *et2.Mul(&p.Z, H)
-
-	res := p
-
-	res.X = *et2.Select(pNotEqualA, &res.X, &res3.X)
-	res.Y = *et2.Select(pNotEqualA, &res.Y, &res3.Y)
-	res.Z = *et2.Select(pNotEqualA, &res.Z, &res3.Z)
-
-	res.X = *et2.Select(aZNotZero, &res.X, &res2.X)
-	res.Y = *et2.Select(aZNotZero, &res.Y, &res2.Y)
-	res.Z = *et2.Select(aZNotZero, &res.Z, &res2.Z)
-
-	res.X = *et2.Select(pZNotZero, &res.X, &res1.X)
-	res.Y = *et2.Select(pZNotZero, &res.Y, &res1.Y)
-	res.Z = *et2.Select(pZNotZero, &res.Z, &res1.Z)
-
-	return res
+	Y = et2.Sub(Y, S1)
+	Z := et2.Add(&p.Z, &a.Z)
+	Z = et2.Square(Z)
+	Z = et2.Sub(Z, Z1Z1)
+	Z = et2.Sub(Z, Z2Z2)
+	Z = et2.Mul(Z, H)
+
+	X = et2.Select(pNotEqualA, X, &res3.X)
+	Y = et2.Select(pNotEqualA, Y, &res3.Y)
+	Z = et2.Select(pNotEqualA, Z, &res3.Z)
+
+	X = et2.Select(aZNotZero, X, &res2.X)
+	Y = et2.Select(aZNotZero, Y, &res2.Y)
+	Z = et2.Select(aZNotZero, Z, &res2.Z)
+
+	X = et2.Select(pZNotZero, X, &res1.X)
+	Y = et2.Select(pZNotZero, Y, &res1.Y)
+	Z = et2.Select(pZNotZero, Z, &res1.Z)
+
+	return G2Jacobian{X: *X, Y: *Y, Z: *Z}
 }
 
 func G2JacobianNeg(api frontend.API, p G2Jacobian) G2Jacobian {
@@ -107,8 +107,7 @@ func G2JacobianNeg(api frontend.API, p G2Jacobian) G2Jacobian {
 		log.Fatal(err)
 	}
 	et2 := NewExt2(ba)
-	p.Y = *et2.Neg(&p.Y)
-	return p
+	return G2Jacobian{X: p.X, Y: *et2.Neg(&p.Y), Z: p.Z}
 }
 
 // p - p1
@@ -119,8 +118,8 @@ func G2JacobianSubAssign(api frontend.API, p, p1 G2Jacobian) G2Jacobian {
 	}
 	et2 := NewExt2(ba)
 
-	p1.Y = *et2.Neg(&p1.Y)
-	return G2JacobianAddAssign(api, p, p1)
+	negP1 := G2Jacobian{X: p1.X, Y: *et2.Neg(&p1.Y), Z: p1.Z}
+	return G2JacobianAddAssign(api, p, negP1)
 }
 
 func G2JacobianDouble(api frontend.API, p G2Jacobian) G2Jacobian {
@@ -140,22 +139,21 @@ func G2JacobianDouble(api frontend.API, p G2Jacobian) G2Jacobian {
 	S = et2.Double(S)
 	M := et2.Double(XX)
 	M = et2.Add(M, XX)
-	p.Z = *et2.Add(&p.Z, &p.Y)
-	p.Z = *et2.Square(&p.Z)
-	p.Z = *et2.Sub(&p.Z, YY)
-	p.Z = *et2.Sub(&p.Z, ZZ)
-	T := *et2.Square(M)
-	p.X = T
-	T = *et2.Double(S)
-	p.X = *et2.Sub(&p.X, &T)
-	p.Y = *et2.Sub(S, &p.X)
-	p.Y = *et2.Mul(&p.Y, M)
+	Z := et2.Add(&p.Z, &p.Y)
+	Z = et2.Square(Z)
+	Z = et2.Sub(Z, YY)
+	Z = et2.Sub(Z, ZZ)
+	X := et2.Square(M)
+	T := et2.Double(S)
+	X = et2.Sub(X, T)
+	Y := et2.Sub(S, X)
+	Y = et2.Mul(Y, M)
 	YYYY = et2.Double(YYYY)
 	YYYY = et2.Double(YYYY)
 	YYYY = et2.Double(YYYY)
-	p.Y = *et2.Sub(&p.Y, YYYY)
+	Y = et2.Sub(Y, YYYY)
 
-	return p
+	return G2Jacobian{X: *X, Y: *Y, Z: *Z}
 }
 
 func G2JacobianPsi(api frontend.API, a G2Jacobian) G2Jacobian {
@@ -181,14 +179,9 @@ func G2JacobianPsi(api frontend.API, a G2Jacobian) G2Jacobian {
 	}
 
 	var p G2Jacobian
-	p.X = a.X
-	p.Y = a.Y
-	p.Z = a.Z
-	p.X = *et2.Conjugate(&p.X)
-	p.X = *et2.Mul(&p.X, &u)
-	p.Y = *et2.Conjugate(&p.Y)
-	p.Y = *et2.Mul(&p.Y, &v)
-	p.Z = *et2.Conjugate(&p.Z)
+	p.X = *et2.Mul(et2.Conjugate(&a.X), &u)
+	p.Y = *et2.Mul(et2.Conjugate(&a.Y), &v)
+	p.Z = *et2.Conjugate(&a.Z)
 	return p
 }
 
@@ -215,12 +208,8 @@ func G2Psi(api frontend.API, a G2Affine) *G2Affine {
 	}
 
 	var p G2Affine
-	p.X = a.X
-	p.Y = a.Y
-	p.X = *et2.Conjugate(&p.X)
-	p.X = *et2.Mul(&p.X, &u)
-	p.Y = *et2.Conjugate(&p.Y)
-	p.Y = *et2.Mul(&p.Y, &v)
+	p.X = *et2.Mul(et2.Conjugate(&a.X), &u)
+	p.Y = *et2.Mul(et2.Conjugate(&a.Y), &v)
 	return &p
 }
 
@@ -285,8 +274,7 @@ func G2JacobianPhi(api frontend.API, p G2Jacobian) G2Jacobian {
 	thirdRootOneG1.SetString("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436")
 	thirdRootOneG2.Square(&thirdRootOneG1)
 	t := emulated.ValueOf[BLS12381Fp](thirdRootOneG2)
-	p.X = *et2.MulByElement(&p.X, &t)
-	return p
+	return G2Jacobian{X: *et2.MulByElement(&p.X, &t), Y: p.Y, Z: p.Z}
 }
 
 // Affine
@@ -329,8 +317,7 @@ func G2Phi(api frontend.API, p G2Affine) G2Affine {
 	thirdRootOneG1.SetString("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436")
 	thirdRootOneG2.Square(&thirdRootOneG1)
 	t := emulated.ValueOf[BLS12381Fp](thirdRootOneG2)
-	p.X = *et2.MulByElement(&p.X, &t)
-	return p
+	return G2Affine{X: *et2.MulByElement(&p.X, &t), Y: p.Y}
 }
 
 // Neg outputs -p
@@ -464,8 +451,7 @@ func G2SubAssign(api frontend.API, p, p1 G2Affine) *G2Affine {
 	}
 	et2 := NewExt2(ba)
 
-	p1.Y = *et2.Neg(&p1.Y)
-	return G2AddAssign(api, p, p1)
+	return G2AddAssign(api, p, G2Affine{X: p1.X, Y: *et2.Neg(&p1.Y)})
 }
 
 // ClearCofactor maps a point in curve to r-torsion
@@ -511,7 +497,7 @@ func G2ClearCofactor(api frontend.API, a G2Affine) *G2Affine {
 	var thirdRootOneG1 fp.Element
 	thirdRootOneG1.SetString("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436")
 	trog1 := emulated.ValueOf[BLS12381Fp](thirdRootOneG1)
-	t.X = *et2.MulByElement(&t.X, &trog1)
+	t = &G2Affine{X: *et2.MulByElement(&t.X, &trog1), Y: t.Y}
 	res = G2SubAssign(api, *res, *t)
 
 	return res
diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index aec5ad2..2d7653c 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -251,7 +251,7 @@ func g2SqrtRatio(api frontend.API, u *E2, v *E2) (z *E2, isQNr frontend.Variable
 	et2 := NewExt2(ba)
 	// https://www.ietf.org/archive/id/draft-irtf-cfrg-hash-to-curve-16.html#name-sqrt_ratio-for-any-field
 
-	tv1 := E2{
+	tv1 := &E2{
 		A0: emulated.ValueOf[BLS12381Fp](fp.Element{8921533702591418330, 15859389534032789116, 3389114680249073393, 15116930867080254631, 3288288975085550621, 1021049300055853010}),
 		A1: emulated.ValueOf[BLS12381Fp](fp.Element{8921533702591418330, 15859389534032789116, 3389114680249073393, 15116930867080254631, 3288288975085550621, 1021049300055853010}),
 	}
@@ -287,7 +287,7 @@ func g2SqrtRatio(api frontend.API, u *E2, v *E2) (z *E2, isQNr frontend.Variable
 	}
 
 	tv2 = et2.Mul(tv3, &c7)           // 13. tv2 = tv3 * c7
-	tv5 = et2.Mul(tv4, &tv1)          // 14. tv5 = tv4 * tv1
+	tv5 = et2.Mul(tv4, tv1)           // 14. tv5 = tv4 * tv1
 	tv3 = et2.Select(isQNr, tv2, tv3) // tv3.Select(int(isQNr), &tv3, &tv2) // 15. tv3 = CMOV(tv2, tv3, isQR)
 	tv4 = et2.Select(isQNr, tv5, tv4) // tv4.Select(int(isQNr), &tv4, &tv5) // 16. tv4 = CMOV(tv5, tv4, isQR)
 
@@ -296,9 +296,9 @@ func g2SqrtRatio(api frontend.API, u *E2, v *E2) (z *E2, isQNr frontend.Variable
 	for i := 3; i >= 2; i-- { // 17. for i in (c1, c1 - 1, ..., 2):
 		tv5 = E2Exp(api, *tv4, &exp)
 		nE1 := E2NotOne(api, *tv5)
-		tv2 = et2.Mul(tv3, &tv1)
-		tv1 = *et2.Mul(&tv1, &tv1)
-		tv5 = et2.Mul(tv4, &tv1)
+		tv2 = et2.Mul(tv3, tv1)
+		tv1 = et2.Mul(tv1, tv1)
+		tv5 = et2.Mul(tv4, tv1)
 		tv3 = et2.Select(nE1, tv2, tv3)
 		tv4 = et2.Select(nE1, tv5, tv4)
 		if i > 2 {
@@ -324,10 +324,11 @@ func E2Exp(api frontend.API, x E2, k *big.Int) *E2 {
 	}
 
 	e := k
+	base := &x
 	if k.Sign() == -1 {
 		// negative k, we invert
 		// if k < 0: xᵏ (mod q²) == (x⁻¹)ᵏ (mod q²)
-		x = *et2.Inverse(&x)
+		base = et2.Inverse(&x)
 
 		// we negate k in a temp big.Int since
 		// Int.Bit(_) of k and -k is different
@@ -340,7 +341,7 @@ func E2Exp(api frontend.API, x E2, k *big.Int) *E2 {
 		for j := 0; j < 8; j++ {
 			res = et2.Square(res)
 			if (w & (0b10000000 >> j)) != 0 {
-				res = et2.Mul(res, &x)
+				res = et2.Mul(res, base)
 			}
 		}
 	}
@@ -524,8 +525,7 @@ func G1NotZero(api frontend.API, x baseEl) frontend.Variable {
 	if err != nil {
 		log.Fatal(err)
 	}
-	x = *ba.Reduce(&x)
-	bs := ba.ToBits(&x)
+	bs := ba.ToBits(ba.Reduce(&x))
 	var isNotZero frontend.Variable
 	isNotZero = 0
 	for _, b := range bs {
@@ -547,10 +547,8 @@ func G1NotEqual(api frontend.API, x, y baseEl) frontend.Variable {
 	if err != nil {
 		log.Fatal(err)
 	}
-	x = *ba.Reduce(&x)
-	y = *ba.Reduce(&y)
-	xBits := ba.ToBits(&x)
-	yBits := ba.ToBits(&y)
+	xBits := ba.ToBits(ba.Reduce(&x))
+	yBits := ba.ToBits(ba.Reduce(&y))
 
 	var notEqual frontend.Variable
 	notEqual = 0
@@ -609,8 +607,7 @@ func GetG2AffineFromG2Jac(api frontend.API, Q *G2Jacobian) *G2Affine {
 	b := et2.Square(a)
 	res2 := &G2Affine{}
 	res2.X = *et2.Mul(&Q.X, b)
-	res2.Y = *et2.Mul(&Q.Y, b)
-	res2.Y = *et2.Mul(&res2.Y, a)
+	res2.Y = *et2.Mul(et2.Mul(&Q.Y, b), a)
 	jacZNotZero := E2NotZero(api, Q.Z)
 
 	final := &G2Affine{}
@@ -649,7 +646,7 @@ func ClearCofactor(api frontend.API, a G2Jacobian) *G2Jacobian {
 	thirdRootOneG1.SetString("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436")
 	trog1 := emulated.ValueOf[BLS12381Fp](thirdRootOneG1)
 
-	t.X = *et2.MulByElement(&t.X, &trog1)
+	t = G2Jacobian{X: *et2.MulByElement(&t.X, &trog1), Y: t.Y, Z: t.Z}
 
 	res = G2JacobianSubAssign(api, res, t)
 
diff --git a/circuits/gadgets/pairing_bls12381/pairing.go b/circuits/gadgets/pairing_bls12381/pairing.go
index 8361dea..8adf1cd 100644
--- a/circuits/gadgets/pairing_bls12381/pairing.go
+++ b/circuits/gadgets/pairing_bls12381/pairing.go
@@ -115,8 +115,8 @@ func (e *ext12) Mul014By014(d0, d1, d4, c0, c1, c4 *E2) *E12 {
 	x14 = e.ext2.Sub(x14, x1)  //	Sub(&x14, &x1).
 	x14 = e.ext2.Sub(x14, x4)  //	Sub(&x14, &x4)
 
-	z00 := *e.ext2.MulByNonResidue(x4) //z.C0.B0.MulByNonResidue(&x4).
-	z00 = *e.ext2.Add(&z00, x0)        //	Add(&z.C0.B0, &x0)
+	z00 := e.ext2.MulByNonResidue(x4) //z.C0.B0.MulByNonResidue(&x4).
+	z00 = e.ext2.Add(z00, x0)         //	Add(&z.C0.B0, &x0)
 
 	z01 := *x01           //z.C0.B1.Set(&x01)
 	z02 := *x1            //z.C0.B2.Set(&x1)
@@ -126,7 +126,7 @@ func (e *ext12) Mul014By014(d0, d1, d4, c0, c1, c4 *E2) *E12 {
 
 	return &E12{
 		C0: E6{
-			B0: z00,
+			B0: *z00,
 			B1: z01,
 			B2: z02,
 		},
@@ -143,19 +143,16 @@ func (pr *Pairing) MulBy014(z *E12, c0, c1, c4 *E2) *E12 {
 	//var a, b E6
 	//var d E2
 
-	a := z.C0                        //a.Set(&z.C0)
-	a = *pr.ext6.MulBy01(&a, c0, c1) //a.MulBy01(c0, c1)
+	a := pr.ext6.MulBy01(&z.C0, c0, c1) //a.MulBy01(c0, c1)
+	b := pr.ext6.MulBy1(&z.C1, c4)      //b.MulBy1(c4)
+	d := pr.ext2.Add(c1, c4)            //d.Add(c1, c4)
 
-	b := z.C1                   //b.Set(&z.C1)
-	b = *pr.ext6.MulBy1(&b, c4) //b.MulBy1(c4)
-	d := pr.ext2.Add(c1, c4)    //d.Add(c1, c4)
-
-	z1 := pr.ext6.Add(&z.C1, &z.C0)   //z.C1.Add(&z.C1, &z.C0)
-	z1 = pr.ext6.MulBy01(z1, c0, d)   //z.C1.MulBy01(c0, &d)
-	z1 = pr.ext6.Sub(z1, &a)          //z.C1.Sub(&z.C1, &a)
-	z1 = pr.ext6.Sub(z1, &b)          //z.C1.Sub(&z.C1, &b)
-	z0 := pr.ext6.MulByNonResidue(&b) //z.C0.MulByNonResidue(&b)
-	z0 = pr.ext6.Add(z0, &a)          //z.C0.Add(&z.C0, &a)
+	z1 := pr.ext6.Add(&z.C1, &z.C0)  //z.C1.Add(&z.C1, &z.C0)
+	z1 = pr.ext6.MulBy01(z1, c0, d)  //z.C1.MulBy01(c0, &d)
+	z1 = pr.ext6.Sub(z1, a)          //z.C1.Sub(&z.C1, &a)
+	z1 = pr.ext6.Sub(z1, b)          //z.C1.Sub(&z.C1, &b)
+	z0 := pr.ext6.MulByNonResidue(b) //z.C0.MulByNonResidue(&b)
+	z0 = pr.ext6.Add(z0, a)          //z.C0.Add(&z.C0, &a)
 
 	return &E12{
 		C0: *z0,
@@ -208,6 +205,16 @@ type LineEvaluation struct {
 	r2 E2
 }
 
+// evalLine evaluates the line l at p. It returns a new line, because the field
+// keeps references to the coefficients of l until the circuit is finalised.
+func (pr Pairing) evalLine(l *LineEvaluation, p *G1Affine) *LineEvaluation {
+	return &LineEvaluation{
+		r0: l.r0,
+		r1: *pr.ext2.MulByElement(&l.r1, &p.X),
+		r2: *pr.ext2.MulByElement(&l.r2, &p.Y),
+	}
+}
+
 var loopCounter = [64]int8{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 1, 1}
 
 func (pr Pairing) MillerLoop(p []*G1Affine, q []*G2Affine) (*GTEl, error) {
@@ -228,14 +235,12 @@ func (pr Pairing) MillerLoop(p []*G1Affine, q []*G2Affine) (*GTEl, error) {
 
 	// i == len(loopCounter) - 2
 	for k := 0; k < n; k++ {
-		qProj[k], l1 = pr.DoubleStep(qProj[k])               // qProj[k].DoubleStep(&l1)
-		l1.r1 = *pr.ext12.ext2.MulByElement(&l1.r1, &p[k].X) // l1.r1.MulByElement(&l1.r1, &p[k].X)
-		l1.r2 = *pr.ext12.ext2.MulByElement(&l1.r2, &p[k].Y) // l1.r2.MulByElement(&l1.r2, &p[k].Y)
+		qProj[k], l1 = pr.DoubleStep(qProj[k]) // qProj[k].DoubleStep(&l1)
+		l1 = pr.evalLine(l1, p[k])
 
 		qProj[k], l2 = pr.AddStep(qProj[k], q[k]) // qProj[k].AddMixedStep(&l2, &q[k])
 		// line eval
-		l2.r1 = *pr.ext12.ext2.MulByElement(&l2.r1, &p[k].X) //l2.r1.MulByElement(&l2.r1, &p[k].X)
-		l2.r2 = *pr.ext12.ext2.MulByElement(&l2.r2, &p[k].Y) //l2.r2.MulByElement(&l2.r2, &p[k].Y)
+		l2 = pr.evalLine(l2, p[k])
 
 		// ℓ × ℓ
 		lines := pr.ext12.Mul014By014(&l1.r0, &l1.r1, &l1.r2, &l2.r0, &l2.r1, &l2.r2)
@@ -250,16 +255,14 @@ func (pr Pairing) MillerLoop(p []*G1Affine, q []*G2Affine) (*GTEl, error) {
 			qProj[k], l1 = pr.DoubleStep(qProj[k])
 
 			// line eval
-			l1.r1 = *pr.ext2.MulByElement(&l1.r1, &p[k].X) //l1.r1.MulByElement(&l1.r1, &p[k].X)
-			l1.r2 = *pr.ext2.MulByElement(&l1.r2, &p[k].Y) //l1.r2.MulByElement(&l1.r2, &p[k].Y)
+			l1 = pr.evalLine(l1, p[k])
 
 			if loopCounter[i] == 0 {
 				result = pr.MulBy014(result, &l1.r0, &l1.r1, &l1.r2) //result.MulBy014(&l1.r0, &l1.r1, &l1.r2)
 			} else {
 				qProj[k], l2 = pr.AddStep(qProj[k], q[k]) //qProj[k].AddMixedStep(&l2, &q[k])
 				// line eval
-				l2.r1 = *pr.ext12.ext2.MulByElement(&l2.r1, &p[k].X) //l2.r1.MulByElement(&l2.r1, &p[k].X)
-				l2.r2 = *pr.ext12.ext2.MulByElement(&l2.r2, &p[k].Y) //	l2.r2.MulByElement(&l2.r2, &p[k].Y)
+				l2 = pr.evalLine(l2, p[k])
 				// ℓ × ℓ
 				lines := pr.Mul014By014(&l1.r0, &l1.r1, &l1.r2, &l2.r0, &l2.r1, &l2.r2) // lines.Mul014By014(&l1.r0, &l1.r1, &l1.r2, &l2.r0, &l2.r1, &l2.r2)
 				// (ℓ × ℓ) × result
-- 
2.43.0


From b0faf64a6c7e9a35e26e69ef56fa68c85f8d2bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:45 +0000
Subject: [PATCH 41/53] fix: bls12381 gadget: FrobeniusCube used the
 coefficients of the first power

---
 circuits/gadgets/pairing_bls12381/tower.go | 25 +---------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/tower.go b/circuits/gadgets/pairing_bls12381/tower.go
index 8dd6802..3901786 100644
--- a/circuits/gadgets/pairing_bls12381/tower.go
+++ b/circuits/gadgets/pairing_bls12381/tower.go
@@ -687,30 +687,7 @@ func (e ext12) FrobeniusSquare(x *E12) *E12 {
 }
 
 func (e ext12) FrobeniusCube(x *E12) *E12 {
-	// var t [6]E2
-	t0 := e.ext2.Conjugate(&x.C0.B0)       // t[0].Conjugate(&x.C0.B0)
-	t1 := e.ext2.Conjugate(&x.C0.B1)       // t[1].Conjugate(&x.C0.B1)
-	t2 := e.ext2.Conjugate(&x.C0.B2)       // t[2].Conjugate(&x.C0.B2)
-	t3 := e.ext2.Conjugate(&x.C1.B0)       // t[3].Conjugate(&x.C1.B0)
-	t4 := e.ext2.Conjugate(&x.C1.B1)       // t[4].Conjugate(&x.C1.B1)
-	t5 := e.ext2.Conjugate(&x.C1.B2)       // t[5].Conjugate(&x.C1.B2)
-	t1 = e.ext2.MulByNonResidue1Power2(t1) // t[1].MulByNonResidue3Power2(&t[1])
-	t2 = e.ext2.MulByNonResidue1Power4(t2) // t[2].MulByNonResidue3Power4(&t[2])
-	t3 = e.ext2.MulByNonResidue1Power1(t3) // t[3].MulByNonResidue3Power1(&t[3])
-	t4 = e.ext2.MulByNonResidue1Power3(t4) // t[4].MulByNonResidue3Power3(&t[4])
-	t5 = e.ext2.MulByNonResidue1Power5(t5) // t[5].MulByNonResidue3Power5(&t[5])
-	return &E12{                           // return z
-		C0: E6{
-			B0: *t0, // z.C0.B0 = t[0]
-			B1: *t1, // z.C0.B1 = t[1]
-			B2: *t2, // z.C0.B2 = t[2]
-		},
-		C1: E6{
-			B0: *t3, // z.C1.B0 = t[3]
-			B1: *t4, // z.C1.B1 = t[4]
-			B2: *t5, // z.C1.B2 = t[5]
-		},
-	}
+	return e.Frobenius(e.FrobeniusSquare(x))
 }
 
 func (e ext12) DecompressKarabina(x E12) *E12 {
-- 
2.43.0


From e9a7e3b4eb344c78a249173f9b3ff2ed8e681282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:45 +0000
Subject: [PATCH 42/53] fix: bls12381 gadget: decompress cyclotomic elements
 whose g3 coefficient is zero

---
 circuits/gadgets/pairing_bls12381/tower.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/tower.go b/circuits/gadgets/pairing_bls12381/tower.go
index 3901786..7cd5203 100644
--- a/circuits/gadgets/pairing_bls12381/tower.go
+++ b/circuits/gadgets/pairing_bls12381/tower.go
@@ -215,6 +215,11 @@ func (e ext2) Select(selector frontend.Variable, x, y *E2) *E2 {
 	}
 }
 
+// selectIfZero returns x if c is zero and y otherwise
+func (e ext2) selectIfZero(c, x, y *E2) *E2 {
+	return e.Select(e.fp.IsZero(&c.A0), e.Select(e.fp.IsZero(&c.A1), x, y), y)
+}
+
 func (e ext2) Sub(x, y *E2) *E2 {
 	z0 := e.fp.Sub(&x.A0, &y.A0) // z.A0.Sub(&x.A0, &y.A0)
 	z1 := e.fp.Sub(&x.A1, &y.A1) // z.A1.Sub(&x.A1, &y.A1)
@@ -694,8 +699,6 @@ func (e ext12) DecompressKarabina(x E12) *E12 {
 
 	one := e.ext2.One()
 
-	// TODO: add iszero handle
-
 	t0 := e.ext2.Square(&x.C0.B1) //t0[i].Square(&x[i].C0.B1)
 	// t1 = 3 * g1^2 - 2 * g2
 	t1 := e.ext2.Sub(t0, &x.C0.B2) //			t1[i].Sub(&t0[i], &x[i].C0.B2).
@@ -709,6 +712,11 @@ func (e ext12) DecompressKarabina(x E12) *E12 {
 	t1 = e.ext2.Double(&x.C1.B0) //			t1[i].Double(&x[i].C1.B0).
 	t1 = e.ext2.Double(t1)       //				Double(&t1[i])
 
+	// if g3 = 0: t0 = 2 * g1 * g5, t1 = g2; if g2 = 0 as well, x = 1 and g1 = g5 = 0
+	g1g5 := e.ext2.Mul(&x.C0.B1, &x.C1.B2)
+	t0 = e.ext2.selectIfZero(&x.C1.B0, e.ext2.Double(g1g5), t0)
+	t1 = e.ext2.selectIfZero(&x.C1.B0, e.ext2.selectIfZero(&x.C0.B2, one, &x.C0.B2), t1)
+
 	// z4 = g4
 	zc11 := e.ext2.Div(t0, t1) //	z.C1.B1.Div(&t[0], &t[1]) // costly
 
-- 
2.43.0


From 6b7d9d0eb95243ecc2d1e374f74b04556bbca4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:45 +0000
Subject: [PATCH 43/53] fix: bls12381 gadget: convert the Jacobian point at
 infinity to affine

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 2d7653c..ab8121f 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -603,12 +603,12 @@ func GetG2AffineFromG2Jac(api frontend.API, Q *G2Jacobian) *G2Affine {
 		X: *et2.Zero(),
 		Y: *et2.Zero(),
 	}
-	a := et2.Inverse(&Q.Z)
+	jacZNotZero := E2NotZero(api, Q.Z)
+	a := et2.Inverse(et2.Select(jacZNotZero, &Q.Z, et2.One()))
 	b := et2.Square(a)
 	res2 := &G2Affine{}
 	res2.X = *et2.Mul(&Q.X, b)
 	res2.Y = *et2.Mul(et2.Mul(&Q.Y, b), a)
-	jacZNotZero := E2NotZero(api, Q.Z)
 
 	final := &G2Affine{}
 	final.X = *et2.Select(jacZNotZero, &res2.X, &res1.X)
-- 
2.43.0


From f9ef03acd98612d1e94a8248b2496b88461236c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:45 +0000
Subject: [PATCH 44/53] fix: bls12381 gadget: exceptional case of the
 simplified SWU map

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index ab8121f..38e44ac 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -172,8 +172,9 @@ func MapElementToCurve2(api frontend.API, e2 E2) (x, y *E2) {
 	tv3 := et2.Add(tv2, et2.One())          // 5.  tv3 = tv2 + 1
 	tv3 = et2.Mul(tv3, &SswuIsoCurveCoeffB) // 6.  tv3 = B * tv3
 
-	tv2 = et2.Neg(tv2)
-	tv4 := et2.Mul(tv2, &SswuIsoCurveCoeffA)
+	// 7. tv4 = CMOV(Z, -tv2, tv2 != 0)
+	tv4 := et2.Select(E2NotZero(api, *tv2), et2.Neg(tv2), &Tv4Z)
+	tv4 = et2.Mul(tv4, &SswuIsoCurveCoeffA) // 8. tv4 = A * tv4
 
 	tv2 = et2.Square(tv3) // 9.  tv2 = tv3²
 
-- 
2.43.0


From 8a78f1c8961a509500ae00cb74d13d1040f0bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 45/53] fix: bls12381 gadget: sgn0 of elements whose first
 coordinate is zero

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 38e44ac..f19ce8e 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -232,9 +232,10 @@ func g2Sgn0(api frontend.API, u *E2) frontend.Variable {
 	zeroI = 0
 	for _, subBits := range A0Bits {
 		for _, b := range subBits {
-			zeroI = api.Or(signI, b)
+			zeroI = api.Or(zeroI, b)
 		}
 	}
+	zeroI = api.Sub(1, zeroI)
 
 	sign = api.Or(sign, api.And(zero, signI))
 	zero = api.And(zero, zeroI)
-- 
2.43.0


From fa4f9ebad9e940e2ad6d384bd1b02b5a4a055539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 46/53] fix: bls12381 gadget: compare canonical representatives
 only

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index f19ce8e..9a1e733 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -216,6 +216,8 @@ func g2Sgn0(api frontend.API, u *E2) frontend.Variable {
 		A0: *ba.Reduce(&u.A0),
 		A1: *ba.Reduce(&u.A1),
 	}
+	ba.AssertIsInRange(&uu.A0)
+	ba.AssertIsInRange(&uu.A1)
 	var A0Bits [6][]frontend.Variable
 	A0Bits[0] = bits.ToBinary(api, uu.A0.Limbs[0], bits.WithNbDigits(64))
 	A0Bits[1] = bits.ToBinary(api, uu.A0.Limbs[1], bits.WithNbDigits(64))
@@ -522,12 +524,20 @@ func E2NotZero(api frontend.API, x E2) frontend.Variable {
 	return api.Or(a0NotZero, a1NotZero)
 }
 
+// reduceInRange returns the representative of x that is less than the modulus.
+// Reduce alone bounds only the width, which is not enough to compare bits.
+func reduceInRange(ba *emulated.Field[BLS12381Fp], x *baseEl) *baseEl {
+	r := ba.Reduce(x)
+	ba.AssertIsInRange(r)
+	return r
+}
+
 func G1NotZero(api frontend.API, x baseEl) frontend.Variable {
 	ba, err := emulated.NewField[BLS12381Fp](api)
 	if err != nil {
 		log.Fatal(err)
 	}
-	bs := ba.ToBits(ba.Reduce(&x))
+	bs := ba.ToBits(reduceInRange(ba, &x))
 	var isNotZero frontend.Variable
 	isNotZero = 0
 	for _, b := range bs {
@@ -549,8 +559,8 @@ func G1NotEqual(api frontend.API, x, y baseEl) frontend.Variable {
 	if err != nil {
 		log.Fatal(err)
 	}
-	xBits := ba.ToBits(ba.Reduce(&x))
-	yBits := ba.ToBits(ba.Reduce(&y))
+	xBits := ba.ToBits(reduceInRange(ba, &x))
+	yBits := ba.ToBits(reduceInRange(ba, &y))
 
 	var notEqual frontend.Variable
 	notEqual = 0
-- 
2.43.0


From e72de9991ec1760ffddcdbcefd28064399ad3012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 47/53] fix: bls12381 gadget: E2Exp negated the exponent of its
 caller

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 9a1e733..8733c27 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -336,7 +336,7 @@ func E2Exp(api frontend.API, x E2, k *big.Int) *E2 {
 
 		// we negate k in a temp big.Int since
 		// Int.Bit(_) of k and -k is different
-		e.Neg(k)
+		e = new(big.Int).Neg(k)
 	}
 
 	b := e.Bytes()
-- 
2.43.0


From b559743b29634f9f0da9fdf8e34823260237069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 48/53] fix: bls12381 gadget: keep the operands of the scalar
 multiplication and of the cofactor clearing

---
 circuits/gadgets/pairing_bls12381/g2.go         | 10 +++++-----
 circuits/gadgets/pairing_bls12381/hash2curve.go |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/g2.go b/circuits/gadgets/pairing_bls12381/g2.go
index 16c0617..9d3713c 100644
--- a/circuits/gadgets/pairing_bls12381/g2.go
+++ b/circuits/gadgets/pairing_bls12381/g2.go
@@ -424,17 +424,17 @@ func G2ConstScalarMul(api frontend.API, Q G2Affine) *G2Affine {
 	table[1] = *G2AddAssign(api, Q, *negPhiQ)
 	table[2] = *G2AddAssign(api, *negQ, phiQ)
 	table[3] = *G2AddAssign(api, Q, phiQ)
-	Acc := table[3]
+	Acc := &table[3]
 	if k[0].Bit(nbits-1) == 1 && k[1].Bit(nbits-1) == 1 {
-		Acc = *G2Double(api, Acc)
-		Acc = *G2AddAssign(api, Acc, table[3])
+		Acc = G2Double(api, *Acc)
+		Acc = G2AddAssign(api, *Acc, table[3])
 		nbits = nbits - 1
 	}
 	for i := nbits - 1; i > 0; i-- {
-		Acc = *DoubleAndAdd(api, &Acc, &table[k[0].Bit(i)+2*k[1].Bit(i)])
+		Acc = DoubleAndAdd(api, Acc, &table[k[0].Bit(i)+2*k[1].Bit(i)])
 	}
 
-	negQ = G2AddAssign(api, *negQ, Acc)
+	negQ = G2AddAssign(api, *negQ, *Acc)
 	negPhiQ = G2AddAssign(api, *negPhiQ, *negQ)
 
 	return &G2Affine{
diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 8733c27..fc167d6 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -658,9 +658,9 @@ func ClearCofactor(api frontend.API, a G2Jacobian) *G2Jacobian {
 	thirdRootOneG1.SetString("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436")
 	trog1 := emulated.ValueOf[BLS12381Fp](thirdRootOneG1)
 
-	t = G2Jacobian{X: *et2.MulByElement(&t.X, &trog1), Y: t.Y, Z: t.Z}
+	t2 := G2Jacobian{X: *et2.MulByElement(&t.X, &trog1), Y: t.Y, Z: t.Z}
 
-	res = G2JacobianSubAssign(api, res, t)
+	res = G2JacobianSubAssign(api, res, t2)
 
 	return &res
 
-- 
2.43.0


From eee7e43b377004645b6dd464bd71a7a848bb5a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:11 +0000
Subject: [PATCH 49/53] fix: bls12381 gadget: give every circuit its own copies
 of the map constants

---
 .../gadgets/pairing_bls12381/hash2curve.go    | 34 +++++++++++--------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index fc167d6..4e24322 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -164,28 +164,32 @@ func MapElementToCurve2(api frontend.API, e2 E2) (x, y *E2) {
 
 	et2 := NewExt2(ba)
 
-	tv1 := et2.Square(&e2)    // 1.  tv1 = u²
-	tv1 = et2.Mul(tv1, &Tv4Z) // 2.  tv1 = Z * tv1
-	tv2 := et2.Square(tv1)    // 3.  tv2 = tv1²
-	tv2 = et2.Add(tv2, tv1)   // 4.  tv2 = tv2 + tv1
+	// the field caches evaluations inside its operands, so every circuit needs
+	// its own copies of the shared constants
+	coeffA, coeffB, z := SswuIsoCurveCoeffA, SswuIsoCurveCoeffB, Tv4Z
 
-	tv3 := et2.Add(tv2, et2.One())          // 5.  tv3 = tv2 + 1
-	tv3 = et2.Mul(tv3, &SswuIsoCurveCoeffB) // 6.  tv3 = B * tv3
+	tv1 := et2.Square(&e2)  // 1.  tv1 = u²
+	tv1 = et2.Mul(tv1, &z)  // 2.  tv1 = Z * tv1
+	tv2 := et2.Square(tv1)  // 3.  tv2 = tv1²
+	tv2 = et2.Add(tv2, tv1) // 4.  tv2 = tv2 + tv1
+
+	tv3 := et2.Add(tv2, et2.One()) // 5.  tv3 = tv2 + 1
+	tv3 = et2.Mul(tv3, &coeffB)    // 6.  tv3 = B * tv3
 
 	// 7. tv4 = CMOV(Z, -tv2, tv2 != 0)
-	tv4 := et2.Select(E2NotZero(api, *tv2), et2.Neg(tv2), &Tv4Z)
-	tv4 = et2.Mul(tv4, &SswuIsoCurveCoeffA) // 8. tv4 = A * tv4
+	tv4 := et2.Select(E2NotZero(api, *tv2), et2.Neg(tv2), &z)
+	tv4 = et2.Mul(tv4, &coeffA) // 8. tv4 = A * tv4
 
 	tv2 = et2.Square(tv3) // 9.  tv2 = tv3²
 
-	tv6 := et2.Square(tv4)                   // 10. tv6 = tv4²
-	tv5 := et2.Mul(tv6, &SswuIsoCurveCoeffA) // 11. tv5 = A * tv6
-	tv2 = et2.Add(tv2, tv5)                  // 12. tv2 = tv2 + tv5
-	tv2 = et2.Mul(tv2, tv3)                  // 13. tv2 = tv2 * tv3
-	tv6 = et2.Mul(tv6, tv4)                  // 14. tv6 = tv6 * tv4
+	tv6 := et2.Square(tv4)       // 10. tv6 = tv4²
+	tv5 := et2.Mul(tv6, &coeffA) // 11. tv5 = A * tv6
+	tv2 = et2.Add(tv2, tv5)      // 12. tv2 = tv2 + tv5
+	tv2 = et2.Mul(tv2, tv3)      // 13. tv2 = tv2 * tv3
+	tv6 = et2.Mul(tv6, tv4)      // 14. tv6 = tv6 * tv4
 
-	tv5 = et2.Mul(tv6, &SswuIsoCurveCoeffB) // 15. tv5 = B * tv6
-	tv2 = et2.Add(tv2, tv5)                 // 16. tv2 = tv2 + tv5
+	tv5 = et2.Mul(tv6, &coeffB) // 15. tv5 = B * tv6
+	tv2 = et2.Add(tv2, tv5)     // 16. tv2 = tv2 + tv5
 
 	x = et2.Mul(tv1, tv3) // 17.   x = tv1 * tv3
 
-- 
2.43.0


From 3548ec968a8dbd683f3406e4ccac6e3a0c408b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:11 +0000
Subject: [PATCH 50/53] fix: bls12381 gadget: the pairing with the point at
 infinity of G2 is one

---
 circuits/gadgets/pairing_bls12381/pairing.go | 25 +++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/pairing_bls12381/pairing.go b/circuits/gadgets/pairing_bls12381/pairing.go
index 8adf1cd..6479bcf 100644
--- a/circuits/gadgets/pairing_bls12381/pairing.go
+++ b/circuits/gadgets/pairing_bls12381/pairing.go
@@ -3,6 +3,7 @@ package pairing_bls12381
 import (
 	"fmt"
 
+	bls12381 "github.com/consensys/gnark-crypto/ecc/bls12-381"
 	"github.com/consensys/gnark/frontend"
 	"github.com/consensys/gnark/std/math/emulated"
 )
@@ -199,6 +200,24 @@ func (pr Pairing) AddStep(p *G2Projective, a *G2Affine) (*G2Projective, *LineEva
 		}
 }
 
+// filterInfinity replaces a pair whose second point is (0, 0), the point at
+// infinity, by one on which the formulas are defined and the pairing is one: the
+// lines through any Q evaluate at (0, 0) to elements of the subfield.
+func (pr Pairing) filterInfinity(p *G1Affine, q *G2Affine) (*G1Affine, *G2Affine) {
+	_, _, _, g := bls12381.Generators()
+	gen := NewG2Affine(g)
+	notInf := pr.ext2.selectIfZero(&q.Y, pr.ext2.Zero(), pr.ext2.One())
+	notInf = pr.ext2.selectIfZero(&q.X, notInf, pr.ext2.One())
+	isInf := pr.ext2.fp.IsZero(&notInf.A0)
+	return &G1Affine{
+			X: *pr.ext2.fp.Select(isInf, pr.ext2.fp.Zero(), &p.X),
+			Y: *pr.ext2.fp.Select(isInf, pr.ext2.fp.Zero(), &p.Y),
+		}, &G2Affine{
+			X: *pr.ext2.Select(isInf, &gen.X, &q.X),
+			Y: *pr.ext2.Select(isInf, &gen.Y, &q.Y),
+		}
+}
+
 type LineEvaluation struct {
 	r0 E2
 	r1 E2
@@ -223,7 +242,11 @@ func (pr Pairing) MillerLoop(p []*G1Affine, q []*G2Affine) (*GTEl, error) {
 		return nil, fmt.Errorf("invalid inputs sizes")
 	}
 
-	// TODO: we have omitted filtering for infinity points.
+	fp, fq := make([]*G1Affine, n), make([]*G2Affine, n)
+	for k := 0; k < n; k++ {
+		fp[k], fq[k] = pr.filterInfinity(p[k], q[k])
+	}
+	p, q = fp, fq
 
 	qProj := make([]*G2Projective, n)
 	for k := 0; k < n; k++ {
-- 
2.43.0


From a8d3ea406c3e6ff1e3910f67273436660ca11f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:25 +0000
Subject: [PATCH 51/53] fix: limbs: resplit numbers of as many bits as the
 field without reducing them

---
 circuits/gadgets/limbs/limbapi.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/limbs/limbapi.go b/circuits/gadgets/limbs/limbapi.go
index ce51778..1b30afc 100644
--- a/circuits/gadgets/limbs/limbapi.go
+++ b/circuits/gadgets/limbs/limbapi.go
@@ -137,18 +137,22 @@ func (wa *API) Resplit(ws Limbs, newLimbSize int) Limbs {
 	}
 	totalSize := ws.TotalSize()
 	f := wa.api.Compiler().FieldBitLen()
-	if totalSize <= f {
+	if totalSize < f {
 		return wa.Split(wa.Merge(ws), newLimbSize)
 	}
-	// if the total limb size is greater than the field size, we cannot merge all the limbs together then
-	// split. in this case, we split all limbs into 1-bit limbs then merge them to `newLimbSize` limbs
+	// if the total limb size is not below the field size, the merged number may exceed the modulus: we cannot merge all
+	// the limbs together then split. in this case, we split all limbs into 1-bit limbs then merge them to `newLimbSize` limbs
 	var bits Limbs
 	for _, w := range ws {
 		bits = append(bits, wa.Split(w, 1)...)
 	}
 	var ret Limbs
 	for i := 0; i < totalSize; i += newLimbSize {
-		ret = append(ret, wa.Merge(bits[i:i+newLimbSize]))
+		end := i + newLimbSize
+		if end > totalSize {
+			end = totalSize
+		}
+		ret = append(ret, wa.Merge(bits[i:end]))
 	}
 	return ret
 }
-- 
2.43.0


From 7e8e426a9b8bffe1c197ed0bf47b688bac96d9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:34 +0000
Subject: [PATCH 52/53] fix: eth client: answer an error, not a panic, on
 empty, odd or incomplete beacon responses

---
 common/eth/client.go | 54 ++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/common/eth/client.go b/common/eth/client.go
index f7b7159..b83a77f 100644
--- a/common/eth/client.go
+++ b/common/eth/client.go
@@ -57,21 +57,29 @@ func (ec *Client) GetSlot(block uint64) (uint64, bool) {
 		return 0, false
 	}
 	defer res.Body.Close()
-	resBody, _ := io.ReadAll(res.Body)
-	var jsonRes map[string]interface{}    // declaring a map for key names as string and values as interface
-	_ = json.Unmarshal(resBody, &jsonRes) // Unmarshalling
-	dataList := jsonRes["data"].([]interface{})
-	data := dataList[0].(map[string]interface{})
-	if data["posConsensus"] == nil {
+	resBody, err := io.ReadAll(res.Body)
+	if err != nil {
+		log.Errorf("failed to read slot by block: %s", err.Error())
 		return 0, false
 	}
-	posConsensus := data["posConsensus"].(map[string]interface{})
-	slot := uint64(0)
-	finilized := false
-
-	slot = uint64(posConsensus["slot"].(float64))
-	finilized = posConsensus["finalized"].(bool)
-	return slot, finilized
+	var jsonRes map[string]interface{} // declaring a map for key names as string and values as interface
+	if err = json.Unmarshal(resBody, &jsonRes); err != nil {
+		log.Errorf("failed to parse slot by block: %s", err.Error())
+		return 0, false
+	}
+	// the answer of a block the explorer does not know has no (or other) data
+	dataList, _ := jsonRes["data"].([]interface{})
+	if len(dataList) == 0 {
+		return 0, false
+	}
+	data, _ := dataList[0].(map[string]interface{})
+	posConsensus, _ := data["posConsensus"].(map[string]interface{})
+	slot, hasSlot := posConsensus["slot"].(float64)
+	finilized, hasFinilized := posConsensus["finalized"].(bool)
+	if !hasSlot || !hasFinilized {
+		return 0, false
+	}
+	return uint64(slot), finilized
 }
 
 func (ec *Client) GetBlock(slot uint64) uint64 {
@@ -100,15 +108,21 @@ func (ec *Client) GetBlock(slot uint64) uint64 {
 		return 0
 	}
 	defer res.Body.Close()
-	resBody, _ := io.ReadAll(res.Body)
-	var jsonRes map[string]interface{}    // declaring a map for key names as string and values as interface
-	_ = json.Unmarshal(resBody, &jsonRes) // Unmarshalling
-	data := jsonRes["data"].(map[string]interface{})
-	if data == nil {
+	resBody, err := io.ReadAll(res.Body)
+	if err != nil {
+		log.Errorf("failed to read block by slot: %s", err.Error())
+		return 0
+	}
+	var jsonRes map[string]interface{} // declaring a map for key names as string and values as interface
+	if err = json.Unmarshal(resBody, &jsonRes); err != nil {
+		log.Errorf("failed to parse block by slot: %s", err.Error())
 		return 0
 	}
-	if data["exec_block_number"] == nil {
+	// the answer of an empty or unknown slot has no (or other) data
+	data, _ := jsonRes["data"].(map[string]interface{})
+	block, ok := data["exec_block_number"].(float64)
+	if !ok {
 		return 0
 	}
-	return uint64(data["exec_block_number"].(float64))
+	return uint64(block)
 }
-- 
2.43.0


From d23a8e7cd52823dc9509c946050191732e939e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:34 +0000
Subject: [PATCH 53/53] fix: s3 client: list every object under a prefix, not
 only the first answer's

---
 common/s3api/client.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/s3api/client.go b/common/s3api/client.go
index ae6b386..0d0bafb 100644
--- a/common/s3api/client.go
+++ b/common/s3api/client.go
@@ -64,14 +64,19 @@ func NewClient(bucket string) (*Client, error) {
 }
 
 func (s *Client) ListObjects(prefix string) ([]*s3.Object, error) {
-	res, err := s.s3.ListObjects(&s3.ListObjectsInput{
+	var objects []*s3.Object
+	// one answer holds a limited number of objects
+	err := s.s3.ListObjectsPages(&s3.ListObjectsInput{
 		Bucket: aws.String(s.bucket),
 		Prefix: aws.String(prefix),
+	}, func(page *s3.ListObjectsOutput, lastPage bool) bool {
+		objects = append(objects, page.Contents...)
+		return true
 	})
 	if err != nil {
 		return nil, err
 	}
-	return res.Contents, nil
+	return objects, nil
 }
 
 func (s *Client) Upload(key string, body io.Reader) error {
-- 
2.43.0

