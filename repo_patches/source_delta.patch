From 616990b83c1c7f14fa34953ffdf7f70357be1d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:42 +0000
Subject: [PATCH 01/42] fix: bounds checks in DecodeRawTransaction (truncated
 raw transactions panicked)

---
 bitcoincashTransaction/txStruct.go | 9 ++++++---
 bitcoinsvTransaction/txStruct.go   | 9 ++++++---
 btcTransaction/txStruct.go         | 9 ++++++---
 cxcTransaction/txStruct.go         | 9 ++++++---
 hcTransaction/txStruct.go          | 9 ++++++---
 omniTransaction/txStruct.go        | 9 ++++++---
 zencashTransaction/txStruct.go     | 9 ++++++---
 7 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index 4920b46..7bebfa9 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -218,7 +218,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -234,6 +234,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -325,7 +328,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
@@ -381,7 +384,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					index++
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 4f3394b..b207d7c 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -218,7 +218,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -234,6 +234,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -325,7 +328,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
@@ -381,7 +384,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					index++
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index b16bb21..f5a48d0 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -197,7 +197,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -213,6 +213,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -304,7 +307,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
@@ -360,7 +363,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					index++
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index b0f1750..6b28e55 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -228,7 +228,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -244,6 +244,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -335,7 +338,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
@@ -391,7 +394,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					index++
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index e2dc2f9..f844c4f 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -197,7 +197,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -213,6 +213,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -304,7 +307,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
@@ -360,7 +363,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					index++
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index 8a05cc0..0babf94 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -197,7 +197,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -213,6 +213,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -304,7 +307,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
@@ -360,7 +363,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					index++
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index 2464de3..f974c44 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -197,7 +197,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -213,6 +213,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -304,7 +307,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
@@ -360,7 +363,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					index++
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
-- 
2.43.0


From ed002a7454345ae4d1d22248479a8d87aadc233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:43 +0000
Subject: [PATCH 02/42] fix: pad big.Int bytes to 32 bytes (loop bound shrank
 while padding, so only half the zeros were added)

---
 aliencoinTransaction/txSigPub.go          | 2 +-
 binancechainTransaction/utils.go          | 2 +-
 bitcoincashTransaction/SignaturePubkey.go | 2 +-
 bitcoinsvTransaction/SignaturePubkey.go   | 2 +-
 btcLikeTxDriver/signaturepubkey.go        | 2 +-
 btcTransaction/SignaturePubkey.go         | 2 +-
 cosmosTransaction/transaction.go          | 2 +-
 cxcTransaction/SignaturePubkey.go         | 2 +-
 evaioTransaction/transaction.go           | 2 +-
 hcTransaction/SignaturePubkey.go          | 2 +-
 hypercashTransaction/txSignature.go       | 2 +-
 mateverseTransaction/txUtils.go           | 2 +-
 omniTransaction/SignaturePubkey.go        | 2 +-
 ontologyTransaction/txSigPub.go           | 2 +-
 owkeychain/extendedkey.go                 | 4 ++--
 rippleTransaction/txUtils.go              | 2 +-
 vergeTransaction/txSigPub.go              | 2 +-
 vollarTransaction/txSigPub.go             | 2 +-
 zencashTransaction/SignaturePubkey.go     | 2 +-
 19 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/aliencoinTransaction/txSigPub.go b/aliencoinTransaction/txSigPub.go
index e36fdda..c1914fa 100644
--- a/aliencoinTransaction/txSigPub.go
+++ b/aliencoinTransaction/txSigPub.go
@@ -27,7 +27,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/binancechainTransaction/utils.go b/binancechainTransaction/utils.go
index 2bf9143..393ed62 100644
--- a/binancechainTransaction/utils.go
+++ b/binancechainTransaction/utils.go
@@ -21,7 +21,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/bitcoincashTransaction/SignaturePubkey.go b/bitcoincashTransaction/SignaturePubkey.go
index f1c5f6a..8be4352 100644
--- a/bitcoincashTransaction/SignaturePubkey.go
+++ b/bitcoincashTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/bitcoinsvTransaction/SignaturePubkey.go b/bitcoinsvTransaction/SignaturePubkey.go
index b377fa8..1726bf2 100644
--- a/bitcoinsvTransaction/SignaturePubkey.go
+++ b/bitcoinsvTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/btcLikeTxDriver/signaturepubkey.go b/btcLikeTxDriver/signaturepubkey.go
index 0a0d002..ce5a687 100644
--- a/btcLikeTxDriver/signaturepubkey.go
+++ b/btcLikeTxDriver/signaturepubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/btcTransaction/SignaturePubkey.go b/btcTransaction/SignaturePubkey.go
index 1a9d48f..3effe53 100644
--- a/btcTransaction/SignaturePubkey.go
+++ b/btcTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/cosmosTransaction/transaction.go b/cosmosTransaction/transaction.go
index 3393e7c..e320dfb 100644
--- a/cosmosTransaction/transaction.go
+++ b/cosmosTransaction/transaction.go
@@ -37,7 +37,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/cxcTransaction/SignaturePubkey.go b/cxcTransaction/SignaturePubkey.go
index ea881d2..db5da69 100644
--- a/cxcTransaction/SignaturePubkey.go
+++ b/cxcTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/evaioTransaction/transaction.go b/evaioTransaction/transaction.go
index 381e17d..073f867 100644
--- a/evaioTransaction/transaction.go
+++ b/evaioTransaction/transaction.go
@@ -37,7 +37,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/hcTransaction/SignaturePubkey.go b/hcTransaction/SignaturePubkey.go
index 97538b5..1c676a0 100644
--- a/hcTransaction/SignaturePubkey.go
+++ b/hcTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/hypercashTransaction/txSignature.go b/hypercashTransaction/txSignature.go
index 8a812a6..5f778b7 100644
--- a/hypercashTransaction/txSignature.go
+++ b/hypercashTransaction/txSignature.go
@@ -19,7 +19,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/mateverseTransaction/txUtils.go b/mateverseTransaction/txUtils.go
index 21d8dd7..f092396 100644
--- a/mateverseTransaction/txUtils.go
+++ b/mateverseTransaction/txUtils.go
@@ -90,7 +90,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/omniTransaction/SignaturePubkey.go b/omniTransaction/SignaturePubkey.go
index 4d682ae..f8f77bf 100644
--- a/omniTransaction/SignaturePubkey.go
+++ b/omniTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/ontologyTransaction/txSigPub.go b/ontologyTransaction/txSigPub.go
index 71ac866..4d9a442 100644
--- a/ontologyTransaction/txSigPub.go
+++ b/ontologyTransaction/txSigPub.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index 97f56cd..2c9f8d7 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -120,7 +120,7 @@ func getPriChildViaPriParent(il, prikey []byte, typeChoose uint32) ([]byte, erro
 		}
 		priChild = ilNum.Bytes()
 		if len(priChild) < 32 {
-			for i := 0; i < 32-len(priChild); i++ {
+			for len(priChild) < 32 {
 				priChild = append([]byte{0x00}, priChild...)
 			}
 		}
@@ -139,7 +139,7 @@ func getPriChildViaPriParent(il, prikey []byte, typeChoose uint32) ([]byte, erro
 		}
 		priChild = ilNum.Bytes()
 		if len(priChild) < 32 {
-			for i := 0; i < 32-len(priChild); i++ {
+			for len(priChild) < 32 {
 				priChild = append([]byte{0x00}, priChild...)
 			}
 		}
diff --git a/rippleTransaction/txUtils.go b/rippleTransaction/txUtils.go
index 67d3f05..d82c267 100644
--- a/rippleTransaction/txUtils.go
+++ b/rippleTransaction/txUtils.go
@@ -104,7 +104,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/vergeTransaction/txSigPub.go b/vergeTransaction/txSigPub.go
index da17646..6d62208 100644
--- a/vergeTransaction/txSigPub.go
+++ b/vergeTransaction/txSigPub.go
@@ -27,7 +27,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/vollarTransaction/txSigPub.go b/vollarTransaction/txSigPub.go
index b919b89..77982bd 100644
--- a/vollarTransaction/txSigPub.go
+++ b/vollarTransaction/txSigPub.go
@@ -27,7 +27,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/zencashTransaction/SignaturePubkey.go b/zencashTransaction/SignaturePubkey.go
index 1115e0d..d7ae997 100644
--- a/zencashTransaction/SignaturePubkey.go
+++ b/zencashTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
-- 
2.43.0


From 5ea54e94c80308b4359bdc35a1d18ceb611afac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:07 +0000
Subject: [PATCH 03/42] fix: DER decoder accepted 33-byte integers whose first
 byte is not the zero pad

---
 aliencoinTransaction/txSigPub.go          | 4 ++--
 bitcoincashTransaction/SignaturePubkey.go | 8 ++++----
 bitcoinsvTransaction/SignaturePubkey.go   | 8 ++++----
 btcLikeTxDriver/signaturepubkey.go        | 4 ++--
 btcLikeTxDriver/witness.go                | 4 ++--
 btcTransaction/SignaturePubkey.go         | 8 ++++----
 cxcTransaction/SignaturePubkey.go         | 8 ++++----
 hcTransaction/SignaturePubkey.go          | 8 ++++----
 omniTransaction/SignaturePubkey.go        | 8 ++++----
 vergeTransaction/txSigPub.go              | 4 ++--
 vollarTransaction/txSigPub.go             | 4 ++--
 zencashTransaction/SignaturePubkey.go     | 8 ++++----
 12 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/aliencoinTransaction/txSigPub.go b/aliencoinTransaction/txSigPub.go
index c1914fa..5874aa1 100644
--- a/aliencoinTransaction/txSigPub.go
+++ b/aliencoinTransaction/txSigPub.go
@@ -129,7 +129,7 @@ func decodeFromScriptBytes(script []byte) (*SigPub, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -169,7 +169,7 @@ func decodeFromScriptBytes(script []byte) (*SigPub, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
diff --git a/bitcoincashTransaction/SignaturePubkey.go b/bitcoincashTransaction/SignaturePubkey.go
index 8be4352..cf7f3de 100644
--- a/bitcoincashTransaction/SignaturePubkey.go
+++ b/bitcoincashTransaction/SignaturePubkey.go
@@ -184,7 +184,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -225,7 +225,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -308,7 +308,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -348,7 +348,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
diff --git a/bitcoinsvTransaction/SignaturePubkey.go b/bitcoinsvTransaction/SignaturePubkey.go
index 1726bf2..b46e894 100644
--- a/bitcoinsvTransaction/SignaturePubkey.go
+++ b/bitcoinsvTransaction/SignaturePubkey.go
@@ -184,7 +184,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -225,7 +225,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -308,7 +308,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -348,7 +348,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
diff --git a/btcLikeTxDriver/signaturepubkey.go b/btcLikeTxDriver/signaturepubkey.go
index ce5a687..3653801 100644
--- a/btcLikeTxDriver/signaturepubkey.go
+++ b/btcLikeTxDriver/signaturepubkey.go
@@ -151,7 +151,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 		if index+2 > limit {
 			return nil, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, errors.New("Invalid signature data!")
 		}
 	}
@@ -191,7 +191,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 		if index+2 > limit {
 			return nil, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, errors.New("Invalid signature data!")
 		}
 	}
diff --git a/btcLikeTxDriver/witness.go b/btcLikeTxDriver/witness.go
index 36d9a11..a524191 100644
--- a/btcLikeTxDriver/witness.go
+++ b/btcLikeTxDriver/witness.go
@@ -57,7 +57,7 @@ func decodeFromSegwitBytes(script []byte) (*TxWitness, error) {
 	index++
 
 	if rLen == 0x21 {
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, errors.New("Invalid signature data!")
 		}
 		index++
@@ -75,7 +75,7 @@ func decodeFromSegwitBytes(script []byte) (*TxWitness, error) {
 	index++
 
 	if sLen == 0x21 {
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, errors.New("Invalid signature data!")
 		}
 		index++
diff --git a/btcTransaction/SignaturePubkey.go b/btcTransaction/SignaturePubkey.go
index 3effe53..8ec7750 100644
--- a/btcTransaction/SignaturePubkey.go
+++ b/btcTransaction/SignaturePubkey.go
@@ -184,7 +184,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -225,7 +225,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -308,7 +308,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -348,7 +348,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
diff --git a/cxcTransaction/SignaturePubkey.go b/cxcTransaction/SignaturePubkey.go
index db5da69..e898fee 100644
--- a/cxcTransaction/SignaturePubkey.go
+++ b/cxcTransaction/SignaturePubkey.go
@@ -184,7 +184,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -225,7 +225,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -308,7 +308,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -348,7 +348,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
diff --git a/hcTransaction/SignaturePubkey.go b/hcTransaction/SignaturePubkey.go
index 1c676a0..ea701cc 100644
--- a/hcTransaction/SignaturePubkey.go
+++ b/hcTransaction/SignaturePubkey.go
@@ -185,7 +185,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -226,7 +226,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -309,7 +309,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -349,7 +349,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
diff --git a/omniTransaction/SignaturePubkey.go b/omniTransaction/SignaturePubkey.go
index f8f77bf..973dfcf 100644
--- a/omniTransaction/SignaturePubkey.go
+++ b/omniTransaction/SignaturePubkey.go
@@ -184,7 +184,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -225,7 +225,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -308,7 +308,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -348,7 +348,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
diff --git a/vergeTransaction/txSigPub.go b/vergeTransaction/txSigPub.go
index 6d62208..23a414a 100644
--- a/vergeTransaction/txSigPub.go
+++ b/vergeTransaction/txSigPub.go
@@ -129,7 +129,7 @@ func decodeFromScriptBytes(script []byte) (*SigPub, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -169,7 +169,7 @@ func decodeFromScriptBytes(script []byte) (*SigPub, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
diff --git a/vollarTransaction/txSigPub.go b/vollarTransaction/txSigPub.go
index 77982bd..dcafd10 100644
--- a/vollarTransaction/txSigPub.go
+++ b/vollarTransaction/txSigPub.go
@@ -129,7 +129,7 @@ func decodeFromScriptBytes(script []byte) (*SigPub, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -169,7 +169,7 @@ func decodeFromScriptBytes(script []byte) (*SigPub, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
diff --git a/zencashTransaction/SignaturePubkey.go b/zencashTransaction/SignaturePubkey.go
index d7ae997..ac34441 100644
--- a/zencashTransaction/SignaturePubkey.go
+++ b/zencashTransaction/SignaturePubkey.go
@@ -184,7 +184,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -225,7 +225,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -308,7 +308,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
@@ -348,7 +348,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 		if index+2 > limit {
 			return nil, 0, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, 0, errors.New("Invalid signature data!")
 		}
 	}
-- 
2.43.0


From e87819239a71df68cd8cc2b713575685c84375dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:07 +0000
Subject: [PATCH 04/42] fix: DER integer encoding of an all-zero half read past
 the end of the slice

---
 bitcoincashTransaction/SignaturePubkey.go | 4 ++--
 bitcoinsvTransaction/SignaturePubkey.go   | 4 ++--
 btcLikeTxDriver/signaturepubkey.go        | 4 ++--
 btcTransaction/SignaturePubkey.go         | 4 ++--
 cxcTransaction/SignaturePubkey.go         | 4 ++--
 hcTransaction/SignaturePubkey.go          | 4 ++--
 hypercashTransaction/txSignature.go       | 4 ++--
 mateverseTransaction/txSigPub.go          | 4 ++--
 omniTransaction/SignaturePubkey.go        | 4 ++--
 rippleTransaction/txUtils.go              | 4 ++--
 vergeTransaction/txSigPub.go              | 4 ++--
 vollarTransaction/txSigPub.go             | 4 ++--
 waykichainTransaction/txSignature.go      | 4 ++--
 zencashTransaction/SignaturePubkey.go     | 4 ++--
 14 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/bitcoincashTransaction/SignaturePubkey.go b/bitcoincashTransaction/SignaturePubkey.go
index cf7f3de..90c5520 100644
--- a/bitcoincashTransaction/SignaturePubkey.go
+++ b/bitcoincashTransaction/SignaturePubkey.go
@@ -56,7 +56,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 	if r[0]&0x80 == 0x80 {
 		r = append([]byte{0x00}, r...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
@@ -67,7 +67,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 	if s[0]&0x80 == 0x80 {
 		s = append([]byte{0}, s...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
diff --git a/bitcoinsvTransaction/SignaturePubkey.go b/bitcoinsvTransaction/SignaturePubkey.go
index b46e894..0fc2292 100644
--- a/bitcoinsvTransaction/SignaturePubkey.go
+++ b/bitcoinsvTransaction/SignaturePubkey.go
@@ -56,7 +56,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 	if r[0]&0x80 == 0x80 {
 		r = append([]byte{0x00}, r...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
@@ -67,7 +67,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 	if s[0]&0x80 == 0x80 {
 		s = append([]byte{0}, s...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
diff --git a/btcLikeTxDriver/signaturepubkey.go b/btcLikeTxDriver/signaturepubkey.go
index 3653801..0fba88c 100644
--- a/btcLikeTxDriver/signaturepubkey.go
+++ b/btcLikeTxDriver/signaturepubkey.go
@@ -65,7 +65,7 @@ func (sp SignaturePubkey) encodeToScript(sigType byte) []byte {
 	if r[0]&0x80 == 0x80 {
 		r = append([]byte{0x00}, r...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
@@ -76,7 +76,7 @@ func (sp SignaturePubkey) encodeToScript(sigType byte) []byte {
 	if s[0]&0x80 == 0x80 {
 		s = append([]byte{0}, s...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
diff --git a/btcTransaction/SignaturePubkey.go b/btcTransaction/SignaturePubkey.go
index 8ec7750..05174fd 100644
--- a/btcTransaction/SignaturePubkey.go
+++ b/btcTransaction/SignaturePubkey.go
@@ -56,7 +56,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 	if r[0]&0x80 == 0x80 {
 		r = append([]byte{0x00}, r...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
@@ -67,7 +67,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 	if s[0]&0x80 == 0x80 {
 		s = append([]byte{0}, s...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
diff --git a/cxcTransaction/SignaturePubkey.go b/cxcTransaction/SignaturePubkey.go
index e898fee..1fcb0ec 100644
--- a/cxcTransaction/SignaturePubkey.go
+++ b/cxcTransaction/SignaturePubkey.go
@@ -56,7 +56,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 	if r[0]&0x80 == 0x80 {
 		r = append([]byte{0x00}, r...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
@@ -67,7 +67,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 	if s[0]&0x80 == 0x80 {
 		s = append([]byte{0}, s...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
diff --git a/hcTransaction/SignaturePubkey.go b/hcTransaction/SignaturePubkey.go
index ea701cc..0990989 100644
--- a/hcTransaction/SignaturePubkey.go
+++ b/hcTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 	if r[0]&0x80 == 0x80 {
 		r = append([]byte{0x00}, r...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 	if s[0]&0x80 == 0x80 {
 		s = append([]byte{0}, s...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
diff --git a/hypercashTransaction/txSignature.go b/hypercashTransaction/txSignature.go
index 5f778b7..c792732 100644
--- a/hypercashTransaction/txSignature.go
+++ b/hypercashTransaction/txSignature.go
@@ -35,7 +35,7 @@ func (sp SigPub) encodeSignatureToScript(sigType byte) []byte {
 	if r[0]&0x80 == 0x80 {
 		r = append([]byte{0x00}, r...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
@@ -46,7 +46,7 @@ func (sp SigPub) encodeSignatureToScript(sigType byte) []byte {
 	if s[0]&0x80 == 0x80 {
 		s = append([]byte{0}, s...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
diff --git a/mateverseTransaction/txSigPub.go b/mateverseTransaction/txSigPub.go
index cee0d9e..aa76b3a 100644
--- a/mateverseTransaction/txSigPub.go
+++ b/mateverseTransaction/txSigPub.go
@@ -16,7 +16,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 	if r[0]&0x80 == 0x80 {
 		r = append([]byte{0x00}, r...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
@@ -27,7 +27,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 	if s[0]&0x80 == 0x80 {
 		s = append([]byte{0}, s...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
diff --git a/omniTransaction/SignaturePubkey.go b/omniTransaction/SignaturePubkey.go
index 973dfcf..7bc043a 100644
--- a/omniTransaction/SignaturePubkey.go
+++ b/omniTransaction/SignaturePubkey.go
@@ -56,7 +56,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 	if r[0]&0x80 == 0x80 {
 		r = append([]byte{0x00}, r...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
@@ -67,7 +67,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 	if s[0]&0x80 == 0x80 {
 		s = append([]byte{0}, s...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
diff --git a/rippleTransaction/txUtils.go b/rippleTransaction/txUtils.go
index d82c267..0637e68 100644
--- a/rippleTransaction/txUtils.go
+++ b/rippleTransaction/txUtils.go
@@ -53,7 +53,7 @@ func getSignatureBytes(sp []byte) []byte {
 	if r[0]&0x80 == 0x80 {
 		r = append([]byte{0x00}, r...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
@@ -64,7 +64,7 @@ func getSignatureBytes(sp []byte) []byte {
 	if s[0]&0x80 == 0x80 {
 		s = append([]byte{0}, s...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
diff --git a/vergeTransaction/txSigPub.go b/vergeTransaction/txSigPub.go
index 23a414a..0f7bf7a 100644
--- a/vergeTransaction/txSigPub.go
+++ b/vergeTransaction/txSigPub.go
@@ -42,7 +42,7 @@ func (sp SigPub) ToBytes() []byte {
 	if r[0]&0x80 == 0x80 {
 		r = append([]byte{0x00}, r...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
@@ -53,7 +53,7 @@ func (sp SigPub) ToBytes() []byte {
 	if s[0]&0x80 == 0x80 {
 		s = append([]byte{0}, s...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
diff --git a/vollarTransaction/txSigPub.go b/vollarTransaction/txSigPub.go
index dcafd10..01ed89b 100644
--- a/vollarTransaction/txSigPub.go
+++ b/vollarTransaction/txSigPub.go
@@ -42,7 +42,7 @@ func (sp SigPub) ToBytes() []byte {
 	if r[0]&0x80 == 0x80 {
 		r = append([]byte{0x00}, r...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
@@ -53,7 +53,7 @@ func (sp SigPub) ToBytes() []byte {
 	if s[0]&0x80 == 0x80 {
 		s = append([]byte{0}, s...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
diff --git a/waykichainTransaction/txSignature.go b/waykichainTransaction/txSignature.go
index 2aa059c..2b1661a 100644
--- a/waykichainTransaction/txSignature.go
+++ b/waykichainTransaction/txSignature.go
@@ -11,7 +11,7 @@ func (sp SigPub) ToBytes() []byte {
 	if r[0]&0x80 == 0x80 {
 		r = append([]byte{0x00}, r...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
@@ -22,7 +22,7 @@ func (sp SigPub) ToBytes() []byte {
 	if s[0]&0x80 == 0x80 {
 		s = append([]byte{0}, s...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
diff --git a/zencashTransaction/SignaturePubkey.go b/zencashTransaction/SignaturePubkey.go
index ac34441..f61cc89 100644
--- a/zencashTransaction/SignaturePubkey.go
+++ b/zencashTransaction/SignaturePubkey.go
@@ -56,7 +56,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 	if r[0]&0x80 == 0x80 {
 		r = append([]byte{0x00}, r...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
@@ -67,7 +67,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 	if s[0]&0x80 == 0x80 {
 		s = append([]byte{0}, s...)
 	} else {
-		for i := 0; i < 32; i++ {
+		for i := 0; i < 31; i++ {
 			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
-- 
2.43.0


From 46a39a858b7bbecf0fef0b9ec33b73bfc7cb0ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:30 +0000
Subject: [PATCH 05/42] fix: aliencoin DER encoding stripped bytes of the
 signature that are not leading zeros

---
 aliencoinTransaction/txSigPub.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aliencoinTransaction/txSigPub.go b/aliencoinTransaction/txSigPub.go
index 5874aa1..a962c15 100644
--- a/aliencoinTransaction/txSigPub.go
+++ b/aliencoinTransaction/txSigPub.go
@@ -42,8 +42,8 @@ func (sp SigPub) ToBytes() []byte {
 	if r[0]&0x80 == 0x80 {
 		r = append([]byte{0x00}, r...)
 	} else {
-		for i := 0; i < 32; i++ {
-			if r[i] == 0 {
+		for i := 0; i < 31; i++ {
+			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -53,8 +53,8 @@ func (sp SigPub) ToBytes() []byte {
 	if s[0]&0x80 == 0x80 {
 		s = append([]byte{0}, s...)
 	} else {
-		for i := 0; i < 32; i++ {
-			if s[i] == 0 {
+		for i := 0; i < 31; i++ {
+			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
-- 
2.43.0


From b68ffb01593ccec57a0abbc0a9c3e77c6d8f8cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:00 +0000
Subject: [PATCH 06/42] fix: InsertSignatureIntoEmptyTransaction reported
 success with an empty transaction on bad unlock data

---
 bitcoincashTransaction/transaction.go | 4 ++--
 bitcoinsvTransaction/transaction.go   | 4 ++--
 btcTransaction/transaction.go         | 4 ++--
 cxcTransaction/transaction.go         | 4 ++--
 hcTransaction/transaction.go          | 4 ++--
 omniTransaction/transaction.go        | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index 4513070..df43957 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -111,7 +111,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -121,7 +121,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index 1eeb0a7..62d066d 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -111,7 +111,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -121,7 +121,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index 09586d4..191aa5d 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -97,7 +97,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -107,7 +107,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index 2f2d266..bf1492a 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -116,7 +116,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -126,7 +126,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index 10922cb..f4eb6d3 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -97,7 +97,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -107,7 +107,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index c3f007a..3db0b8e 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -94,7 +94,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 
 	segwit, err := isSegwit(unlockData, false)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !false {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -104,7 +104,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
-- 
2.43.0


From dc4ba37af24562ffe376c4d013b95a7ede7e0020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:00 +0000
Subject: [PATCH 07/42] fix: decodeMultiBytes read out of range on malformed
 scripts and on 1-of-n multisig

---
 bitcoincashTransaction/txMultiSig.go | 14 ++++++--------
 bitcoinsvTransaction/txMultiSig.go   | 14 ++++++--------
 btcTransaction/txMultiSig.go         | 14 ++++++--------
 cxcTransaction/txMultiSig.go         | 14 ++++++--------
 hcTransaction/txMultiSig.go          | 14 ++++++--------
 omniTransaction/txMultiSig.go        | 14 ++++++--------
 zencashTransaction/txMultiSig.go     | 14 ++++++--------
 7 files changed, 42 insertions(+), 56 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index 799b51c..2366eaf 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -135,7 +135,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -192,7 +192,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -202,15 +202,13 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
+	for len(sp) < pubkeys {
+		sp = append(sp, SignaturePubkey{nil, nil})
+		st = append(st, 0)
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index da9b52d..e451653 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -135,7 +135,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -192,7 +192,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -202,15 +202,13 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
+	for len(sp) < pubkeys {
+		sp = append(sp, SignaturePubkey{nil, nil})
+		st = append(st, 0)
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index 8f4b9b9..4619083 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -135,7 +135,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -192,7 +192,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -202,15 +202,13 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
+	for len(sp) < pubkeys {
+		sp = append(sp, SignaturePubkey{nil, nil})
+		st = append(st, 0)
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index 817a3a6..1590175 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -135,7 +135,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -192,7 +192,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -202,15 +202,13 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
+	for len(sp) < pubkeys {
+		sp = append(sp, SignaturePubkey{nil, nil})
+		st = append(st, 0)
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index 54812bc..c0f77c4 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -135,7 +135,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -192,7 +192,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -202,15 +202,13 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
+	for len(sp) < pubkeys {
+		sp = append(sp, SignaturePubkey{nil, nil})
+		st = append(st, 0)
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index 0047f39..aab2241 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -134,7 +134,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -191,7 +191,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -201,15 +201,13 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
+	for len(sp) < pubkeys {
+		sp = append(sp, SignaturePubkey{nil, nil})
+		st = append(st, 0)
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index d242f6c..9398d23 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -135,7 +135,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -192,7 +192,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -202,15 +202,13 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
+	for len(sp) < pubkeys {
+		sp = append(sp, SignaturePubkey{nil, nil})
+		st = append(st, 0)
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
-- 
2.43.0


From 9a053d182e0cb667942455917642e242b848827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:01 +0000
Subject: [PATCH 08/42] fix: VerifyRawTransaction let one multisig signature
 count for several keys and panicked on undecodable public keys

---
 bitcoincashTransaction/transaction.go | 16 +++++++++-------
 bitcoinsvTransaction/transaction.go   | 16 +++++++++-------
 btcTransaction/transaction.go         | 16 +++++++++-------
 cxcTransaction/transaction.go         | 16 +++++++++-------
 hcTransaction/transaction.go          | 16 +++++++++-------
 omniTransaction/transaction.go        | 16 +++++++++-------
 zencashTransaction/transaction.go     | 16 +++++++++-------
 7 files changed, 63 insertions(+), 49 deletions(-)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index df43957..ee74a0f 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -204,7 +204,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for i := 0; i < len(signedTrans.Vins); i++ {
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || txHash[i].Normal == nil {
 				return false
 			}
 
@@ -212,7 +212,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+			if err != nil || len(sigpub) > len(txHash[i].Multi) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
@@ -225,17 +225,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) == 0 || owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				for j := next; j < len(t.Multi); j++ {
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) != 0 && owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index 62d066d..6b4bd90 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -204,7 +204,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for i := 0; i < len(signedTrans.Vins); i++ {
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || txHash[i].Normal == nil {
 				return false
 			}
 
@@ -212,7 +212,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+			if err != nil || len(sigpub) > len(txHash[i].Multi) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
@@ -225,17 +225,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) == 0 || owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				for j := next; j < len(t.Multi); j++ {
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) != 0 && owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index 191aa5d..eee085f 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -190,7 +190,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for i := 0; i < len(signedTrans.Vins); i++ {
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || txHash[i].Normal == nil {
 				return false
 			}
 
@@ -198,7 +198,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+			if err != nil || len(sigpub) > len(txHash[i].Multi) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
@@ -211,17 +211,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) == 0 || owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				for j := next; j < len(t.Multi); j++ {
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) != 0 && owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index bf1492a..bcc22ce 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -209,7 +209,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for i := 0; i < len(signedTrans.Vins); i++ {
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || txHash[i].Normal == nil {
 				return false
 			}
 
@@ -217,7 +217,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+			if err != nil || len(sigpub) > len(txHash[i].Multi) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
@@ -230,17 +230,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) == 0 || owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				for j := next; j < len(t.Multi); j++ {
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) != 0 && owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index f4eb6d3..03cf807 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -190,7 +190,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for i := 0; i < len(signedTrans.Vins); i++ {
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || txHash[i].Normal == nil {
 				return false
 			}
 
@@ -198,7 +198,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+			if err != nil || len(sigpub) > len(txHash[i].Multi) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
@@ -211,17 +211,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) == 0 || owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				for j := next; j < len(t.Multi); j++ {
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) != 0 && owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index 3db0b8e..5c3287f 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -187,7 +187,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 	for i := 0; i < len(signedTrans.Vins); i++ {
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || txHash[i].Normal == nil {
 				return false
 			}
 
@@ -195,7 +195,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+			if err != nil || len(sigpub) > len(txHash[i].Multi) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
@@ -208,17 +208,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) == 0 || owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				for j := next; j < len(t.Multi); j++ {
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) != 0 && owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
diff --git a/zencashTransaction/transaction.go b/zencashTransaction/transaction.go
index 7c7f156..75f2ba0 100644
--- a/zencashTransaction/transaction.go
+++ b/zencashTransaction/transaction.go
@@ -145,7 +145,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for i := 0; i < len(signedTrans.Vins); i++ {
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || txHash[i].Normal == nil {
 				return false
 			}
 
@@ -153,7 +153,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+			if err != nil || len(sigpub) > len(txHash[i].Multi) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
@@ -166,17 +166,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) == 0 || owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				for j := next; j < len(t.Multi); j++ {
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) != 0 && owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
-- 
2.43.0


From 7bc9e39cfe9875f96af3ae3df8f3681f65895d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:24 +0000
Subject: [PATCH 09/42] fix: verification panicked on public keys that do not
 decode to a curve point

---
 aliencoinTransaction/transaction.go    | 4 ++--
 binancechainTransaction/transaction.go | 6 +++++-
 btcLikeTxDriver/txStruct.go            | 4 ++--
 elastosTransaction/transaction.go      | 4 ++--
 filenetTransaction/transaction.go      | 4 ++--
 hypercashTransaction/transaction.go    | 4 ++--
 mateverseTransaction/txSigPub.go       | 4 ++--
 ontologyTransaction/transaction.go     | 4 ++--
 rippleTransaction/transaction.go       | 4 ++--
 vergeTransaction/transaction.go        | 4 ++--
 vollarTransaction/transaction.go       | 4 ++--
 waykichainTransaction/transaction.go   | 4 ++--
 12 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/aliencoinTransaction/transaction.go b/aliencoinTransaction/transaction.go
index 659d15b..f650b48 100644
--- a/aliencoinTransaction/transaction.go
+++ b/aliencoinTransaction/transaction.go
@@ -64,8 +64,8 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPubs []SigPub) (bool, str
 	}
 	for index := 0; index < len(sigPubs); index++ {
 		hashBytes, _ := hex.DecodeString(hashes[index])
-		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) == 0 || owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, "", errors.New("verify transaction failed!")
 		}
 		txStruct.Vin[index].SigPub = &sigPubs[index]
diff --git a/binancechainTransaction/transaction.go b/binancechainTransaction/transaction.go
index 5115741..9e931e7 100644
--- a/binancechainTransaction/transaction.go
+++ b/binancechainTransaction/transaction.go
@@ -83,7 +83,11 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, pubkey string) (bool,
 		 return false, ""
 	}
 
-	pubUncompressedBytes := owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	pubUncompressedBytes := owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubUncompressedBytes) == 0 {
+		return false, ""
+	}
+	pubUncompressedBytes = pubUncompressedBytes[1:]
 	hash := tx.StdSignBytes(ChainID, signMsg.AccountNumber, signMsg.Sequence, signMsg.Msgs, signMsg.Memo, signMsg.Source, signMsg.Data)
 
 	hash = owcrypt.Hash(hash, 0, owcrypt.HASH_ALG_SHA256)
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 6cad74c..64ce142 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -441,8 +441,8 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 func verifyHashes(hashes [][]byte, sigPub []SignaturePubkey) bool {
 
 	for i := 0; i < len(sigPub); i++ {
-		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.Verify(pubkey, nil, hashes[i], sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) == 0 || owcrypt.Verify(pubkey[1:], nil, hashes[i], sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 			return false
 		}
 	}
diff --git a/elastosTransaction/transaction.go b/elastosTransaction/transaction.go
index f76d156..9ad988a 100644
--- a/elastosTransaction/transaction.go
+++ b/elastosTransaction/transaction.go
@@ -74,8 +74,8 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPubs []SigPub) (bool,
 	hash := owcrypt.Hash(txBytes, 0, owcrypt.HASH_ALG_SHA256)
 
 	for _, sp := range sigPubs {
-		publicKey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(publicKey, nil, hash, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
+		publicKey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)
+		if len(publicKey) == 0 || owcrypt.SUCCESS != owcrypt.Verify(publicKey[1:], nil, hash, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
 			return false, ""
 		}
 	}
diff --git a/filenetTransaction/transaction.go b/filenetTransaction/transaction.go
index 1232413..119e860 100644
--- a/filenetTransaction/transaction.go
+++ b/filenetTransaction/transaction.go
@@ -66,9 +66,9 @@ func VerifyAndCombineTransaction(emptyTrans, signature, pubkey  string) (string,
 		return "", false
 	}
 
-	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
 
-	if owcrypt.SUCCESS != owcrypt.Verify(pubBytes, nil, hash, sig, owcrypt.ECC_CURVE_SECP256K1) {
+	if len(pubBytes) == 0 || owcrypt.SUCCESS != owcrypt.Verify(pubBytes[1:], nil, hash, sig, owcrypt.ECC_CURVE_SECP256K1) {
 		return "", false
 	}
 
diff --git a/hypercashTransaction/transaction.go b/hypercashTransaction/transaction.go
index 0af3a30..540a0d0 100644
--- a/hypercashTransaction/transaction.go
+++ b/hypercashTransaction/transaction.go
@@ -184,9 +184,9 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []*SigPub) (bool, str
 
 		hash := owcrypt.Hash(hashData, 0, owcrypt.HASH_ALG_BLAKE256)
 
-		pubkey := owcrypt.PointDecompress(sigPub[i].PublicKey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+		pubkey := owcrypt.PointDecompress(sigPub[i].PublicKey, owcrypt.ECC_CURVE_SECP256K1)
 
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+		if len(pubkey) == 0 || owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, ""
 		}
 
diff --git a/mateverseTransaction/txSigPub.go b/mateverseTransaction/txSigPub.go
index aa76b3a..e6eb97b 100644
--- a/mateverseTransaction/txSigPub.go
+++ b/mateverseTransaction/txSigPub.go
@@ -72,8 +72,8 @@ func verifyTransactionHash(pubkey, hash, signature string) bool {
 		return false
 	}
 
-	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
-	if owcrypt.SUCCESS != owcrypt.Verify(pubBytes, nil, hashBytes, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
+	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubBytes) == 0 || owcrypt.SUCCESS != owcrypt.Verify(pubBytes[1:], nil, hashBytes, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
 		return false
 	}
 
diff --git a/ontologyTransaction/transaction.go b/ontologyTransaction/transaction.go
index cd77e3f..ad4e0e4 100644
--- a/ontologyTransaction/transaction.go
+++ b/ontologyTransaction/transaction.go
@@ -99,8 +99,8 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 	hashBytes := owcrypt.Hash(owcrypt.Hash(txBytes[:len(txBytes)-1], 0, owcrypt.HASH_ALG_DOUBLE_SHA256), 0, owcrypt.HASH_ALG_SHA256)
 	sigData.Nrequired = 0
 	for _, sp := range sigpub {
-		pubkey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
+		pubkey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)
+		if len(pubkey) == 0 || owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hashBytes, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
 			return false, "", errors.New("failed to verify transaction!")
 		}
 		sigData.SigPubs = append(sigData.SigPubs, sp)
diff --git a/rippleTransaction/transaction.go b/rippleTransaction/transaction.go
index 7635b80..22dbaa5 100644
--- a/rippleTransaction/transaction.go
+++ b/rippleTransaction/transaction.go
@@ -41,8 +41,8 @@ func VerifyAndCombinRawTransaction(emptyTrans string, signature, publicKey strin
 	if err != nil {
 		return false, ""
 	}
-	pubkeyBytes = owcrypt.PointDecompress(pubkeyBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
-	if owcrypt.SUCCESS != owcrypt.Verify(pubkeyBytes, nil, hash, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
+	pubkeyBytes = owcrypt.PointDecompress(pubkeyBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubkeyBytes) == 0 || owcrypt.SUCCESS != owcrypt.Verify(pubkeyBytes[1:], nil, hash, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
 	txnSignature, _ := getTxnSignatureBytes(signature)
diff --git a/vergeTransaction/transaction.go b/vergeTransaction/transaction.go
index 3663478..0e6e661 100644
--- a/vergeTransaction/transaction.go
+++ b/vergeTransaction/transaction.go
@@ -64,8 +64,8 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPubs []SigPub) (bool, str
 	}
 	for index := 0; index < len(sigPubs); index++ {
 		hashBytes, _ := hex.DecodeString(hashes[index])
-		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) == 0 || owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, "", errors.New("verify transaction failed!")
 		}
 		txStruct.Vin[index].SigPub = &sigPubs[index]
diff --git a/vollarTransaction/transaction.go b/vollarTransaction/transaction.go
index 6a52069..d916fcf 100644
--- a/vollarTransaction/transaction.go
+++ b/vollarTransaction/transaction.go
@@ -76,8 +76,8 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 
 	for i := 0; i < len(sigPub); i++ {
 		hash, _ := hex.DecodeString(hashes[i])
-		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) == 0 || owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			pass = false
 		}
 		trans.Vin[i].SigPub = &sigPub[i]
diff --git a/waykichainTransaction/transaction.go b/waykichainTransaction/transaction.go
index 427e613..6ea5f03 100644
--- a/waykichainTransaction/transaction.go
+++ b/waykichainTransaction/transaction.go
@@ -63,9 +63,9 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub SigPub) (bool, str
 	if err != nil {
 		return false, ""
 	}
-	pubkey := owcrypt.PointDecompress(sigPub.PublicKey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	pubkey := owcrypt.PointDecompress(sigPub.PublicKey, owcrypt.ECC_CURVE_SECP256K1)
 
-	if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) {
+	if len(pubkey) == 0 || owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hash, sigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
 
-- 
2.43.0


From 064548ca30c4130cdcd1a58c92839d8dec432956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:19 +0000
Subject: [PATCH 10/42] fix: signature script decoders appended into the script
 itself, overwriting the hash type and public key behind a short s value

---
 aliencoinTransaction/txSigPub.go          | 2 +-
 bitcoincashTransaction/SignaturePubkey.go | 4 ++--
 bitcoinsvTransaction/SignaturePubkey.go   | 4 ++--
 btcLikeTxDriver/signaturepubkey.go        | 2 +-
 btcTransaction/SignaturePubkey.go         | 4 ++--
 cxcTransaction/SignaturePubkey.go         | 4 ++--
 hcTransaction/SignaturePubkey.go          | 4 ++--
 omniTransaction/SignaturePubkey.go        | 4 ++--
 vergeTransaction/txSigPub.go              | 2 +-
 vollarTransaction/txSigPub.go             | 2 +-
 zencashTransaction/SignaturePubkey.go     | 4 ++--
 11 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/aliencoinTransaction/txSigPub.go b/aliencoinTransaction/txSigPub.go
index a962c15..8d02983 100644
--- a/aliencoinTransaction/txSigPub.go
+++ b/aliencoinTransaction/txSigPub.go
@@ -137,7 +137,7 @@ func decodeFromScriptBytes(script []byte) (*SigPub, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/bitcoincashTransaction/SignaturePubkey.go b/bitcoincashTransaction/SignaturePubkey.go
index 90c5520..e4eb147 100644
--- a/bitcoincashTransaction/SignaturePubkey.go
+++ b/bitcoincashTransaction/SignaturePubkey.go
@@ -193,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -316,7 +316,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/bitcoinsvTransaction/SignaturePubkey.go b/bitcoinsvTransaction/SignaturePubkey.go
index 0fc2292..2363b62 100644
--- a/bitcoinsvTransaction/SignaturePubkey.go
+++ b/bitcoinsvTransaction/SignaturePubkey.go
@@ -193,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -316,7 +316,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/btcLikeTxDriver/signaturepubkey.go b/btcLikeTxDriver/signaturepubkey.go
index 0fba88c..7f7ca50 100644
--- a/btcLikeTxDriver/signaturepubkey.go
+++ b/btcLikeTxDriver/signaturepubkey.go
@@ -159,7 +159,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 	if index+int(rLen) > limit {
 		return nil, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/btcTransaction/SignaturePubkey.go b/btcTransaction/SignaturePubkey.go
index 05174fd..6a53e1f 100644
--- a/btcTransaction/SignaturePubkey.go
+++ b/btcTransaction/SignaturePubkey.go
@@ -193,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -316,7 +316,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/cxcTransaction/SignaturePubkey.go b/cxcTransaction/SignaturePubkey.go
index 1fcb0ec..3f8232e 100644
--- a/cxcTransaction/SignaturePubkey.go
+++ b/cxcTransaction/SignaturePubkey.go
@@ -193,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -316,7 +316,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/hcTransaction/SignaturePubkey.go b/hcTransaction/SignaturePubkey.go
index 0990989..0a9cd47 100644
--- a/hcTransaction/SignaturePubkey.go
+++ b/hcTransaction/SignaturePubkey.go
@@ -194,7 +194,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -317,7 +317,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/omniTransaction/SignaturePubkey.go b/omniTransaction/SignaturePubkey.go
index 7bc043a..292d73e 100644
--- a/omniTransaction/SignaturePubkey.go
+++ b/omniTransaction/SignaturePubkey.go
@@ -193,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -316,7 +316,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/vergeTransaction/txSigPub.go b/vergeTransaction/txSigPub.go
index 0f7bf7a..ab3417b 100644
--- a/vergeTransaction/txSigPub.go
+++ b/vergeTransaction/txSigPub.go
@@ -137,7 +137,7 @@ func decodeFromScriptBytes(script []byte) (*SigPub, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/vollarTransaction/txSigPub.go b/vollarTransaction/txSigPub.go
index 01ed89b..9fd8260 100644
--- a/vollarTransaction/txSigPub.go
+++ b/vollarTransaction/txSigPub.go
@@ -137,7 +137,7 @@ func decodeFromScriptBytes(script []byte) (*SigPub, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/zencashTransaction/SignaturePubkey.go b/zencashTransaction/SignaturePubkey.go
index f61cc89..42b8b74 100644
--- a/zencashTransaction/SignaturePubkey.go
+++ b/zencashTransaction/SignaturePubkey.go
@@ -193,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -316,7 +316,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
-- 
2.43.0


From 367572f27ec0699268730612428c127cae694bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:40 +0000
Subject: [PATCH 11/42] fix: signing hashes of a bech32 lock script (bch, bsv)
 or a short or non-hex lock script (zencash) crashed instead of returning an
 error

---
 bitcoincashTransaction/txHash.go | 2 +-
 bitcoinsvTransaction/txHash.go   | 2 +-
 zencashTransaction/txHash.go     | 8 +++++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index e13ef84..a4a1bb1 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -72,7 +72,7 @@ func newTxHash(hash, lockscript, redeem []byte, inType, sigType byte, addressPre
 		}
 		return &TxHash{hex.EncodeToString(hash), nRequired, nil, multiTx}, nil
 	}
-	return nil, nil
+	return nil, errors.New("Unknown type of lockScript!")
 }
 
 func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, error) {
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 99da856..b5397c8 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -73,7 +73,7 @@ func newTxHash(hash, lockscript, redeem []byte, inType, sigType byte, addressPre
 		}
 		return &TxHash{hex.EncodeToString(hash), nRequired, nil, multiTx}, nil
 	}
-	return nil, nil
+	return nil, errors.New("Unknown type of lockScript!")
 }
 
 func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, error) {
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index cfa6039..54b4ec6 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -260,7 +260,13 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 		//if err != nil {
 		//	return nil, err
 		//}
-		lockBytes, _ := hex.DecodeString(unlockData[i].LockScript)
+		lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+		if err != nil {
+			return nil, errors.New("Invalid scriptPubkey data!")
+		}
+		if len(lockBytes) < 25 || lockBytes[0] != OpCodeDup || lockBytes[1] != OpCodeHash160 || lockBytes[2] != 0x14 {
+			return nil, errors.New("Unknown type of lockScript!")
+		}
 
 		sigBytes, err := t.getBytesForSig(lockBytes, nil, TypeP2PKH, unlockData[i].SigType, i, unlockData[i].Amount, SegwitON)
 		if err != nil {
-- 
2.43.0


From de4f74fdeadd75dc5feee2ab489b0cb8000316ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:55 +0000
Subject: [PATCH 12/42] fix: public derivation wrapped the depth past 255 and
 panicked on a public key that is not a curve point

---
 owkeychain/extendedkey.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index 2c9f8d7..a48a541 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -183,6 +183,9 @@ func getPubChildViaPubParent(il, pubkey []byte, typeChoose uint32) ([]byte, erro
 		return point, nil
 	}
 	parentPubPoint := owcrypt.PointDecompress(pubkey, typeChoose)
+	if len(parentPubPoint) == 0 {
+		return nil, ErrInvalidChild
+	}
 	point, isinfinity := owcrypt.Point_mulBaseG_add(parentPubPoint[1:], il, typeChoose)
 	if isinfinity {
 		return nil, ErrInvalidChild
@@ -252,6 +255,10 @@ func (k *ExtendedKey) GenPublicChild(serializes uint32) (*ExtendedKey, error) {
 		if serializes >= HardenedKeyStart { //不能从父公钥强化扩展
 			return nil, ErrDeriveHardFromPublic
 		}
+		//越过最大深度限制
+		if k.depth == maxUint8 {
+			return nil, ErrDeriveBeyondMaxDepth
+		}
 		i := getI(k.key, k.chainCode, serializes, typeChoose)
 		childKey, err := getPubChildViaPubParent(i[:32], k.key, typeChoose)
 		if err != nil {
-- 
2.43.0


From b31d2429586ff91308af757df3c8ad11622ea514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:43 +0000
Subject: [PATCH 13/42] fix: derivation path indices outside 32 bits (31 bits
 when hardened) wrapped around silently to another key

---
 owkeychain/hdkey.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/owkeychain/hdkey.go b/owkeychain/hdkey.go
index e6ab4d1..563a6ef 100644
--- a/owkeychain/hdkey.go
+++ b/owkeychain/hdkey.go
@@ -2,6 +2,7 @@ package owkeychain
 
 import (
 	"errors"
+	"math"
 	"strconv"
 	"strings"
 
@@ -44,13 +45,13 @@ func DerivedPrivateKeyWithPath(seed []byte, derivedPath string, curveType uint32
 		if strings.Index(elem, "'") == len(elem)-1 {
 			elem = elem[0 : len(elem)-1]
 			index, err := strconv.Atoi(elem)
-			if err != nil {
+			if err != nil || index < 0 || index >= int(HardenedKeyStart) {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index) + HardenedKeyStart
 		} else {
 			index, err := strconv.Atoi(elem)
-			if err != nil {
+			if err != nil || index < 0 || index > math.MaxUint32 {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index)
@@ -111,13 +112,13 @@ func (k *ExtendedKey) DerivedPublicKeyFromPath(derivedPath string) (*ExtendedKey
 		if strings.Index(elem, "'") == len(elem)-1 {
 			elem = elem[0 : len(elem)-1]
 			index, err := strconv.Atoi(elem)
-			if err != nil {
+			if err != nil || index < 0 || index >= int(HardenedKeyStart) {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index) + HardenedKeyStart
 		} else {
 			index, err := strconv.Atoi(elem)
-			if err != nil {
+			if err != nil || index < 0 || index > math.MaxUint32 {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index)
-- 
2.43.0


From 29dec9eb470695fae3c7e4a1c3d6c72f09572fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:58 +0000
Subject: [PATCH 14/42] fix: decoding a short extended key or base58check
 string panicked

---
 owkeychain/owencode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/owkeychain/owencode.go b/owkeychain/owencode.go
index cdab5af..40c7a1f 100644
--- a/owkeychain/owencode.go
+++ b/owkeychain/owencode.go
@@ -35,6 +35,9 @@ func Base58checkDecode(address string, fix []byte) ([]byte, error) {
 	if err != nil {
 		return nil, ErrInvalidAddress
 	}
+	if len(decodeBytes) < len(fix)+4 {
+		return nil, ErrInvalidAddress
+	}
 	for i := 0; i < len(fix); i++ {
 		if fix[i] != decodeBytes[i] {
 			return nil, ErrInvalidAddress
@@ -107,6 +110,9 @@ func OWDecode(data string) (*ExtendedKey, error) {
 			}
 		}
 	}
+	if len(decodeBytes) < 46 {
+		return nil, ErrInvalidAddress
+	}
 	curveType := bytesToUInt32(decodeBytes[:4])
 	depth := decodeBytes[4]
 	parentFP := decodeBytes[5:9]
-- 
2.43.0


From c9f838e7e8c4025f1235b4db23c1830a065a04b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:58 +0000
Subject: [PATCH 15/42] fix: short or malformed addresses crashed the address
 decoders and AddressCheck instead of being refused

---
 addressEncoder/addressCheck.go                | 6 ++++++
 addressEncoder/addressEncoder.go              | 8 +++++++-
 addressEncoder/base32PolyMod/base32PolyMod.go | 3 +++
 addressEncoder/bech32/bech32.go               | 3 +++
 addressEncoder/eip55/eip55.go                 | 2 +-
 5 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/addressEncoder/addressCheck.go b/addressEncoder/addressCheck.go
index e660d61..0a9097f 100644
--- a/addressEncoder/addressCheck.go
+++ b/addressEncoder/addressCheck.go
@@ -18,6 +18,12 @@ notice:
 */
 func AddressCheck(addr string, symbol string) (bool, error) {
 	var err error
+	if len(addr) < 12 {
+		switch symbol {
+		case "BTC", "ZEC", "LTC", "BCH", "XTZ", "HC", "ETH", "QTUM", "DCRD", "NAS", "TRX", "ICX", "VSYS":
+			return false, ErrorInvalidAddress
+		}
+	}
 	switch symbol {
 	case "BTC":
 		if addr[0] == '1' {
diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 8f279da..d73bb36 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -56,6 +56,9 @@ func verifyChecksum(data []byte, chkType string) bool {
 		return false
 	}
 	checksum := calcChecksum(data[:len(data)-4], chkType)
+	if len(checksum) < 4 {
+		return false
+	}
 	for i := 0; i < 4; i++ {
 		if checksum[i] != data[len(data)-4+i] {
 			return false
@@ -77,6 +80,9 @@ func catData(data1 []byte, data2 []byte) []byte {
 }
 
 func recoverData(data, prefix, suffix []byte) ([]byte, error) {
+	if len(data) < len(prefix)+len(suffix) {
+		return nil, ErrorInvalidAddress
+	}
 	for i := 0; i < len(prefix); i++ {
 		if data[i] != prefix[i] {
 			return nil, ErrorInvalidAddress
@@ -284,7 +290,7 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 		return ret, nil
 	}
 	if addresstype.EncodeType == "ICX" {
-		if address[0] != 'h' || address[1] != 'x' {
+		if len(address) < 2 || address[0] != 'h' || address[1] != 'x' {
 			return nil, ErrorInvalidAddress
 		} else {
 			if len(address)-2 != 40 {
diff --git a/addressEncoder/base32PolyMod/base32PolyMod.go b/addressEncoder/base32PolyMod/base32PolyMod.go
index ffa3e92..c7e8707 100644
--- a/addressEncoder/base32PolyMod/base32PolyMod.go
+++ b/addressEncoder/base32PolyMod/base32PolyMod.go
@@ -201,6 +201,9 @@ func Decode(address, alphabet string) ([]byte, error) {
 	prefixStr := strings.Split(address, ":")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 10 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/addressEncoder/bech32/bech32.go b/addressEncoder/bech32/bech32.go
index cb0bcd6..161079b 100644
--- a/addressEncoder/bech32/bech32.go
+++ b/addressEncoder/bech32/bech32.go
@@ -386,6 +386,9 @@ func Decode(address, alphabet string) ([]byte, error) {
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/addressEncoder/eip55/eip55.go b/addressEncoder/eip55/eip55.go
index 8727322..eed4331 100644
--- a/addressEncoder/eip55/eip55.go
+++ b/addressEncoder/eip55/eip55.go
@@ -92,7 +92,7 @@ func Eip55_decode(encode_addr string)([]byte,error){
 		return nil,ErrorInvalidAddress
 	}
 	*/
-	if encode_addr[0:2] == "0x" {
+	if len(encode_addr) >= 2 && encode_addr[0:2] == "0x" {
 		encode_addr = encode_addr[2:]
 	}
 	decode_addr,err :=hex.DecodeString(encode_addr)
-- 
2.43.0


From a56974df60b1f7d4b065d311d9bab843f66ee032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:23 +0000
Subject: [PATCH 16/42] fix: bech32 and cashaddr decoding accepted other
 networks' prefixes, missing separators and (cashaddr) unchecked checksums;
 bech32m returned no error for a foreign address

---
 addressEncoder/addressEncoder.go              | 4 ++++
 addressEncoder/base32PolyMod/base32PolyMod.go | 6 ++----
 addressEncoder/bech32/bech32.go               | 3 +++
 addressEncoder/bech32m/bech32m.go             | 5 ++++-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index d73bb36..8fd1190 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -260,6 +260,10 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 	}
 
 	if addresstype.EncodeType == "bech32" {
+		//only the human-readable part of this address type belongs to it
+		if !strings.HasPrefix(strings.ToLower(address), addresstype.ChecksumType+"1") {
+			return nil, ErrorInvalidAddress
+		}
 		ret, err := bech32.Decode(address, addresstype.Alphabet)
 		if err != nil {
 			return nil, ErrorInvalidAddress
diff --git a/addressEncoder/base32PolyMod/base32PolyMod.go b/addressEncoder/base32PolyMod/base32PolyMod.go
index c7e8707..f8cf69a 100644
--- a/addressEncoder/base32PolyMod/base32PolyMod.go
+++ b/addressEncoder/base32PolyMod/base32PolyMod.go
@@ -213,10 +213,8 @@ func Decode(address, alphabet string) ([]byte, error) {
 		value[i] = charRev[c]
 	}
 
-	if prefixStr == "bitcoincash" {
-		if !verifyChecksum(bitcoincashExpandPrefix, value) {
-			return nil, ErrorInvalidAddress
-		}
+	if strings.ToLower(prefixStr) != "bitcoincash" || !verifyChecksum(bitcoincashExpandPrefix, value) {
+		return nil, ErrorInvalidAddress
 	}
 
 	tmp := make([]int8, len(value)-8)
diff --git a/addressEncoder/bech32/bech32.go b/addressEncoder/bech32/bech32.go
index 161079b..b39146c 100644
--- a/addressEncoder/bech32/bech32.go
+++ b/addressEncoder/bech32/bech32.go
@@ -382,6 +382,9 @@ func Decode(address, alphabet string) ([]byte, error) {
 	if upper && lower {
 		return nil, ErrorInvalidAddress
 	}
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
 
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
diff --git a/addressEncoder/bech32m/bech32m.go b/addressEncoder/bech32m/bech32m.go
index e4d2d83..0d1c3fe 100644
--- a/addressEncoder/bech32m/bech32m.go
+++ b/addressEncoder/bech32m/bech32m.go
@@ -171,9 +171,12 @@ func Bech32mEncode(prefix string, data []byte, charset string) (string, error) {
 
 func Bech32mDecode(address, prefix string, charset string) ([]byte, error) {
 	prechk, data, spec, err := Decode(address, charset)
-	if err != nil || prechk != prefix || spec != Bech32m {
+	if err != nil {
 		return nil, err
 	}
+	if prechk != prefix || spec != Bech32m {
+		return nil, fmt.Errorf("Invalid address")
+	}
 
 	hash, err := Convertbits(data, 5, 8, false)
 	if err != nil {
-- 
2.43.0


From 16ab89a3501aad539302aa8bd95b7cc6a9c8f8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:36 +0000
Subject: [PATCH 17/42] fix: bech32 decoding of a 32-byte payload without
 version group returned shifted bytes

---
 addressEncoder/bech32/bech32.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/addressEncoder/bech32/bech32.go b/addressEncoder/bech32/bech32.go
index b39146c..0b6f857 100644
--- a/addressEncoder/bech32/bech32.go
+++ b/addressEncoder/bech32/bech32.go
@@ -408,6 +408,11 @@ func Decode(address, alphabet string) ([]byte, error) {
 	tmp := make([]int8, len(value)-6)
 	copy(tmp, value)
 
+	if len(tmp) == 52 {
+		//32-byte payload without a version group
+		tmp = append([]int8{0}, tmp...)
+	}
+
 	ret := unecxtendPayload(tmp)
 
 	bytePayload := make([]byte, len(ret))
-- 
2.43.0


From f8a70ba5616da9daff99cc2b7b1b0cf660499e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:31 +0000
Subject: [PATCH 18/42] fix: base58check and bech32 address decoding crashed on
 short addresses and accepted bech32 without a separator

---
 aliencoinTransaction/base58.go      | 3 +++
 bitcoincashTransaction/base58.go    | 3 +++
 bitcoinsvTransaction/base58.go      | 3 +++
 btcLikeTxDriver/base58.go           | 3 +++
 btcLikeTxDriver/bech32.go           | 6 ++++++
 btcTransaction/base58.go            | 3 +++
 btcTransaction/bech32.go            | 6 ++++++
 cosmosTransaction/bech32.go         | 6 ++++++
 cxcTransaction/base58.go            | 3 +++
 cxcTransaction/bech32.go            | 6 ++++++
 elastosTransaction/base58.go        | 3 +++
 evaioTransaction/bech32.go          | 6 ++++++
 fiiiTransaction/base58.go           | 3 +++
 hcTransaction/base58.go             | 3 +++
 hcTransaction/bech32.go             | 6 ++++++
 hypercashTransaction/base58.go      | 3 +++
 omniTransaction/base58.go           | 3 +++
 omniTransaction/bech32.go           | 6 ++++++
 ontologyTransaction/base58.go       | 3 +++
 vergeTransaction/base58.go          | 3 +++
 virtualeconomyTransaction/base58.go | 3 +++
 vollarTransaction/base58.go         | 3 +++
 waykichainTransaction/base58.go     | 3 +++
 zencashTransaction/base58.go        | 3 +++
 zencashTransaction/bech32.go        | 6 ++++++
 25 files changed, 99 insertions(+)

diff --git a/aliencoinTransaction/base58.go b/aliencoinTransaction/base58.go
index 53908d2..227ccfb 100644
--- a/aliencoinTransaction/base58.go
+++ b/aliencoinTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 5 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/bitcoincashTransaction/base58.go b/bitcoincashTransaction/base58.go
index d518067..144785c 100644
--- a/bitcoincashTransaction/base58.go
+++ b/bitcoincashTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/bitcoinsvTransaction/base58.go b/bitcoinsvTransaction/base58.go
index af85206..6cc881a 100644
--- a/bitcoinsvTransaction/base58.go
+++ b/bitcoinsvTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/btcLikeTxDriver/base58.go b/btcLikeTxDriver/base58.go
index a6a9b0d..8881a34 100644
--- a/btcLikeTxDriver/base58.go
+++ b/btcLikeTxDriver/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 5 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/btcLikeTxDriver/bech32.go b/btcLikeTxDriver/bech32.go
index 828b11c..c290bd9 100644
--- a/btcLikeTxDriver/bech32.go
+++ b/btcLikeTxDriver/bech32.go
@@ -187,10 +187,16 @@ func Bech32Decode(address string) ([]byte, error) {
 	if upper && lower {
 		return nil, ErrorInvalidAddress
 	}
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
 
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/btcTransaction/base58.go b/btcTransaction/base58.go
index 96f8fe2..3db9854 100644
--- a/btcTransaction/base58.go
+++ b/btcTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/btcTransaction/bech32.go b/btcTransaction/bech32.go
index 61bcae7..14819c3 100644
--- a/btcTransaction/bech32.go
+++ b/btcTransaction/bech32.go
@@ -188,10 +188,16 @@ func Bech32Decode(address string) ([]byte, error) {
 	if upper && lower {
 		return nil, ErrorInvalidAddress
 	}
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
 
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/cosmosTransaction/bech32.go b/cosmosTransaction/bech32.go
index 91d2afd..8f18b43 100644
--- a/cosmosTransaction/bech32.go
+++ b/cosmosTransaction/bech32.go
@@ -188,10 +188,16 @@ func Bech32Decode(address string) ([]byte, error) {
 	if upper && lower {
 		return nil, ErrorInvalidAddress
 	}
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
 
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/cxcTransaction/base58.go b/cxcTransaction/base58.go
index ccd7ea2..cfd9988 100644
--- a/cxcTransaction/base58.go
+++ b/cxcTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/cxcTransaction/bech32.go b/cxcTransaction/bech32.go
index 530a591..5e56ef8 100644
--- a/cxcTransaction/bech32.go
+++ b/cxcTransaction/bech32.go
@@ -188,10 +188,16 @@ func Bech32Decode(address string) ([]byte, error) {
 	if upper && lower {
 		return nil, ErrorInvalidAddress
 	}
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
 
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/elastosTransaction/base58.go b/elastosTransaction/base58.go
index 04054e6..8c6be00 100644
--- a/elastosTransaction/base58.go
+++ b/elastosTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/evaioTransaction/bech32.go b/evaioTransaction/bech32.go
index f594278..9e63201 100644
--- a/evaioTransaction/bech32.go
+++ b/evaioTransaction/bech32.go
@@ -188,10 +188,16 @@ func Bech32Decode(address string) ([]byte, error) {
 	if upper && lower {
 		return nil, ErrorInvalidAddress
 	}
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
 
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/fiiiTransaction/base58.go b/fiiiTransaction/base58.go
index 2226867..e351c84 100644
--- a/fiiiTransaction/base58.go
+++ b/fiiiTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string, prefix []byte) ([]byte, error) {
 	if err != nil {
 		return nil, errors.New("Invalid address!")
 	}
+	if len(ret) < len(prefix)+4 {
+		return nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/hcTransaction/base58.go b/hcTransaction/base58.go
index 772572c..c10a2b9 100644
--- a/hcTransaction/base58.go
+++ b/hcTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/hcTransaction/bech32.go b/hcTransaction/bech32.go
index b6cb6e8..1a9a8a7 100644
--- a/hcTransaction/bech32.go
+++ b/hcTransaction/bech32.go
@@ -188,10 +188,16 @@ func Bech32Decode(address string) ([]byte, error) {
 	if upper && lower {
 		return nil, ErrorInvalidAddress
 	}
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
 
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/hypercashTransaction/base58.go b/hypercashTransaction/base58.go
index 020220b..57dd70c 100644
--- a/hypercashTransaction/base58.go
+++ b/hypercashTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_BLAKE256), 0, owcrypt.HASH_ALG_BLAKE256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/omniTransaction/base58.go b/omniTransaction/base58.go
index b080ce9..bc61f98 100644
--- a/omniTransaction/base58.go
+++ b/omniTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/omniTransaction/bech32.go b/omniTransaction/bech32.go
index 640b491..d764619 100644
--- a/omniTransaction/bech32.go
+++ b/omniTransaction/bech32.go
@@ -188,10 +188,16 @@ func Bech32Decode(address string) ([]byte, error) {
 	if upper && lower {
 		return nil, ErrorInvalidAddress
 	}
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
 
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/ontologyTransaction/base58.go b/ontologyTransaction/base58.go
index 3f28e8c..2cf7f8f 100644
--- a/ontologyTransaction/base58.go
+++ b/ontologyTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 5 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/vergeTransaction/base58.go b/vergeTransaction/base58.go
index 7b1da8a..d2fb594 100644
--- a/vergeTransaction/base58.go
+++ b/vergeTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 5 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/virtualeconomyTransaction/base58.go b/virtualeconomyTransaction/base58.go
index 999f35b..8a7484f 100644
--- a/virtualeconomyTransaction/base58.go
+++ b/virtualeconomyTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, error) {
 	if err != nil {
 		return nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4 {
+		return nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(owcrypt.Hash(ret[:len(ret)-4], 32, owcrypt.HASH_ALG_BLAKE2B), 0, owcrypt.HASH_ALG_KECCAK256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/vollarTransaction/base58.go b/vollarTransaction/base58.go
index 786201c..4280825 100644
--- a/vollarTransaction/base58.go
+++ b/vollarTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/waykichainTransaction/base58.go b/waykichainTransaction/base58.go
index 80d3f60..0ebabf0 100644
--- a/waykichainTransaction/base58.go
+++ b/waykichainTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/zencashTransaction/base58.go b/zencashTransaction/base58.go
index 25b462c..c22792a 100644
--- a/zencashTransaction/base58.go
+++ b/zencashTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/zencashTransaction/bech32.go b/zencashTransaction/bech32.go
index c11aebd..0134e3d 100644
--- a/zencashTransaction/bech32.go
+++ b/zencashTransaction/bech32.go
@@ -188,10 +188,16 @@ func Bech32Decode(address string) ([]byte, error) {
 	if upper && lower {
 		return nil, ErrorInvalidAddress
 	}
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
 
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
-- 
2.43.0


From 319f7139e86f3d4c032a2041f61c5fbcb8a29923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:35 +0000
Subject: [PATCH 19/42] fix: decode EOS and AE addresses only when the payload
 has the type's length

---
 addressEncoder/aeternity.go | 3 +++
 addressEncoder/eos.go       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/addressEncoder/aeternity.go b/addressEncoder/aeternity.go
index 3149d57..afbad08 100644
--- a/addressEncoder/aeternity.go
+++ b/addressEncoder/aeternity.go
@@ -22,6 +22,9 @@ func decodeAE(pubKey string, addresstype AddressType) ([]byte, error) {
 	if verifyChecksum(ret, addresstype.ChecksumType) == false {
 		return nil, ErrorInvalidAddress
 	}
+	if len(ret)-4 != addresstype.HashLen {
+		return nil, ErrorInvalidHashLength
+	}
 
 	return ret[:len(ret)-4], nil
 }
diff --git a/addressEncoder/eos.go b/addressEncoder/eos.go
index 8214fb7..7a40963 100644
--- a/addressEncoder/eos.go
+++ b/addressEncoder/eos.go
@@ -32,6 +32,9 @@ func decodeEOS(pubKey string, addresstype AddressType) ([]byte, error) {
 	if verifyChecksum(ret, addresstype.ChecksumType) == false {
 		return nil, ErrorInvalidAddress
 	}
+	if len(ret)-4 != addresstype.HashLen {
+		return nil, ErrorInvalidHashLength
+	}
 
 	return ret[:len(ret)-4], nil
 }
-- 
2.43.0


From e1eaaea0112de099b5841237c6fc4f0d34b503f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:45 +0000
Subject: [PATCH 20/42] fix: pay bech32 addresses once instead of refusing them
 in the cxc, hc, omni and zencash drivers

---
 cxcTransaction/txAsset.go   | 2 ++
 cxcTransaction/txOut.go     | 2 ++
 hcTransaction/txOut.go      | 2 ++
 omniTransaction/txOut.go    | 2 ++
 zencashTransaction/txOut.go | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/cxcTransaction/txAsset.go b/cxcTransaction/txAsset.go
index 43b6f06..e4e87ed 100644
--- a/cxcTransaction/txAsset.go
+++ b/cxcTransaction/txAsset.go
@@ -46,6 +46,8 @@ func getTransferAssetWithPayload(tos []AssetTransfer, addressPrefix AddressPrefi
 			redeem = append(redeem, payload...)
 			redeem = append(redeem, OpDrop)
 			ret = append(ret, TxOut{uint64ToLittleEndianBytes(0), redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(to.Address)
diff --git a/cxcTransaction/txOut.go b/cxcTransaction/txOut.go
index 03088fa..1dbe1e4 100644
--- a/cxcTransaction/txOut.go
+++ b/cxcTransaction/txOut.go
@@ -35,6 +35,8 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/hcTransaction/txOut.go b/hcTransaction/txOut.go
index 36c4f52..434d327 100644
--- a/hcTransaction/txOut.go
+++ b/hcTransaction/txOut.go
@@ -35,6 +35,8 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/omniTransaction/txOut.go b/omniTransaction/txOut.go
index 5539515..9c0bccf 100644
--- a/omniTransaction/txOut.go
+++ b/omniTransaction/txOut.go
@@ -35,6 +35,8 @@ func newTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix Add
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index 73ea817..454cdc5 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -52,6 +52,8 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount: amount, lockScript: redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
-- 
2.43.0


From ec81d0d5cb551cf88a79c15fbf3d54a2e404443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:04 +0000
Subject: [PATCH 21/42] fix: do not treat every address as bech32 on networks
 without a bech32 prefix

---
 btcTransaction/txOut.go     | 2 +-
 cxcTransaction/txAsset.go   | 2 +-
 cxcTransaction/txOut.go     | 2 +-
 hcTransaction/txOut.go      | 2 +-
 omniTransaction/txOut.go    | 2 +-
 zencashTransaction/txOut.go | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/btcTransaction/txOut.go b/btcTransaction/txOut.go
index ff18646..b24ba92 100644
--- a/btcTransaction/txOut.go
+++ b/btcTransaction/txOut.go
@@ -27,7 +27,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.Index(v.Address, prefixStr) == 0 {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
diff --git a/cxcTransaction/txAsset.go b/cxcTransaction/txAsset.go
index e4e87ed..c31c574 100644
--- a/cxcTransaction/txAsset.go
+++ b/cxcTransaction/txAsset.go
@@ -30,7 +30,7 @@ func getTransferAssetWithPayload(tos []AssetTransfer, addressPrefix AddressPrefi
 
 	ret := make([]TxOut, 0)
 	for _, to := range tos {
-		if strings.Index(to.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.Index(to.Address, prefixStr) == 0 {
 			redeem, err := Bech32Decode(to.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
diff --git a/cxcTransaction/txOut.go b/cxcTransaction/txOut.go
index 1dbe1e4..5ed1d6f 100644
--- a/cxcTransaction/txOut.go
+++ b/cxcTransaction/txOut.go
@@ -25,7 +25,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.Index(v.Address, prefixStr) == 0 {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
diff --git a/hcTransaction/txOut.go b/hcTransaction/txOut.go
index 434d327..cfb629e 100644
--- a/hcTransaction/txOut.go
+++ b/hcTransaction/txOut.go
@@ -25,7 +25,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.Index(v.Address, prefixStr) == 0 {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
diff --git a/omniTransaction/txOut.go b/omniTransaction/txOut.go
index 9c0bccf..11912b7 100644
--- a/omniTransaction/txOut.go
+++ b/omniTransaction/txOut.go
@@ -25,7 +25,7 @@ func newTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix Add
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.Index(v.Address, prefixStr) == 0 {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index 454cdc5..b622894 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -42,7 +42,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.Index(v.Address, prefixStr) == 0 {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
-- 
2.43.0


From 06ecb12a35b02678b96fc277fdf890deb7dfcd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:04 +0000
Subject: [PATCH 22/42] fix: refuse counts and output scripts that do not fit
 their one length byte

---
 bitcoincashTransaction/txOut.go    |  2 +-
 bitcoincashTransaction/txStruct.go | 11 ++++++++---
 bitcoinsvTransaction/txOut.go      |  2 +-
 bitcoinsvTransaction/txStruct.go   | 11 ++++++++---
 btcTransaction/txOut.go            |  2 +-
 btcTransaction/txStruct.go         | 11 ++++++++---
 cxcTransaction/txOut.go            |  2 +-
 cxcTransaction/txStruct.go         | 11 ++++++++---
 hcTransaction/txOut.go             |  2 +-
 hcTransaction/txStruct.go          | 11 ++++++++---
 omniTransaction/txOut.go           |  2 +-
 omniTransaction/txStruct.go        | 11 ++++++++---
 zencashTransaction/txOut.go        |  2 +-
 zencashTransaction/txStruct.go     | 11 ++++++++---
 14 files changed, 63 insertions(+), 28 deletions(-)

diff --git a/bitcoincashTransaction/txOut.go b/bitcoincashTransaction/txOut.go
index c9af95c..ebdac25 100644
--- a/bitcoincashTransaction/txOut.go
+++ b/bitcoincashTransaction/txOut.go
@@ -95,7 +95,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 	if out.amount == nil || len(out.amount) != 8 {
 		return nil, errors.New("Invalid amount for a transaction output!")
 	}
-	if out.lockScript == nil || len(out.lockScript) == 0 {
+	if out.lockScript == nil || len(out.lockScript) == 0 || len(out.lockScript) > 0xFC {
 		return nil, errors.New("Invalid lock script for a transaction output!")
 	}
 
diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index 7bebfa9..1b1ab6b 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -63,6 +63,11 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("No output found in the transaction struct!")
 	}
 
+	//the counts are written as one byte
+	if len(t.Vins) > 0xFC || len(t.Vouts) > 0xFC {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	if t.Version == nil || len(t.Version) != 4 {
 		return nil, errors.New("Invalid transaction version data!")
 	}
@@ -148,7 +153,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 	numOfVins := txBytes[index]
 	index++
-	if numOfVins == 0 {
+	if numOfVins == 0 || numOfVins > 0xFC {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -248,7 +253,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 
 	numOfVouts := txBytes[index]
 	index++
-	if numOfVouts == 0 {
+	if numOfVouts == 0 || numOfVouts > 0xFC {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -267,7 +272,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		lockScriptLen := txBytes[index]
 		index++
 
-		if lockScriptLen == 0 {
+		if lockScriptLen == 0 || lockScriptLen > 0xFC {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
diff --git a/bitcoinsvTransaction/txOut.go b/bitcoinsvTransaction/txOut.go
index 19501db..75fab75 100644
--- a/bitcoinsvTransaction/txOut.go
+++ b/bitcoinsvTransaction/txOut.go
@@ -95,7 +95,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 	if out.amount == nil || len(out.amount) != 8 {
 		return nil, errors.New("Invalid amount for a transaction output!")
 	}
-	if out.lockScript == nil || len(out.lockScript) == 0 {
+	if out.lockScript == nil || len(out.lockScript) == 0 || len(out.lockScript) > 0xFC {
 		return nil, errors.New("Invalid lock script for a transaction output!")
 	}
 
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index b207d7c..c0efbf7 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -63,6 +63,11 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("No output found in the transaction struct!")
 	}
 
+	//the counts are written as one byte
+	if len(t.Vins) > 0xFC || len(t.Vouts) > 0xFC {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	if t.Version == nil || len(t.Version) != 4 {
 		return nil, errors.New("Invalid transaction version data!")
 	}
@@ -148,7 +153,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 	numOfVins := txBytes[index]
 	index++
-	if numOfVins == 0 {
+	if numOfVins == 0 || numOfVins > 0xFC {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -248,7 +253,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 
 	numOfVouts := txBytes[index]
 	index++
-	if numOfVouts == 0 {
+	if numOfVouts == 0 || numOfVouts > 0xFC {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -267,7 +272,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		lockScriptLen := txBytes[index]
 		index++
 
-		if lockScriptLen == 0 {
+		if lockScriptLen == 0 || lockScriptLen > 0xFC {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
diff --git a/btcTransaction/txOut.go b/btcTransaction/txOut.go
index b24ba92..e31fa2d 100644
--- a/btcTransaction/txOut.go
+++ b/btcTransaction/txOut.go
@@ -70,7 +70,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 	if out.amount == nil || len(out.amount) != 8 {
 		return nil, errors.New("Invalid amount for a transaction output!")
 	}
-	if out.lockScript == nil || len(out.lockScript) == 0 {
+	if out.lockScript == nil || len(out.lockScript) == 0 || len(out.lockScript) > 0xFC {
 		return nil, errors.New("Invalid lock script for a transaction output!")
 	}
 
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index f5a48d0..34c20a0 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -42,6 +42,11 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("No output found in the transaction struct!")
 	}
 
+	//the counts are written as one byte
+	if len(t.Vins) > 0xFC || len(t.Vouts) > 0xFC {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	if t.Version == nil || len(t.Version) != 4 {
 		return nil, errors.New("Invalid transaction version data!")
 	}
@@ -127,7 +132,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 	numOfVins := txBytes[index]
 	index++
-	if numOfVins == 0 {
+	if numOfVins == 0 || numOfVins > 0xFC {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -227,7 +232,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 
 	numOfVouts := txBytes[index]
 	index++
-	if numOfVouts == 0 {
+	if numOfVouts == 0 || numOfVouts > 0xFC {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -246,7 +251,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		lockScriptLen := txBytes[index]
 		index++
 
-		if lockScriptLen == 0 {
+		if lockScriptLen == 0 || lockScriptLen > 0xFC {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
diff --git a/cxcTransaction/txOut.go b/cxcTransaction/txOut.go
index 5ed1d6f..d590626 100644
--- a/cxcTransaction/txOut.go
+++ b/cxcTransaction/txOut.go
@@ -68,7 +68,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 	if out.amount == nil || len(out.amount) != 8 {
 		return nil, errors.New("Invalid amount for a transaction output!")
 	}
-	if out.lockScript == nil || len(out.lockScript) == 0 {
+	if out.lockScript == nil || len(out.lockScript) == 0 || len(out.lockScript) > 0xFC {
 		return nil, errors.New("Invalid lock script for a transaction output!")
 	}
 
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index 6b28e55..a38b7d0 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -73,6 +73,11 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("No output found in the transaction struct!")
 	}
 
+	//the counts are written as one byte
+	if len(t.Vins) > 0xFC || len(t.Vouts) > 0xFC {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	if t.Version == nil || len(t.Version) != 4 {
 		return nil, errors.New("Invalid transaction version data!")
 	}
@@ -158,7 +163,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 	numOfVins := txBytes[index]
 	index++
-	if numOfVins == 0 {
+	if numOfVins == 0 || numOfVins > 0xFC {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -258,7 +263,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 
 	numOfVouts := txBytes[index]
 	index++
-	if numOfVouts == 0 {
+	if numOfVouts == 0 || numOfVouts > 0xFC {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -277,7 +282,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		lockScriptLen := txBytes[index]
 		index++
 
-		if lockScriptLen == 0 {
+		if lockScriptLen == 0 || lockScriptLen > 0xFC {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
diff --git a/hcTransaction/txOut.go b/hcTransaction/txOut.go
index cfb629e..3c12803 100644
--- a/hcTransaction/txOut.go
+++ b/hcTransaction/txOut.go
@@ -68,7 +68,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 	if out.amount == nil || len(out.amount) != 8 {
 		return nil, errors.New("Invalid amount for a transaction output!")
 	}
-	if out.lockScript == nil || len(out.lockScript) == 0 {
+	if out.lockScript == nil || len(out.lockScript) == 0 || len(out.lockScript) > 0xFC {
 		return nil, errors.New("Invalid lock script for a transaction output!")
 	}
 
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index f844c4f..a161728 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -42,6 +42,11 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("No output found in the transaction struct!")
 	}
 
+	//the counts are written as one byte
+	if len(t.Vins) > 0xFC || len(t.Vouts) > 0xFC {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	if t.Version == nil || len(t.Version) != 4 {
 		return nil, errors.New("Invalid transaction version data!")
 	}
@@ -127,7 +132,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 	numOfVins := txBytes[index]
 	index++
-	if numOfVins == 0 {
+	if numOfVins == 0 || numOfVins > 0xFC {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -227,7 +232,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 
 	numOfVouts := txBytes[index]
 	index++
-	if numOfVouts == 0 {
+	if numOfVouts == 0 || numOfVouts > 0xFC {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -246,7 +251,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		lockScriptLen := txBytes[index]
 		index++
 
-		if lockScriptLen == 0 {
+		if lockScriptLen == 0 || lockScriptLen > 0xFC {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
diff --git a/omniTransaction/txOut.go b/omniTransaction/txOut.go
index 11912b7..2d65b05 100644
--- a/omniTransaction/txOut.go
+++ b/omniTransaction/txOut.go
@@ -71,7 +71,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 	if out.amount == nil || len(out.amount) != 8 {
 		return nil, errors.New("Invalid amount for a transaction output!")
 	}
-	if out.lockScript == nil || len(out.lockScript) == 0 {
+	if out.lockScript == nil || len(out.lockScript) == 0 || len(out.lockScript) > 0xFC {
 		return nil, errors.New("Invalid lock script for a transaction output!")
 	}
 
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index 0babf94..ff0db6c 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -42,6 +42,11 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("No output found in the transaction struct!")
 	}
 
+	//the counts are written as one byte
+	if len(t.Vins) > 0xFC || len(t.Vouts) > 0xFC {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	if t.Version == nil || len(t.Version) != 4 {
 		return nil, errors.New("Invalid transaction version data!")
 	}
@@ -127,7 +132,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 	numOfVins := txBytes[index]
 	index++
-	if numOfVins == 0 {
+	if numOfVins == 0 || numOfVins > 0xFC {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -227,7 +232,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 
 	numOfVouts := txBytes[index]
 	index++
-	if numOfVouts == 0 {
+	if numOfVouts == 0 || numOfVouts > 0xFC {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -246,7 +251,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		lockScriptLen := txBytes[index]
 		index++
 
-		if lockScriptLen == 0 {
+		if lockScriptLen == 0 || lockScriptLen > 0xFC {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index b622894..71669b6 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -95,7 +95,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 	if out.amount == nil || len(out.amount) != 8 {
 		return nil, errors.New("Invalid amount for a transaction output!")
 	}
-	if out.lockScript == nil || len(out.lockScript) == 0 {
+	if out.lockScript == nil || len(out.lockScript) == 0 || len(out.lockScript) > 0xFC {
 		return nil, errors.New("Invalid lock script for a transaction output!")
 	}
 
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index f974c44..e3992c6 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -42,6 +42,11 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("No output found in the transaction struct!")
 	}
 
+	//the counts are written as one byte
+	if len(t.Vins) > 0xFC || len(t.Vouts) > 0xFC {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	if t.Version == nil || len(t.Version) != 4 {
 		return nil, errors.New("Invalid transaction version data!")
 	}
@@ -127,7 +132,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 	numOfVins := txBytes[index]
 	index++
-	if numOfVins == 0 {
+	if numOfVins == 0 || numOfVins > 0xFC {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -227,7 +232,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 
 	numOfVouts := txBytes[index]
 	index++
-	if numOfVouts == 0 {
+	if numOfVouts == 0 || numOfVouts > 0xFC {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -246,7 +251,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		lockScriptLen := txBytes[index]
 		index++
 
-		if lockScriptLen == 0 {
+		if lockScriptLen == 0 || lockScriptLen > 0xFC {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-- 
2.43.0


From f6ce682dc736110698f23c3af1ab4dfdadb74121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:04 +0000
Subject: [PATCH 23/42] fix: write the full length of redeem scripts above 252
 bytes in the messages to sign

---
 bitcoincashTransaction/txHash.go  | 2 +-
 bitcoincashTransaction/txIn.go    | 2 +-
 bitcoincashTransaction/txUtils.go | 8 ++++++++
 bitcoinsvTransaction/txHash.go    | 2 +-
 bitcoinsvTransaction/txIn.go      | 2 +-
 bitcoinsvTransaction/txUtils.go   | 8 ++++++++
 btcTransaction/txHash.go          | 2 +-
 btcTransaction/txIn.go            | 2 +-
 btcTransaction/txUtils.go         | 8 ++++++++
 cxcTransaction/txHash.go          | 2 +-
 cxcTransaction/txIn.go            | 2 +-
 cxcTransaction/txUtils.go         | 8 ++++++++
 hcTransaction/txHash.go           | 2 +-
 hcTransaction/txIn.go             | 2 +-
 hcTransaction/txUtils.go          | 8 ++++++++
 omniTransaction/txHash.go         | 2 +-
 omniTransaction/txIn.go           | 2 +-
 omniTransaction/txUtils.go        | 8 ++++++++
 zencashTransaction/txHash.go      | 2 +-
 zencashTransaction/txIn.go        | 2 +-
 zencashTransaction/txUtils.go     | 8 ++++++++
 21 files changed, 70 insertions(+), 14 deletions(-)

diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index a4a1bb1..08e1f8f 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -162,7 +162,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLength(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/bitcoincashTransaction/txIn.go b/bitcoincashTransaction/txIn.go
index eff3b46..aadebfa 100644
--- a/bitcoincashTransaction/txIn.go
+++ b/bitcoincashTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLength(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/bitcoincashTransaction/txUtils.go b/bitcoincashTransaction/txUtils.go
index bd720a6..331d98b 100644
--- a/bitcoincashTransaction/txUtils.go
+++ b/bitcoincashTransaction/txUtils.go
@@ -122,3 +122,11 @@ func uint64ToBigEndianBytes(data uint64) []byte {
 func bigEndianBytesToUint64(data []byte) uint64 {
 	return binary.BigEndian.Uint64(data)
 }
+
+// scriptLength is the variable length prefix of a script
+func scriptLength(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index b5397c8..755e659 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -163,7 +163,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLength(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/bitcoinsvTransaction/txIn.go b/bitcoinsvTransaction/txIn.go
index 80b7a5b..a25f150 100644
--- a/bitcoinsvTransaction/txIn.go
+++ b/bitcoinsvTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLength(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/bitcoinsvTransaction/txUtils.go b/bitcoinsvTransaction/txUtils.go
index e5af84f..bc7c7d5 100644
--- a/bitcoinsvTransaction/txUtils.go
+++ b/bitcoinsvTransaction/txUtils.go
@@ -122,3 +122,11 @@ func uint64ToBigEndianBytes(data uint64) []byte {
 func bigEndianBytesToUint64(data []byte) uint64 {
 	return binary.BigEndian.Uint64(data)
 }
+
+// scriptLength is the variable length prefix of a script
+func scriptLength(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index edc1edc..28670aa 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -166,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLength(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/btcTransaction/txIn.go b/btcTransaction/txIn.go
index ded31f8..2a16761 100644
--- a/btcTransaction/txIn.go
+++ b/btcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLength(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/btcTransaction/txUtils.go b/btcTransaction/txUtils.go
index 141260c..aa8dcb3 100644
--- a/btcTransaction/txUtils.go
+++ b/btcTransaction/txUtils.go
@@ -78,3 +78,11 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+// scriptLength is the variable length prefix of a script
+func scriptLength(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index d61ed0b..8c5c5c6 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -165,7 +165,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLength(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/cxcTransaction/txIn.go b/cxcTransaction/txIn.go
index da2bdb4..6c1c8ac 100644
--- a/cxcTransaction/txIn.go
+++ b/cxcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLength(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/cxcTransaction/txUtils.go b/cxcTransaction/txUtils.go
index 1d2b04b..2cf3e8b 100644
--- a/cxcTransaction/txUtils.go
+++ b/cxcTransaction/txUtils.go
@@ -78,3 +78,11 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+// scriptLength is the variable length prefix of a script
+func scriptLength(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index 2a046ee..fea3678 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -166,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLength(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/hcTransaction/txIn.go b/hcTransaction/txIn.go
index 7dba474..5e5fd9f 100644
--- a/hcTransaction/txIn.go
+++ b/hcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLength(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/hcTransaction/txUtils.go b/hcTransaction/txUtils.go
index ea4dc67..776e766 100644
--- a/hcTransaction/txUtils.go
+++ b/hcTransaction/txUtils.go
@@ -78,3 +78,11 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+// scriptLength is the variable length prefix of a script
+func scriptLength(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index d482fb6..8595c0d 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -165,7 +165,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLength(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/omniTransaction/txIn.go b/omniTransaction/txIn.go
index 3354027..6d0ae94 100644
--- a/omniTransaction/txIn.go
+++ b/omniTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLength(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/omniTransaction/txUtils.go b/omniTransaction/txUtils.go
index 0b571a3..bf14c40 100644
--- a/omniTransaction/txUtils.go
+++ b/omniTransaction/txUtils.go
@@ -108,3 +108,11 @@ func uint64ToBigEndianBytes(data uint64) []byte {
 func bigEndianBytesToUint64(data []byte) uint64 {
 	return binary.BigEndian.Uint64(data)
 }
+
+// scriptLength is the variable length prefix of a script
+func scriptLength(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index 54b4ec6..8f57866 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -166,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLength(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/zencashTransaction/txIn.go b/zencashTransaction/txIn.go
index 6805de4..db7f9e5 100644
--- a/zencashTransaction/txIn.go
+++ b/zencashTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLength(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/zencashTransaction/txUtils.go b/zencashTransaction/txUtils.go
index cfbdb71..0234c19 100644
--- a/zencashTransaction/txUtils.go
+++ b/zencashTransaction/txUtils.go
@@ -78,3 +78,11 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+// scriptLength is the variable length prefix of a script
+func scriptLength(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
-- 
2.43.0


From 88f01cb1736d2d26c50f1c5813aceece4e297d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:04 +0000
Subject: [PATCH 24/42] fix: push long Omni payloads with their full length and
 refuse freezes of invalid addresses

---
 bitcoincashTransaction/txOmni.go | 13 ++++++++++++-
 bitcoinsvTransaction/txOmni.go   | 13 ++++++++++++-
 omniTransaction/txOmni.go        | 13 ++++++++++++-
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/bitcoincashTransaction/txOmni.go b/bitcoincashTransaction/txOmni.go
index 53192ee..27429ce 100644
--- a/bitcoincashTransaction/txOmni.go
+++ b/bitcoincashTransaction/txOmni.go
@@ -52,8 +52,19 @@ func (os OmniStruct) getPayload() []byte {
 		return nil
 	}
 
+	if payload == nil {
+		return nil
+	}
+
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	if len(payload) < int(OpPushData1) {
+		payload = append([]byte{byte(len(payload))}, payload...)
+	} else if len(payload) <= 0xFF {
+		payload = append([]byte{OpPushData1, byte(len(payload))}, payload...)
+	} else {
+		return nil
+	}
+	payload = append([]byte{OpReturn}, payload...)
 	return payload
 }
 
diff --git a/bitcoinsvTransaction/txOmni.go b/bitcoinsvTransaction/txOmni.go
index 8e70e79..53a974f 100644
--- a/bitcoinsvTransaction/txOmni.go
+++ b/bitcoinsvTransaction/txOmni.go
@@ -52,8 +52,19 @@ func (os OmniStruct) getPayload() []byte {
 		return nil
 	}
 
+	if payload == nil {
+		return nil
+	}
+
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	if len(payload) < int(OpPushData1) {
+		payload = append([]byte{byte(len(payload))}, payload...)
+	} else if len(payload) <= 0xFF {
+		payload = append([]byte{OpPushData1, byte(len(payload))}, payload...)
+	} else {
+		return nil
+	}
+	payload = append([]byte{OpReturn}, payload...)
 	return payload
 }
 
diff --git a/omniTransaction/txOmni.go b/omniTransaction/txOmni.go
index 04b331d..0ac6e3d 100644
--- a/omniTransaction/txOmni.go
+++ b/omniTransaction/txOmni.go
@@ -52,7 +52,18 @@ func (os OmniStruct) getPayload() []byte {
 		return nil
 	}
 
+	if payload == nil {
+		return nil
+	}
+
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	if len(payload) < int(OpPushData1) {
+		payload = append([]byte{byte(len(payload))}, payload...)
+	} else if len(payload) <= 0xFF {
+		payload = append([]byte{OpPushData1, byte(len(payload))}, payload...)
+	} else {
+		return nil
+	}
+	payload = append([]byte{OpReturn}, payload...)
 	return payload
 }
-- 
2.43.0


From 8ebe4af9e1d452bc4051432f2c3457429599c918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:29 +0000
Subject: [PATCH 25/42] fix: check the block hash of zencash outputs and keep
 their block height positive

---
 zencashTransaction/txOut.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index 71669b6..229b081 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -24,7 +24,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 	p2wpkhPrefixByte = addressPrefix.P2WPKHPrefix
 
 	blockHashBytes, err := reverseHexToBytes(blockHash)
-	if err != nil {
+	if err != nil || len(blockHashBytes) != 0x20 {
 		return nil, errors.New("Invalid block hash!")
 	}
 	tmp := make([]byte, 8)
@@ -38,6 +38,10 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 		}
 	}
 	blockHeightBytes := reverseBytes(tmp[zerocount:])
+	if len(blockHeightBytes) > 0 && blockHeightBytes[len(blockHeightBytes)-1]&0x80 != 0 {
+		// script numbers are signed
+		blockHeightBytes = append(blockHeightBytes, 0x00)
+	}
 
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
-- 
2.43.0


From fe23cdd0ed55a6f1d2c4125aaae17e18da28ef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:30 +0000
Subject: [PATCH 26/42] fix: give multisig addresses the script-hash prefix and
 compare the required signatures with the real number of keys

---
 bitcoincashTransaction/txMultiSig.go | 4 ++--
 bitcoinsvTransaction/txMultiSig.go   | 4 ++--
 btcTransaction/txMultiSig.go         | 4 ++--
 cxcTransaction/txMultiSig.go         | 4 ++--
 hcTransaction/txMultiSig.go          | 4 ++--
 omniTransaction/txMultiSig.go        | 4 ++--
 zencashTransaction/txMultiSig.go     | 4 ++--
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index 2366eaf..929e57e 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index e451653..8541d1e 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index 4619083..2442760 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index 1590175..7626bce 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index c0f77c4..fb9c7ff 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index aab2241..e828924 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, addressPrefix AddressPrefix
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
@@ -55,7 +55,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, addressPrefix AddressPrefix
 	} else {
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index 9398d23..8d1c4ec 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
-- 
2.43.0


From 867539c2075bef7bc2e4a7869f8363a02db8df8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:30 +0000
Subject: [PATCH 27/42] fix: refuse to insert signatures that are missing or of
 another type than the input

---
 bitcoincashTransaction/transaction.go | 7 +++++++
 bitcoincashTransaction/txHash.go      | 3 +++
 bitcoinsvTransaction/transaction.go   | 7 +++++++
 bitcoinsvTransaction/txHash.go        | 3 +++
 btcTransaction/transaction.go         | 7 +++++++
 btcTransaction/txHash.go              | 3 +++
 cxcTransaction/transaction.go         | 7 +++++++
 cxcTransaction/txHash.go              | 3 +++
 hcTransaction/transaction.go          | 7 +++++++
 hcTransaction/txHash.go               | 3 +++
 omniTransaction/transaction.go        | 7 +++++++
 omniTransaction/txHash.go             | 3 +++
 zencashTransaction/transaction.go     | 4 ++++
 zencashTransaction/txHash.go          | 3 +++
 14 files changed, 67 insertions(+)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index ee74a0f..d420f6b 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -109,6 +109,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signatures are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
 		return "", err
@@ -123,6 +127,9 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		if err != nil {
 			return "", err
 		}
+		if txHashes[i].IsMultisig() != (inType == TypeMultiSig) {
+			return "", errors.New("The type of the signature and the unlock data are not match!")
+		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
 			emptyTrans.Vins[i].scriptPub = nil
diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index 08e1f8f..b78579e 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -276,6 +276,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Missing signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index 6b4bd90..14e1af6 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -109,6 +109,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signatures are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
 		return "", err
@@ -123,6 +127,9 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		if err != nil {
 			return "", err
 		}
+		if txHashes[i].IsMultisig() != (inType == TypeMultiSig) {
+			return "", errors.New("The type of the signature and the unlock data are not match!")
+		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
 			emptyTrans.Vins[i].scriptPub = nil
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 755e659..2d2fc1a 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -277,6 +277,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Missing signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index eee085f..475c26e 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -95,6 +95,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signatures are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
 		return "", err
@@ -109,6 +113,9 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		if err != nil {
 			return "", err
 		}
+		if txHashes[i].IsMultisig() != (inType == TypeMultiSig) {
+			return "", errors.New("The type of the signature and the unlock data are not match!")
+		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
 			emptyTrans.Vins[i].scriptPub = nil
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index 28670aa..2d717ce 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -280,6 +280,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Missing signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index bcc22ce..772032e 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -114,6 +114,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signatures are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
 		return "", err
@@ -128,6 +132,9 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		if err != nil {
 			return "", err
 		}
+		if txHashes[i].IsMultisig() != (inType == TypeMultiSig) {
+			return "", errors.New("The type of the signature and the unlock data are not match!")
+		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
 			emptyTrans.Vins[i].scriptPub = nil
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index 8c5c5c6..4ca4a32 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -279,6 +279,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Missing signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index 03cf807..545f7ca 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -95,6 +95,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signatures are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
 		return "", err
@@ -109,6 +113,9 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		if err != nil {
 			return "", err
 		}
+		if txHashes[i].IsMultisig() != (inType == TypeMultiSig) {
+			return "", errors.New("The type of the signature and the unlock data are not match!")
+		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
 			emptyTrans.Vins[i].scriptPub = nil
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index fea3678..62209ef 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -280,6 +280,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Missing signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index 5c3287f..f44a59d 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -92,6 +92,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signatures are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, false)
 	if err != nil {
 		return "", err
@@ -106,6 +110,9 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		if err != nil {
 			return "", err
 		}
+		if txHashes[i].IsMultisig() != (inType == TypeMultiSig) {
+			return "", errors.New("The type of the signature and the unlock data are not match!")
+		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
 			emptyTrans.Vins[i].scriptPub = nil
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index 8595c0d..fa421ae 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -279,6 +279,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Missing signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/zencashTransaction/transaction.go b/zencashTransaction/transaction.go
index 75f2ba0..7374fab 100644
--- a/zencashTransaction/transaction.go
+++ b/zencashTransaction/transaction.go
@@ -94,6 +94,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signatures are not match!")
+	}
+
 	segwit := false
 
 	if segwit && !SegwitON {
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index 8f57866..0b90e4d 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -287,6 +287,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Missing signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
-- 
2.43.0


From a491b26843a9aca4b1911c16d588d5d29960c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:56 +0000
Subject: [PATCH 28/42] fix: cosmos and evaio signing crashed when the key
 cannot sign

---
 cosmosTransaction/transaction.go | 3 +--
 evaioTransaction/transaction.go  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/cosmosTransaction/transaction.go b/cosmosTransaction/transaction.go
index e320dfb..44a76c5 100644
--- a/cosmosTransaction/transaction.go
+++ b/cosmosTransaction/transaction.go
@@ -56,11 +56,10 @@ func SignTransactionHash(txHash string, prikey []byte) (string, error) {
 	}
 
 	sig,_, ret := owcrypt.Signature(prikey, nil, hash, owcrypt.ECC_CURVE_SECP256K1)
-	sig = serilizeS(sig)
-
 	if ret != owcrypt.SUCCESS {
 		return "", errors.New("Signature failed!")
 	}
+	sig = serilizeS(sig)
 
 	return hex.EncodeToString(sig), nil
 }
diff --git a/evaioTransaction/transaction.go b/evaioTransaction/transaction.go
index 073f867..b06bbe3 100644
--- a/evaioTransaction/transaction.go
+++ b/evaioTransaction/transaction.go
@@ -56,11 +56,10 @@ func SignTransactionHash(txHash string, prikey []byte) (string, error) {
 	}
 
 	sig,_, ret := owcrypt.Signature(prikey, nil, hash, owcrypt.ECC_CURVE_SECP256K1)
-	sig = serilizeS(sig)
-
 	if ret != owcrypt.SUCCESS {
 		return "", errors.New("Signature failed!")
 	}
+	sig = serilizeS(sig)
 
 	return hex.EncodeToString(sig), nil
 }
-- 
2.43.0


From 86aea9c22d956d43d4e18d1f9edf99912e9f528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:02 +0000
Subject: [PATCH 29/42] fix: aliencoin, verge and vollar drivers wrote
 truncated lengths and crashed on malformed ids, scripts, addresses and
 signatures

---
 aliencoinTransaction/transaction.go | 2 +-
 aliencoinTransaction/txIn.go        | 4 ++--
 aliencoinTransaction/txOut.go       | 2 +-
 aliencoinTransaction/txStruct.go    | 8 +++++++-
 vergeTransaction/transaction.go     | 2 +-
 vergeTransaction/txIn.go            | 4 ++--
 vergeTransaction/txOut.go           | 2 +-
 vergeTransaction/txStruct.go        | 8 +++++++-
 vollarTransaction/transaction.go    | 5 ++++-
 vollarTransaction/txIn.go           | 4 ++--
 vollarTransaction/txStruct.go       | 3 +++
 11 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/aliencoinTransaction/transaction.go b/aliencoinTransaction/transaction.go
index f650b48..eb33984 100644
--- a/aliencoinTransaction/transaction.go
+++ b/aliencoinTransaction/transaction.go
@@ -65,7 +65,7 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPubs []SigPub) (bool, str
 	for index := 0; index < len(sigPubs); index++ {
 		hashBytes, _ := hex.DecodeString(hashes[index])
 		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
-		if len(pubkey) == 0 || owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+		if len(pubkey) == 0 || len(sigPubs[index].Pubkey) != 33 || len(sigPubs[index].Signature) != 64 || owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, "", errors.New("verify transaction failed!")
 		}
 		txStruct.Vin[index].SigPub = &sigPubs[index]
diff --git a/aliencoinTransaction/txIn.go b/aliencoinTransaction/txIn.go
index 0d1c7d6..21c25f9 100644
--- a/aliencoinTransaction/txIn.go
+++ b/aliencoinTransaction/txIn.go
@@ -16,14 +16,14 @@ type TxIn struct {
 
 func (in Vin) NewTxIn() (*TxIn, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid txid!")
 	}
 
 	vout := make([]byte, 4)
 	binary.LittleEndian.PutUint32(vout[:], in.Vout)
 	lockScript, err := hex.DecodeString(in.LockScript)
-	if err != nil {
+	if err != nil || len(lockScript) > 0xFC {
 		return nil, errors.New("invalid lock script!")
 	}
 	lockScript = append([]byte{byte(len(lockScript))}, lockScript...)
diff --git a/aliencoinTransaction/txOut.go b/aliencoinTransaction/txOut.go
index b4a79e0..b0d8fb6 100644
--- a/aliencoinTransaction/txOut.go
+++ b/aliencoinTransaction/txOut.go
@@ -18,7 +18,7 @@ func (out Vout) NewTxOut() (*TxOut, error) {
 
 	prefix, lockScript, err := DecodeCheck(out.Address)
 
-	if err != nil {
+	if err != nil || len(lockScript) != 20 {
 		return nil, errors.New("Invalid address to send!")
 	}
 
diff --git a/aliencoinTransaction/txStruct.go b/aliencoinTransaction/txStruct.go
index 5847351..01bafb0 100644
--- a/aliencoinTransaction/txStruct.go
+++ b/aliencoinTransaction/txStruct.go
@@ -20,6 +20,9 @@ type TxStruct struct {
 }
 
 func NewTxStruct(vins []Vin, vouts []Vout, lockTime uint32) (*TxStruct, error) {
+	if len(vins) > 0xFC || len(vouts) > 0xFC {
+		return nil, errors.New("too many inputs or outputs!")
+	}
 	ret := TxStruct{Version: DefaultTxVersion}
 
 	ret.LockTime = uint32ToLittleEndianBytes(lockTime)
@@ -186,7 +189,10 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 
 	for i := 0; i < len(txStruct.Vin); i++ {
-		lock, _ := hex.DecodeString(dataArray[i+1])
+		lock, err := hex.DecodeString(dataArray[i+1])
+		if err != nil || len(lock) > 0xFC {
+			return nil, nil, errors.New("invalid lock script!")
+		}
 		lock = append([]byte{byte(len(lock))}, lock...)
 		txStruct.Vin[i].LockScript = lock
 	}
diff --git a/vergeTransaction/transaction.go b/vergeTransaction/transaction.go
index 0e6e661..5b9ab04 100644
--- a/vergeTransaction/transaction.go
+++ b/vergeTransaction/transaction.go
@@ -65,7 +65,7 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPubs []SigPub) (bool, str
 	for index := 0; index < len(sigPubs); index++ {
 		hashBytes, _ := hex.DecodeString(hashes[index])
 		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
-		if len(pubkey) == 0 || owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+		if len(pubkey) == 0 || len(sigPubs[index].Pubkey) != 33 || len(sigPubs[index].Signature) != 64 || owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, "", errors.New("verify transaction failed!")
 		}
 		txStruct.Vin[index].SigPub = &sigPubs[index]
diff --git a/vergeTransaction/txIn.go b/vergeTransaction/txIn.go
index bb6dc21..70a207d 100644
--- a/vergeTransaction/txIn.go
+++ b/vergeTransaction/txIn.go
@@ -16,14 +16,14 @@ type TxIn struct {
 
 func (in Vin) NewTxIn() (*TxIn, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid txid!")
 	}
 
 	vout := make([]byte, 4)
 	binary.LittleEndian.PutUint32(vout[:], in.Vout)
 	lockScript, err := hex.DecodeString(in.LockScript)
-	if err != nil {
+	if err != nil || len(lockScript) > 0xFC {
 		return nil, errors.New("invalid lock script!")
 	}
 	lockScript = append([]byte{byte(len(lockScript))}, lockScript...)
diff --git a/vergeTransaction/txOut.go b/vergeTransaction/txOut.go
index 85b9481..613b848 100644
--- a/vergeTransaction/txOut.go
+++ b/vergeTransaction/txOut.go
@@ -18,7 +18,7 @@ func (out Vout) NewTxOut() (*TxOut, error) {
 
 	prefix, lockScript, err := DecodeCheck(out.Address)
 
-	if err != nil {
+	if err != nil || len(lockScript) != 20 {
 		return nil, errors.New("Invalid address to send!")
 	}
 
diff --git a/vergeTransaction/txStruct.go b/vergeTransaction/txStruct.go
index 08f324f..3521471 100644
--- a/vergeTransaction/txStruct.go
+++ b/vergeTransaction/txStruct.go
@@ -21,6 +21,9 @@ type TxStruct struct {
 }
 
 func NewTxStruct(vins []Vin, vouts []Vout, timeInterval, lockTime uint32) (*TxStruct, error) {
+	if len(vins) > 0xFC || len(vouts) > 0xFC {
+		return nil, errors.New("too many inputs or outputs!")
+	}
 	ret := TxStruct{Version: DefaultTxVersion}
 
 	timeuntil := uint32(time.Now().Unix())
@@ -199,7 +202,10 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 
 	for i := 0; i < len(txStruct.Vin); i++ {
-		lock, _ := hex.DecodeString(dataArray[i+1])
+		lock, err := hex.DecodeString(dataArray[i+1])
+		if err != nil || len(lock) > 0xFC {
+			return nil, nil, errors.New("invalid lock script!")
+		}
 		lock = append([]byte{byte(len(lock))}, lock...)
 		txStruct.Vin[i].LockScript = lock
 	}
diff --git a/vollarTransaction/transaction.go b/vollarTransaction/transaction.go
index d916fcf..925db49 100644
--- a/vollarTransaction/transaction.go
+++ b/vollarTransaction/transaction.go
@@ -61,7 +61,7 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 	}
 	for index := 0; index < len(lockScripts); index++ {
 		ls, err := hex.DecodeString(lockScripts[index])
-		if err != nil {
+		if err != nil || len(ls) > 0xFC {
 			return false, "", errors.New("invalid lock script!")
 		}
 		trans.Vin[index].LockScript = append([]byte{byte(len(ls))}, ls...)
@@ -75,6 +75,9 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 	pass := true
 
 	for i := 0; i < len(sigPub); i++ {
+		if len(sigPub[i].Pubkey) != 33 || len(sigPub[i].Signature) != 64 {
+			return false, "", errors.New("invalid signature or public key!")
+		}
 		hash, _ := hex.DecodeString(hashes[i])
 		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
 		if len(pubkey) == 0 || owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
diff --git a/vollarTransaction/txIn.go b/vollarTransaction/txIn.go
index 61b9a11..1c56e2d 100644
--- a/vollarTransaction/txIn.go
+++ b/vollarTransaction/txIn.go
@@ -16,14 +16,14 @@ type TxIn struct {
 
 func (in Vin) NewTxIn() (*TxIn, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid txid!")
 	}
 
 	vout := make([]byte, 4)
 	binary.LittleEndian.PutUint32(vout[:], in.Vout)
 	lockScript, err := hex.DecodeString(in.LockScript)
-	if err != nil {
+	if err != nil || len(lockScript) > 0xFC {
 		return nil, errors.New("invalid lock script!")
 	}
 	lockScript = append([]byte{byte(len(lockScript))}, lockScript...)
diff --git a/vollarTransaction/txStruct.go b/vollarTransaction/txStruct.go
index a173894..d7756cc 100644
--- a/vollarTransaction/txStruct.go
+++ b/vollarTransaction/txStruct.go
@@ -20,6 +20,9 @@ type TxStruct struct {
 }
 
 func NewTxStruct(vins []Vin, vouts []Vout) (*TxStruct, error) {
+	if len(vins) > 0xFC || len(vouts) > 0xFC {
+		return nil, errors.New("too many inputs or outputs!")
+	}
 	ret := TxStruct{Version: DefaultTxVersion, Flag: DefaultTxFlag}
 
 	for _, in := range vins {
-- 
2.43.0


From e82be8382e58dca4b35b0a61166cfeaf59b87c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:57 +0000
Subject: [PATCH 30/42] fix: btcLikeTxDriver wrote non-minimal witness
 signatures and crashed on malformed ones

---
 btcLikeTxDriver/txStruct.go |   5 +-
 btcLikeTxDriver/witness.go  | 101 ++----------------------------------
 2 files changed, 9 insertions(+), 97 deletions(-)

diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 64ce142..bd058bc 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -266,7 +266,10 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 				if index+int(length)+1+34 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
-				witness, _ := decodeFromSegwitBytes(txBytes[index : index+int(length)+1+34])
+				witness, err := decodeFromSegwitBytes(txBytes[index : index+int(length)+1+34])
+				if err != nil {
+					return nil, err
+				}
 				rawTx.Witness = append(rawTx.Witness, *witness)
 
 				index += int(length) + 1 + 34
diff --git a/btcLikeTxDriver/witness.go b/btcLikeTxDriver/witness.go
index a524191..d055ce0 100644
--- a/btcLikeTxDriver/witness.go
+++ b/btcLikeTxDriver/witness.go
@@ -1,109 +1,18 @@
 package btcLikeTxDriver
 
-import "errors"
-
 type TxWitness struct {
 	Signature []byte
 	Pubkey    []byte
 }
 
 func (w TxWitness) encodeToScript(sigType byte) []byte {
-	r := w.Signature[:32]
-	s := w.Signature[32:]
-
-	if r[0]&0x80 == 0x80 {
-		r = append([]byte{0x00}, r...)
-	}
-	if s[0]&0x80 == 0x80 {
-		s = append([]byte{0}, s...)
-	}
-
-	r = append([]byte{byte(len(r))}, r...)
-	r = append([]byte{0x02}, r...)
-	s = append([]byte{byte(len(s))}, s...)
-	s = append([]byte{0x02}, s...)
-
-	rs := append(r, s...)
-	rs = append([]byte{byte(len(rs))}, rs...)
-	rs = append(rs, sigType)
-	rs = append([]byte{0x30}, rs...)
-	rs = append([]byte{byte(len(rs))}, rs...)
-
-	pub := append([]byte{byte(len(w.Pubkey))}, w.Pubkey...)
-
-	return append(rs, pub...)
+	return SignaturePubkey{w.Signature, w.Pubkey}.encodeToScript(sigType)
 }
 
 func decodeFromSegwitBytes(script []byte) (*TxWitness, error) {
-	var ret TxWitness
-	index := 0
-	sigLen := script[index]
-	index++
-
-	if script[index] != 0x30 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	rsLen := script[index]
-	index++
-
-	if script[index] != 0x02 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	rLen := script[index]
-	index++
-
-	if rLen == 0x21 {
-		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
-			return nil, errors.New("Invalid signature data!")
-		}
-		index++
-	}
-
-	ret.Signature = script[index : index+32]
-	index += 32
-
-	if script[index] != 0x02 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	sLen := script[index]
-	index++
-
-	if sLen == 0x21 {
-		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
-			return nil, errors.New("Invalid signature data!")
-		}
-		index++
-	}
-
-	ret.Signature = append(ret.Signature, script[index:index+32]...)
-	index += 32
-
-	if script[index] != SigHashAll {
-		return nil, errors.New("Only sigAll supported!")
-	}
-	index++
-
-	pubLen := script[index]
-	index++
-	if pubLen != 0x21 {
-		return nil, errors.New("Only compressed pubkey is supported!")
-	}
-
-	ret.Pubkey = script[index : index+33]
-	index += 33
-
-	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) || (sigLen+pubLen+2 != byte(len(script))) {
-		return nil, errors.New("Invalid transaction data!")
-	}
-
-	if index != len(script) {
-		return nil, errors.New("Invalid transaction data!")
+	sp, err := decodeFromScriptBytes(script)
+	if err != nil {
+		return nil, err
 	}
-	return &ret, nil
+	return &TxWitness{sp.Signature, sp.Pubkey}, nil
 }
-- 
2.43.0


From 7b81d666fc18d15283673b4b3f49827f10a98d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:21 +0000
Subject: [PATCH 31/42] fix: ripple amounts, tags and memos beyond their field
 silently changed value, malformed signing input crashed

---
 rippleTransaction/transaction.go | 10 ++++++++--
 rippleTransaction/txStruct.go    | 13 +++++++++++++
 rippleTransaction/txUtils.go     | 17 ++++++++++++++++-
 3 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/rippleTransaction/transaction.go b/rippleTransaction/transaction.go
index 22dbaa5..65f547a 100644
--- a/rippleTransaction/transaction.go
+++ b/rippleTransaction/transaction.go
@@ -18,7 +18,7 @@ func CreateEmptyRawTransactionAndHash(from, pubkey string, destinationTag int64,
 
 func SignRawTransaction(hash string, prikey []byte) (string, error) {
 	hashBytes, err := hex.DecodeString(hash)
-	if err != nil {
+	if err != nil || len(hashBytes) != 32 || len(prikey) != 32 {
 		return "", errors.New("Invalid transaction hash string!")
 	}
 	signature,_, reCode := owcrypt.Signature(prikey, nil, hashBytes, owcrypt.ECC_CURVE_SECP256K1)
@@ -29,6 +29,9 @@ func SignRawTransaction(hash string, prikey []byte) (string, error) {
 }
 
 func VerifyAndCombinRawTransaction(emptyTrans string, signature, publicKey string) (bool, string) {
+	if strings.Count(emptyTrans, "s") != 1 {
+		return false, ""
+	}
 	hash, err := getHashFromEmptyRawHex(emptyTrans)
 	if err != nil {
 		return false, ""
@@ -45,6 +48,9 @@ func VerifyAndCombinRawTransaction(emptyTrans string, signature, publicKey strin
 	if len(pubkeyBytes) == 0 || owcrypt.SUCCESS != owcrypt.Verify(pubkeyBytes[1:], nil, hash, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
-	txnSignature, _ := getTxnSignatureBytes(signature)
+	txnSignature, err := getTxnSignatureBytes(signature)
+	if err != nil {
+		return false, ""
+	}
 	return true, strings.Replace(emptyTrans, "s", hex.EncodeToString(txnSignature), -1)
 }
diff --git a/rippleTransaction/txStruct.go b/rippleTransaction/txStruct.go
index 37190d4..44b34e8 100644
--- a/rippleTransaction/txStruct.go
+++ b/rippleTransaction/txStruct.go
@@ -65,6 +65,9 @@ func getAmountBytes(amount uint64) ([]byte, error) {
 	if amount == 0 {
 		return nil, errors.New("Amount cannot be zero!")
 	}
+	if amount >= 1<<62 {
+		return nil, errors.New("Amount out of range!")
+	}
 	enc := getEncBytes(encodings["Amount"])
 	amountValue := newValue(true, false, amount, 0)
 	return append(enc, amountValue.Bytes()...), nil
@@ -74,6 +77,9 @@ func getFeeBytes(fee uint64) ([]byte, error) {
 	if fee == 0 {
 		return nil, errors.New("Fee cannot be zero!")
 	}
+	if fee >= 1<<62 {
+		return nil, errors.New("Fee out of range!")
+	}
 	enc := getEncBytes(encodings["Fee"])
 	feeValue := newValue(true, false, fee, 0)
 	return append(enc, feeValue.Bytes()...), nil
@@ -140,6 +146,13 @@ func NewTxStruct(from, pubkey string, sequence uint32, to string, amount, fee ui
 		err      error
 	)
 
+	if destinationTag > 0xFFFFFFFF {
+		return nil, errors.New("Destination tag out of range!")
+	}
+	if len(memoType) > maxVLLength || len(memoData) > maxVLLength || len(memoFormat) > maxVLLength {
+		return nil, errors.New("Memo too long!")
+	}
+
 	txStruct.TransactionType = getTransactionTypeBytes(PAYMENT)
 	txStruct.Flags = getFlagsBytes(TxCanonicalSignature)
 	txStruct.Sequence = getSequenceBytes(sequence)
diff --git a/rippleTransaction/txUtils.go b/rippleTransaction/txUtils.go
index 0637e68..1ac5d82 100644
--- a/rippleTransaction/txUtils.go
+++ b/rippleTransaction/txUtils.go
@@ -113,6 +113,21 @@ func serilizeS(sig []byte) []byte {
 	return sig
 }
 
+// the longest field a variable length prefix can describe
+const maxVLLength = 918744
+
+func getVLLengthBytes(length int) []byte {
+	if length <= 192 {
+		return []byte{byte(length)}
+	}
+	if length <= 12480 {
+		length -= 193
+		return []byte{byte(193 + length>>8), byte(length)}
+	}
+	length -= 12481
+	return []byte{byte(241 + length>>16), byte(length >> 8), byte(length)}
+}
+
 func memoToBytes(memo string) []byte {
-	return append([]byte{byte(len(memo))}, []byte(memo)...)
+	return append(getVLLengthBytes(len(memo)), []byte(memo)...)
 }
-- 
2.43.0


From 1d896f6b3651aa74afdd651660fda8658f1aa08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:40 +0000
Subject: [PATCH 32/42] fix: moac wrote non-canonical numbers, could not
 combine larger transactions and crashed on short input

---
 moacchainTransaction/transaction.go |  24 +++---
 moacchainTransaction/txStruct.go    | 118 +++++++++-------------------
 moacchainTransaction/txUtils.go     |  24 +++++-
 3 files changed, 74 insertions(+), 92 deletions(-)

diff --git a/moacchainTransaction/transaction.go b/moacchainTransaction/transaction.go
index 52f9ffb..4312a50 100644
--- a/moacchainTransaction/transaction.go
+++ b/moacchainTransaction/transaction.go
@@ -1,6 +1,7 @@
 package moacchainTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"math/big"
@@ -22,7 +23,7 @@ func CreateEmptyRawTransactionAndHash(to string, nonce uint64, amount, gasLimit,
 
 func SignRawTransaction(hash string, privateKey []byte) ([]byte, error) {
 	hashBytes, err := hex.DecodeString(hash)
-	if err != nil || len(hashBytes) != 32 {
+	if err != nil || len(hashBytes) != 32 || len(privateKey) != 32 {
 		return nil, errors.New("Invalid hash string!")
 	}
 	signature, v, retCode := owcrypt.Signature(privateKey, nil, hashBytes, owcrypt.ECC_CURVE_SECP256K1)
@@ -42,6 +43,9 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, publicKey string, isT
 	if err != nil || len(sig) != 65 || (sig[64] != 0x01) && sig[64] != 0x00 {
 		return false, ""
 	}
+	if !isScalar(sig[:32]) || !isScalar(sig[32:64]) {
+		return false, ""
+	}
 	pub, retCode := owcrypt.RecoverPubkey(sig, hash, owcrypt.ECC_CURVE_SECP256K1)
 	if retCode != owcrypt.SUCCESS || strings.ToLower(hex.EncodeToString(owcrypt.PointCompress(pub, owcrypt.ECC_CURVE_SECP256K1))) != strings.ToLower(publicKey) {
 		return false, ""
@@ -49,15 +53,17 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, publicKey string, isT
 	if owcrypt.SUCCESS != owcrypt.Verify(pub, nil, hash, sig[:64], owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
-	if len(txBytes) < 57 {
-		head := getHeadBytes(SmallTag, LargeTag, uint64(len(txBytes)-1))
-		if head[0] != txBytes[0] {
-			return false, ""
-		}
-	} else {
-		//
+	if len(txBytes) == 0 {
+		return false, ""
+	}
+	head := 1
+	if txBytes[0] > LargeTag {
+		head += int(txBytes[0] - LargeTag)
+	}
+	if head > len(txBytes) || !bytes.Equal(txBytes[:head], getHeadBytes(SmallTag, LargeTag, uint64(len(txBytes)-head))) {
+		return false, ""
 	}
-	tx, err := decodeEmpty(txBytes[1:])
+	tx, err := decodeEmpty(txBytes[head:])
 	if err != nil {
 		return false, ""
 	}
diff --git a/moacchainTransaction/txStruct.go b/moacchainTransaction/txStruct.go
index 1d3052b..57d1509 100644
--- a/moacchainTransaction/txStruct.go
+++ b/moacchainTransaction/txStruct.go
@@ -23,6 +23,9 @@ type TxStruct struct {
 
 func NewTxStruct(to string, nonce uint64, amount, gasLimit, gasPrice *big.Int, signature []byte, isTestNet bool) (*TxStruct, error) {
 	var tx TxStruct
+	if !isAmount(amount) || !isAmount(gasLimit) || !isAmount(gasPrice) {
+		return nil, errors.New("Invalid amount or gas!")
+	}
 	tx.Nonce = getUint64Bytes(nonce)
 	tx.SystemContract = getUint64Bytes(0) // not contract
 	tx.GasPrice = getBigIntBytes(gasPrice)
@@ -76,96 +79,53 @@ func (tx *TxStruct) ToBytes() []byte {
 	return append(head, body...)
 }
 
-func decodeEmpty(txBytes []byte) (*TxStruct, error) {
-	var tx TxStruct
-	limit := len(txBytes)
-	index := 0
-
-	if index+1 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	if txBytes[index] <= 0x80 {
-		tx.Nonce = txBytes[index : index+1]
-		index++
-	} else {
-		if index+1+int(txBytes[index])-0x80 > limit {
-			return nil, errors.New("Invalid!")
-		}
-		tx.Nonce = txBytes[index : index+1+int(txBytes[index])-0x80]
-		index += (1 + int(txBytes[index]) - 0x80)
-	}
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
+func readItem(txBytes []byte, index int) ([]byte, int, error) {
+	if index+1 > len(txBytes) || txBytes[index] > 0xb7 {
+		return nil, 0, errors.New("Invalid!")
 	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
+	next := index + 1
+	if txBytes[index] > 0x80 {
+		next += int(txBytes[index]) - 0x80
 	}
-	tx.SystemContract = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
+	if next > len(txBytes) {
+		return nil, 0, errors.New("Invalid!")
 	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.GasPrice = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
+	return txBytes[index:next], next, nil
+}
 
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.GasLimit = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
+func decodeEmpty(txBytes []byte) (*TxStruct, error) {
+	var tx TxStruct
+	var err error
+	limit := len(txBytes)
+	index := 0
 
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
+	if tx.Nonce, index, err = readItem(txBytes, index); err != nil {
+		return nil, err
 	}
-	tx.Recipient = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
+	if tx.SystemContract, index, err = readItem(txBytes, index); err != nil {
+		return nil, err
 	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
+	if tx.GasPrice, index, err = readItem(txBytes, index); err != nil {
+		return nil, err
 	}
-	tx.Amount = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
+	if tx.GasLimit, index, err = readItem(txBytes, index); err != nil {
+		return nil, err
 	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
+	if tx.Recipient, index, err = readItem(txBytes, index); err != nil {
+		return nil, err
 	}
-	tx.Payload = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
+	if tx.Amount, index, err = readItem(txBytes, index); err != nil {
+		return nil, err
 	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
+	if tx.Payload, index, err = readItem(txBytes, index); err != nil {
+		return nil, err
 	}
-	tx.ShardingFlag = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
+	if tx.ShardingFlag, index, err = readItem(txBytes, index); err != nil {
+		return nil, err
 	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
+	if tx.Via, index, err = readItem(txBytes, index); err != nil {
+		return nil, err
 	}
-	tx.Via = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
 
 	if index+1 > limit {
 		return nil, errors.New("Invalid!")
@@ -190,8 +150,7 @@ func (tx *TxStruct) addSig(sig []byte, isTestNet bool) {
 			break
 		}
 	}
-	tx.R = getLengthBytes(len(r))
-	tx.R = append(tx.R, r...)
+	tx.R = getItemBytes(r)
 
 	s := sig[32:64]
 	for _, data := range s {
@@ -201,8 +160,7 @@ func (tx *TxStruct) addSig(sig []byte, isTestNet bool) {
 			break
 		}
 	}
-	tx.S = getLengthBytes(len(s))
-	tx.S = append(tx.S, s...)
+	tx.S = getItemBytes(s)
 
 	if isTestNet {
 		tx.ChainID = getUint64Bytes(uint64(sig[64] + 35 + ChainIDTestnet*2))
diff --git a/moacchainTransaction/txUtils.go b/moacchainTransaction/txUtils.go
index 7865861..21ce56a 100644
--- a/moacchainTransaction/txUtils.go
+++ b/moacchainTransaction/txUtils.go
@@ -5,6 +5,8 @@ import (
 	"encoding/hex"
 	"errors"
 	"math/big"
+
+	owcrypt "github.com/blocktree/go-owcrypt"
 )
 
 func getLengthBytes(len int) []byte {
@@ -33,9 +35,25 @@ func getUint64Bytes(data uint64) []byte {
 }
 
 func getBigIntBytes(data *big.Int) []byte {
-	ret := data.Bytes()
+	return getItemBytes(data.Bytes())
+}
+
+// a short string item: a single byte below 0x80 stands for itself
+func getItemBytes(data []byte) []byte {
+	if len(data) == 1 && data[0] < 0x80 {
+		return []byte{data[0]}
+	}
+	return append(getLengthBytes(len(data)), data...)
+}
+
+// a number in 1..n-1, as the halves of a signature have to be
+func isScalar(data []byte) bool {
+	v := new(big.Int).SetBytes(data)
+	return v.Sign() > 0 && v.Cmp(new(big.Int).SetBytes(owcrypt.GetCurveOrder(owcrypt.ECC_CURVE_SECP256K1))) < 0
+}
 
-	return append(getLengthBytes(len(ret)), ret...)
+func isAmount(data *big.Int) bool {
+	return data != nil && data.Sign() >= 0 && data.BitLen() <= 256
 }
 
 func getHeadBytes(smalTag, largeTag byte, size uint64) []byte {
@@ -106,7 +124,7 @@ func putint(b []byte, i uint64) (size int) {
 }
 
 func getAddressHashBytes(address string) ([]byte, error) {
-	if address[:2] != "0x" {
+	if len(address) < 2 || address[:2] != "0x" {
 		return nil, errors.New("Invalid address!")
 	}
 	hash, err := hex.DecodeString(address[2:])
-- 
2.43.0


From b1cfda39fbf316986864247a9a55c763ad37099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:16 +0000
Subject: [PATCH 33/42] fix: reading a transaction id as text reversed it
 inside the transaction

reverseBytesToHex reversed its argument in place, so that GetTxID changed the
decoded transaction (and the caller's bytes) and gave another answer the
second time.
---
 bigbangTransaction/txUtils.go     | 2 +-
 bitcoincashTransaction/txUtils.go | 2 +-
 bitcoinsvTransaction/txUtils.go   | 2 +-
 btcLikeTxDriver/utils.go          | 2 +-
 btcTransaction/txUtils.go         | 2 +-
 cxcTransaction/txUtils.go         | 2 +-
 hcTransaction/txUtils.go          | 2 +-
 hypercashTransaction/txUtils.go   | 2 +-
 mateverseTransaction/txUtils.go   | 2 +-
 omniTransaction/txUtils.go        | 2 +-
 ontologyTransaction/txUtils.go    | 2 +-
 zencashTransaction/txUtils.go     | 2 +-
 12 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/bigbangTransaction/txUtils.go b/bigbangTransaction/txUtils.go
index 833e89c..3d93928 100644
--- a/bigbangTransaction/txUtils.go
+++ b/bigbangTransaction/txUtils.go
@@ -28,7 +28,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 
diff --git a/bitcoincashTransaction/txUtils.go b/bitcoincashTransaction/txUtils.go
index 331d98b..4394ec8 100644
--- a/bitcoincashTransaction/txUtils.go
+++ b/bitcoincashTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/bitcoinsvTransaction/txUtils.go b/bitcoinsvTransaction/txUtils.go
index bc7c7d5..b6b25a5 100644
--- a/bitcoinsvTransaction/txUtils.go
+++ b/bitcoinsvTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/btcLikeTxDriver/utils.go b/btcLikeTxDriver/utils.go
index 3fc84d4..120af24 100644
--- a/btcLikeTxDriver/utils.go
+++ b/btcLikeTxDriver/utils.go
@@ -28,7 +28,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint32ToLittleEndianBytes
diff --git a/btcTransaction/txUtils.go b/btcTransaction/txUtils.go
index aa8dcb3..7da05b4 100644
--- a/btcTransaction/txUtils.go
+++ b/btcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/cxcTransaction/txUtils.go b/cxcTransaction/txUtils.go
index 2cf3e8b..4007ee2 100644
--- a/cxcTransaction/txUtils.go
+++ b/cxcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/hcTransaction/txUtils.go b/hcTransaction/txUtils.go
index 776e766..87cc6c7 100644
--- a/hcTransaction/txUtils.go
+++ b/hcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/hypercashTransaction/txUtils.go b/hypercashTransaction/txUtils.go
index 075a6bb..3f68709 100644
--- a/hypercashTransaction/txUtils.go
+++ b/hypercashTransaction/txUtils.go
@@ -29,7 +29,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 func uint16ToBigEndianBytes(data uint16) []byte {
diff --git a/mateverseTransaction/txUtils.go b/mateverseTransaction/txUtils.go
index f092396..f72ce09 100644
--- a/mateverseTransaction/txUtils.go
+++ b/mateverseTransaction/txUtils.go
@@ -41,7 +41,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/omniTransaction/txUtils.go b/omniTransaction/txUtils.go
index bf14c40..dc914dd 100644
--- a/omniTransaction/txUtils.go
+++ b/omniTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/ontologyTransaction/txUtils.go b/ontologyTransaction/txUtils.go
index c4b23f3..b6de0a0 100644
--- a/ontologyTransaction/txUtils.go
+++ b/ontologyTransaction/txUtils.go
@@ -29,7 +29,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/zencashTransaction/txUtils.go b/zencashTransaction/txUtils.go
index 0234c19..9020b92 100644
--- a/zencashTransaction/txUtils.go
+++ b/zencashTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
-- 
2.43.0


From 7443d19a9c8166de640067cf81ac3a50724407e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:11 +0000
Subject: [PATCH 34/42] fix: btcLikeTxDriver refused bech32 payments, lost
 witnesses and mistook keys ending in 0xAE for multisig

- paying a bech32 address fell through to base58 decoding and failed
- signing a second witness input dropped its witness
- a single input whose public key or key hash ends in 0xAE was encoded as a multisig input
- hashing or inserting signatures changed the caller's unlock data, so that a bech32 input
  got an unlocking script and could not be verified afterwards
- witness counts other than 2-of-n, lengths above 252 were written wrongly
- malformed lock, redeem and unlocking scripts and missing signatures crashed
---
 btcLikeTxDriver/multiSig.go    | 20 ++++----
 btcLikeTxDriver/transaction.go | 86 ++++++++++++++++++++++------------
 btcLikeTxDriver/txOut.go       |  1 +
 btcLikeTxDriver/txStruct.go    | 41 +++++++++++-----
 4 files changed, 97 insertions(+), 51 deletions(-)

diff --git a/btcLikeTxDriver/multiSig.go b/btcLikeTxDriver/multiSig.go
index 733e00d..056a2c3 100644
--- a/btcLikeTxDriver/multiSig.go
+++ b/btcLikeTxDriver/multiSig.go
@@ -49,13 +49,16 @@ func (t Transaction) isMultiSig() bool {
 	if len(t.Vins) != 1 {
 		return false
 	}
-	if t.Vins[0].ScriptPubkeySignature == nil {
-		return false
-	}
-	if t.Vins[0].ScriptPubkeySignature[len(t.Vins[0].ScriptPubkeySignature)-1] != OpCheckMultiSig {
+	return isMultiSigScript(t.Vins[0].ScriptPubkeySignature)
+}
+
+// isMultiSigScript tells the redeem scripts CreateMultiSig makes from the unlocking scripts of single keys, which may
+// well end in the same byte (that of a public key or its hash)
+func isMultiSigScript(script []byte) bool {
+	if len(script) < 3 || script[len(script)-1] != OpCheckMultiSig {
 		return false
 	}
-	return true
+	return script[0] >= OpCode_1 && script[0] <= OpCode_1+15
 }
 
 func isMultiSig(lockScript, redeemScript string) bool {
@@ -67,7 +70,7 @@ func isMultiSig(lockScript, redeemScript string) bool {
 	if err != nil {
 		return false
 	}
-	if !(lockBytes[0] == OpCodeHash160 && lockBytes[1] == 0x14 || lockBytes[22] == OpCodeEqual) {
+	if !(lockBytes[0] == OpCodeHash160 && lockBytes[1] == 0x14 && lockBytes[22] == OpCodeEqual) {
 		return false
 	}
 
@@ -76,10 +79,7 @@ func isMultiSig(lockScript, redeemScript string) bool {
 		return false
 	}
 
-	if len(redeemBytes) == 0 || redeemBytes[len(redeemBytes)-1] != OpCheckMultiSig {
-		return false
-	}
-	return true
+	return isMultiSigScript(redeemBytes)
 
 }
 
diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index e82938e..e4db6f3 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -3,7 +3,6 @@ package btcLikeTxDriver
 import (
 	"encoding/hex"
 	"errors"
-	"strings"
 )
 
 type Vin struct {
@@ -77,6 +76,10 @@ func SignEmptyRawTransaction(txHex string, unlockData []TxUnlock) (string, error
 		return "", err
 	}
 
+	if emptyTrans.Witness != nil {
+		return "", errors.New("The transaction is signed already!")
+	}
+
 	hashes, err := emptyTrans.getHashesForSig(unlockData)
 	if err != nil {
 		return "", err
@@ -101,7 +104,7 @@ func SignEmptyRawTransaction(txHex string, unlockData []TxUnlock) (string, error
 				emptyTrans.Vins[i].ScriptPubkeySignature = nil
 			} else {
 				redeemScript, err := hex.DecodeString(unlockData[i].RedeemScript)
-				if err != nil {
+				if err != nil || checkScriptType(redeemScript) != TypeBech32 {
 					return "", errors.New("Invalid redeem script!")
 				}
 				redeemScript = append([]byte{byte(len(redeemScript))}, redeemScript...)
@@ -112,8 +115,8 @@ func SignEmptyRawTransaction(txHex string, unlockData []TxUnlock) (string, error
 				for j := 0; j < i; j++ {
 					emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
 				}
-				emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 			}
+			emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 
 		} else {
 			emptyTrans.Vins[i].ScriptPubkeySignature = sigPub[i].encodeToScript(SigHashAll)
@@ -162,6 +165,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 		return "", errors.New("No signature data found!")
 	}
 
+	if emptyTrans.Witness != nil {
+		return "", errors.New("The transaction is signed already!")
+	}
+
 	if emptyTrans.Vins == nil || len(emptyTrans.Vins) == 0 {
 		return "", errors.New("Invalid empty transaction,no input found!")
 	}
@@ -176,11 +183,23 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 
 	if isMultiSig(unlockData[0].LockScript, unlockData[0].RedeemScript) {
 		redeemBytes, _ := hex.DecodeString(unlockData[0].RedeemScript)
+		if len(emptyTrans.Vins) != 1 || len(redeemBytes) > MaxScriptElementSize {
+			return "", errors.New("Only one multisig input is supported!")
+		}
+		if len(sigPub) != int(redeemBytes[0]-OpCode_1)+1 {
+			return "", errors.New("The number of signatures is not the required one!")
+		}
 		emptyTrans.Vins[0].ScriptPubkeySignature = redeemBytes
 		for i := 0; i < len(sigPub); i++ {
+			if len(sigPub[i].Signature) != 64 || len(sigPub[i].Pubkey) != 33 {
+				return "", errors.New("Invalid signature data!")
+			}
 			emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 		}
 	} else {
+		if len(emptyTrans.Vins) != len(sigPub) {
+			return "", errors.New("The number of transaction inputs and the signature data are not match!")
+		}
 		for i := 0; i < len(emptyTrans.Vins); i++ {
 
 			if sigPub[i].Signature == nil || len(sigPub[i].Signature) != 64 {
@@ -190,39 +209,38 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 				return "", errors.New("Invalid pubkey data!")
 			}
 
-			// bech32 branch
-			if unlockData[i].RedeemScript == "" && strings.Index(unlockData[i].LockScript, "0014") == 0 {
-				unlockData[i].RedeemScript = unlockData[i].LockScript
-				unlockData[i].LockScript = "00"
+			lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+			if err != nil {
+				return "", errors.New("Invalid lock script!")
 			}
+			scriptType := checkScriptType(lockBytes)
 
-			if unlockData[i].RedeemScript == "" {
+			if scriptType == TypeP2PKH {
 
 				emptyTrans.Vins[i].ScriptPubkeySignature = sigPub[i].encodeToScript(SigHashAll)
 				if emptyTrans.Witness != nil {
 					emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
 				}
-			} else {
+			} else if scriptType == TypeP2SH || scriptType == TypeBech32 {
 				if emptyTrans.Witness == nil {
 					for j := 0; j < i; j++ {
 						emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
 					}
 				}
 				emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
-				if unlockData[i].RedeemScript == "" {
-					return "", errors.New("Missing redeem script for a P2SH input!")
-				}
 
-				if unlockData[i].LockScript == "00" {
+				if scriptType == TypeBech32 {
 					emptyTrans.Vins[i].ScriptPubkeySignature = nil
 				} else {
 					redeem, err := hex.DecodeString(unlockData[i].RedeemScript)
-					if err != nil {
+					if err != nil || checkScriptType(redeem) != TypeBech32 {
 						return "", errors.New("Invlalid redeem script!")
 					}
 					redeem = append([]byte{byte(len(redeem))}, redeem...)
 					emptyTrans.Vins[i].ScriptPubkeySignature = redeem
 				}
+			} else {
+				return "", errors.New("Unknown type of lockscript!")
 			}
 		}
 	}
@@ -250,35 +268,45 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock) bool {
 	}
 
 	var sigAndPub []SignaturePubkey
-	if signedTrans.Witness == nil {
-		for _, sp := range signedTrans.Vins {
-			tmp, err := decodeFromScriptBytes(sp.ScriptPubkeySignature)
+	unlock := append([]TxUnlock{}, unlockData...)
+	for i := 0; i < len(signedTrans.Vins); i++ {
+		lockBytes, err := hex.DecodeString(unlock[i].LockScript)
+		if err != nil {
+			return false
+		}
+		script := signedTrans.Vins[i].ScriptPubkeySignature
+		inWitness := signedTrans.Witness != nil && signedTrans.Witness[i].Signature != nil
+		scriptType := checkScriptType(lockBytes)
+		if scriptType == TypeP2PKH {
+			if inWitness {
+				return false
+			}
+			tmp, err := decodeFromScriptBytes(script)
 			if err != nil {
 				return false
 			}
 			sigAndPub = append(sigAndPub, *tmp)
-		}
-	} else {
-		for i := 0; i < len(signedTrans.Vins); i++ {
-			if signedTrans.Witness[i].Signature == nil {
-				tmp, err := decodeFromScriptBytes(signedTrans.Vins[i].ScriptPubkeySignature)
-				if err != nil {
+		} else {
+			if !inWitness {
+				return false
+			}
+			sigAndPub = append(sigAndPub, SignaturePubkey{signedTrans.Witness[i].Signature, signedTrans.Witness[i].Pubkey})
+			if scriptType == TypeBech32 {
+				if len(script) != 0 {
 					return false
 				}
-				sigAndPub = append(sigAndPub, *tmp)
 			} else {
-				sigAndPub = append(sigAndPub, SignaturePubkey{signedTrans.Witness[i].Signature, signedTrans.Witness[i].Pubkey})
-				if strings.Index(unlockData[i].LockScript, "0014") == 0 {
-					continue
+				if len(script) != 23 || script[0] != 22 {
+					return false
 				}
-				unlockData[i].RedeemScript = hex.EncodeToString(signedTrans.Vins[i].ScriptPubkeySignature[1:])
+				unlock[i].RedeemScript = hex.EncodeToString(script[1:])
 			}
 		}
 	}
 
 	signedTrans.Witness = nil
 
-	hashes, err := signedTrans.getHashesForSig(unlockData)
+	hashes, err := signedTrans.getHashesForSig(unlock)
 	if err != nil {
 		return false
 	}
diff --git a/btcLikeTxDriver/txOut.go b/btcLikeTxDriver/txOut.go
index a99cd2d..e3ebf0d 100644
--- a/btcLikeTxDriver/txOut.go
+++ b/btcLikeTxDriver/txOut.go
@@ -26,6 +26,7 @@ func newTxOutForEmptyTrans(vout []Vout) ([]TxOut, error) {
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index bd058bc..5bb1e33 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -52,6 +52,10 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 		return nil, errors.New("No output found in the transaction struct!")
 	}
 
+	if len(t.Vins) > 252 || len(t.Vouts) > 252 {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	ret := []byte{}
 	ret = append(ret, t.Version...)
 	if t.isMultiSig() {
@@ -74,7 +78,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 		ret = append(ret, byte(len(t.Vouts)))
 
 		for _, out := range t.Vouts {
-			if out.amount == nil || len(out.amount) != 8 || out.lockScript == nil {
+			if out.amount == nil || len(out.amount) != 8 || out.lockScript == nil || len(out.lockScript) > 252 {
 				return nil, errors.New("Invalid transaction output!")
 			}
 			ret = append(ret, out.amount...)
@@ -82,7 +86,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			ret = append(ret, out.lockScript...)
 		}
 
-		ret = append(ret, byte(0x04), 0x00)
+		ret = append(ret, byte(len(t.Witness)+2), 0x00)
 		for _, w := range t.Witness {
 			if w.Signature == nil {
 				return nil, errors.New("Miss signature data for a multisig transaction!")
@@ -93,7 +97,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			}
 		}
 
-		ret = append(ret, byte(len(t.Vins[0].ScriptPubkeySignature)))
+		ret = append(ret, lengthBytes(len(t.Vins[0].ScriptPubkeySignature))...)
 
 		ret = append(ret, t.Vins[0].ScriptPubkeySignature...)
 	} else {
@@ -113,6 +117,9 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			if in.ScriptPubkeySignature == nil {
 				ret = append(ret, 0x00)
 			} else {
+				if len(in.ScriptPubkeySignature) > 252 {
+					return nil, errors.New("Invalid transaction input!")
+				}
 				ret = append(ret, byte(len(in.ScriptPubkeySignature)))
 				ret = append(ret, in.ScriptPubkeySignature...)
 			}
@@ -122,7 +129,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 		ret = append(ret, byte(len(t.Vouts)))
 
 		for _, out := range t.Vouts {
-			if out.amount == nil || len(out.amount) != 8 || out.lockScript == nil {
+			if out.amount == nil || len(out.amount) != 8 || out.lockScript == nil || len(out.lockScript) > 252 {
 				return nil, errors.New("Invalid transaction output!")
 			}
 			ret = append(ret, out.amount...)
@@ -276,6 +283,7 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 			} else {
 				//TODO
 				//for multisig
+				return nil, errors.New("Only witness data of a single key can be decoded!")
 			}
 		}
 	}
@@ -292,19 +300,27 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 	return &rawTx, nil
 }
 
+// lengthBytes writes the length of a script of up to 65535 bytes
+func lengthBytes(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return []byte{0xFD, byte(length), byte(length >> 8)}
+}
+
 func isScriptHash(script []byte) bool {
-	if script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
+	if len(script) == 25 && script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
 		return false
 	}
 	return true
 }
 
 func checkScriptType(script []byte) int {
-	if script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
+	if len(script) == 25 && script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
 		return TypeP2PKH
-	} else if script[0] == OpCodeHash160 && script[1] == 0x14 && script[22] == OpCodeEqual {
+	} else if len(script) == 23 && script[0] == OpCodeHash160 && script[1] == 0x14 && script[22] == OpCodeEqual {
 		return TypeP2SH
-	} else if script[0] == 0x00 && script[1] == 0x14 {
+	} else if len(script) == 22 && script[0] == 0x00 && script[1] == 0x14 {
 		return TypeBech32
 	} else {
 		return -1
@@ -336,7 +352,7 @@ func calcSegwitHash(tx Transaction) ([]byte, []byte, []byte, error) {
 
 func genScriptCodeFromRedeemScript(redeem string) ([]byte, error) {
 	redeemBytes, err := hex.DecodeString(redeem)
-	if err != nil {
+	if err != nil || len(redeemBytes) < 2 || len(redeemBytes) > MaxScriptElementSize {
 		return nil, errors.New("Invalid redeem script!")
 	}
 
@@ -378,7 +394,7 @@ func (tx Transaction) calcSegwitBytesForSig(unlockData TxUnlock, txid, vout, seq
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, lengthBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	sigBytes = append(sigBytes, uint64ToLittleEndianBytes(unlockData.Amount)...)
@@ -412,10 +428,11 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 
 		scriptType := checkScriptType(lockBytes)
 		if scriptType == TypeP2SH || scriptType == TypeBech32 {
+			unlock := unlockData[i]
 			if scriptType == TypeBech32 {
-				unlockData[i].RedeemScript = unlockData[i].LockScript
+				unlock.RedeemScript = unlock.LockScript
 			}
-			sigBytes, err = t.calcSegwitBytesForSig(unlockData[i], t.Vins[i].TxID, t.Vins[i].Vout, t.Vins[i].Sequence)
+			sigBytes, err = t.calcSegwitBytesForSig(unlock, t.Vins[i].TxID, t.Vins[i].Vout, t.Vins[i].Sequence)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From c3182235fb5b943d238be63863bfa2e8c26ea593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:09 +0000
Subject: [PATCH 35/42] fix: virtualeconomy: refuse attachments and recipients
 that cannot be written

---
 virtualeconomyTransaction/transaction.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/virtualeconomyTransaction/transaction.go b/virtualeconomyTransaction/transaction.go
index fb0cf1b..de810ed 100644
--- a/virtualeconomyTransaction/transaction.go
+++ b/virtualeconomyTransaction/transaction.go
@@ -44,13 +44,14 @@ func CreateEmptyTransaction(ts TxStruct) (string, error) {
 	binary.BigEndian.PutUint16(feeScale, ts.FeeScale)
 	txBytes = append(txBytes, feeScale...)
 	recipient, err := DecodeCheck(ts.To)
-	if err != nil {
+	if err != nil || len(recipient) != 26 {
 		return "", errors.New("Trying to send VSYS to an invalid address!")
 	}
 	txBytes = append(txBytes, recipient...)
-	if ts.Attachment == "" {
-		txBytes = append(txBytes, attachmentLen...)
+	if ts.Attachment != "" {
+		return "", errors.New("Non-empty attachment is not supported yet!")
 	}
+	txBytes = append(txBytes, attachmentLen...)
 
 	return hex.EncodeToString(txBytes), nil
 }
-- 
2.43.0


From 3a7faa6c73831b2cd647c3cfe025c54411c6a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:09 +0000
Subject: [PATCH 36/42] fix: polkadot: compact encoding of 0 and of values from
 2^63, refuse a bad transfer code, report sender and signature errors

---
 polkadotTransaction/codec.go    | 5 ++++-
 polkadotTransaction/txMethod.go | 5 ++++-
 polkadotTransaction/txStruct.go | 4 ++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/polkadotTransaction/codec.go b/polkadotTransaction/codec.go
index edd827e..c292610 100644
--- a/polkadotTransaction/codec.go
+++ b/polkadotTransaction/codec.go
@@ -89,7 +89,7 @@ func BytesToCompactBytes(bytes []byte) (res []byte) {
 }
 
 func getLeadingZeros(data uint64) int {
-	return 64 - big.NewInt(int64(data)).BitLen()
+	return 64 - new(big.Int).SetUint64(data).BitLen()
 }
 
 func getPrefix(data uint64) string {
@@ -103,6 +103,9 @@ func uint64ToLittleEndianArrayWithoutLeadingZeros(data uint64) string {
 }
 
 func Encode(data uint64) string {
+	if data == 0 {
+		return "00"
+	}
 	if data > fourByteModeMaxValue {
 		return getPrefix(data) + uint64ToLittleEndianArrayWithoutLeadingZeros(data)
 	}
diff --git a/polkadotTransaction/txMethod.go b/polkadotTransaction/txMethod.go
index cc85c5c..710bb88 100644
--- a/polkadotTransaction/txMethod.go
+++ b/polkadotTransaction/txMethod.go
@@ -38,7 +38,10 @@ func (mt MethodTransfer) ToBytes(transferCode string) ([]byte, error) {
 		return nil, errors.New("invalid method")
 	}
 
-	ret, _ := hex.DecodeString(transferCode)
+	ret, err := hex.DecodeString(transferCode)
+	if err != nil || len(ret) == 0 {
+		return nil, errors.New("invalid transfer code")
+	}
 	if AccounntIDFollow {
 		ret = append(ret, 0xff)
 	}
diff --git a/polkadotTransaction/txStruct.go b/polkadotTransaction/txStruct.go
index 8f4a389..826ab5b 100644
--- a/polkadotTransaction/txStruct.go
+++ b/polkadotTransaction/txStruct.go
@@ -115,7 +115,7 @@ func (ts TxStruct) GetSignedTransaction (transfer_code, signature string) (strin
 
 	from, err := hex.DecodeString(ts.SenderPubkey)
 	if err != nil || len(from) != 32 {
-		return "", nil
+		return "", errors.New("invalid sender public key")
 	}
 
 	signed = append(signed, from...)
@@ -124,7 +124,7 @@ func (ts TxStruct) GetSignedTransaction (transfer_code, signature string) (strin
 
 	sig, err := hex.DecodeString(signature)
 	if err != nil || len(sig) != 64 {
-		return "", nil
+		return "", errors.New("invalid signature")
 	}
 	signed = append(signed, sig...)
 
-- 
2.43.0


From 5c6cf749c6e2b3054ad66fb9779e1648b9b9bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:09 +0000
Subject: [PATCH 37/42] fix: waykichain: refuse register IDs, amounts and
 lengths that were written wrongly, and short transactions

---
 waykichainTransaction/txStruct.go | 43 ++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/waykichainTransaction/txStruct.go b/waykichainTransaction/txStruct.go
index be2fa1f..f378429 100644
--- a/waykichainTransaction/txStruct.go
+++ b/waykichainTransaction/txStruct.go
@@ -27,6 +27,9 @@ func NewCommonTx(fromUserID, toAddress string, amount, fee, validHeight int64) (
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
+	if fee < 0 || amount < 0 {
+		return nil, errors.New("Negative fee or amount!")
+	}
 	commonTx.ValidHeight = int64ToUvarint(validHeight)
 
 	if !isRegIdStr(fromUserID) {
@@ -35,7 +38,10 @@ func NewCommonTx(fromUserID, toAddress string, amount, fee, validHeight int64) (
 	ids := strings.Split(fromUserID, "-")
 	idBytes := []byte{}
 	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
+		data, err := strconv.ParseInt(strings.TrimSpace(id), 10, 64)
+		if err != nil {
+			return nil, errors.New("Invalid register ID!")
+		}
 		idBytes = append(idBytes, int64ToUvarint(data)...)
 	}
 	commonTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
@@ -100,6 +106,9 @@ func NewRegisterAccountTx(fromPubkey string, fee, validHeight int64) (*RegisterA
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
+	if fee < 0 {
+		return nil, errors.New("Negative fee!")
+	}
 	registerAccountTx.ValidHeight = int64ToUvarint(validHeight)
 	pubkey, err := hex.DecodeString(fromPubkey)
 	if err != nil || len(pubkey) != 0x21 {
@@ -158,6 +167,9 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
+	if fee < 0 || amount < 0 {
+		return nil, errors.New("Negative fee or amount!")
+	}
 	contractTx.ValidHeight = int64ToUvarint(validHeight)
 	if !isRegIdStr(fromUserID) {
 		return nil, errors.New("Invalid from register ID!")
@@ -165,7 +177,10 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 	ids := strings.Split(fromUserID, "-")
 	idBytes := []byte{}
 	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
+		data, err := strconv.ParseInt(strings.TrimSpace(id), 10, 64)
+		if err != nil {
+			return nil, errors.New("Invalid register ID!")
+		}
 		idBytes = append(idBytes, int64ToUvarint(data)...)
 	}
 	contractTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
@@ -176,7 +191,10 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 	ids = strings.Split(appID, "-")
 	idBytes = []byte{}
 	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
+		data, err := strconv.ParseInt(strings.TrimSpace(id), 10, 64)
+		if err != nil {
+			return nil, errors.New("Invalid register ID!")
+		}
 		idBytes = append(idBytes, int64ToUvarint(data)...)
 	}
 	contractTx.AppID = append([]byte{byte(len(idBytes))}, idBytes...)
@@ -186,7 +204,7 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 	contractTx.Amount = int64ToUvarint(amount)
 
 	contract, err := hex.DecodeString(contractHex)
-	if err != nil {
+	if err != nil || len(contract) > 0xFC {
 		return nil, errors.New("Invalid contract hex!")
 	}
 	contractTx.ContractHex = append([]byte{byte(len(contract))}, contract...)
@@ -242,12 +260,21 @@ func NewUcoinTransferTx(fromUserID, toAddress, coin string, validHeight, fee, am
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
+	if fee < 0 || amount < 0 {
+		return nil, errors.New("Negative fee or amount!")
+	}
 	ucoinTransferTx.ValidHeight = int64ToUvarint(validHeight)
 
+	if !isRegIdStr(fromUserID) {
+		return nil, errors.New("Invalid from register ID!")
+	}
 	ids := strings.Split(fromUserID, "-")
 	idBytes := []byte{}
 	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
+		data, err := strconv.ParseInt(strings.TrimSpace(id), 10, 64)
+		if err != nil {
+			return nil, errors.New("Invalid register ID!")
+		}
 		idBytes = append(idBytes, int64ToUvarint(data)...)
 	}
 	ucoinTransferTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
@@ -263,7 +290,7 @@ func NewUcoinTransferTx(fromUserID, toAddress, coin string, validHeight, fee, am
 
 	ucoinTransferTx.To = append([]byte{byte(len(destID))}, destID...)
 
-	if coin == "" {
+	if coin == "" || len(coin) > 0xFC {
 		return nil, errors.New("Invalid coin name!")
 	}
 
@@ -316,6 +343,10 @@ func getHashFromEmptyRawTrans(emptyTrans string) ([]byte, error) {
 		return nil, errors.New("Invalid transaction hex data!")
 	}
 
+	if len(txBytes) < 2 {
+		return nil, errors.New("Invalid transaction hex data!")
+	}
+
 	if (txBytes[0] != TxType_COMMON && txBytes[0] != TxType_REGACCT && txBytes[0] != TxType_CONTRACT && txBytes[0] != TxType_UcoinTransfer) || txBytes[1] != byte(Version) {
 		return nil, errors.New("Invalid transaction hex data!")
 	}
-- 
2.43.0


From c3ebb45c395591c4730e2f21330b93d373cf55ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:09 +0000
Subject: [PATCH 38/42] fix: cosmos: a fee without coins no longer crashes

---
 cosmosTransaction/txStruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmosTransaction/txStruct.go b/cosmosTransaction/txStruct.go
index 85e803a..4551b51 100644
--- a/cosmosTransaction/txStruct.go
+++ b/cosmosTransaction/txStruct.go
@@ -12,7 +12,7 @@ type TxStruct struct {
 }
 
 func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStruct, message []Message) TxStruct {
-	if fee.Amount[0].Amount == "" {
+	if len(fee.Amount) == 0 || fee.Amount[0].Amount == "" {
 		fee.Amount = Coins{}
 	}
 	return TxStruct{
-- 
2.43.0


From f46cf55fa3721446adcd6182f8f530e8c475a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:18 +0000
Subject: [PATCH 39/42] fix: elastos refuses previous transaction and asset ids
 that are not 32 bytes long

---
 elastosTransaction/txIn.go  | 2 +-
 elastosTransaction/txOut.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/elastosTransaction/txIn.go b/elastosTransaction/txIn.go
index 94342e6..77cc91f 100644
--- a/elastosTransaction/txIn.go
+++ b/elastosTransaction/txIn.go
@@ -10,7 +10,7 @@ type Input struct {
 
 func (in Vin) NewInput() (*Input, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid previous transaction ID!")
 	}
 	vout := uint16ToLittleEndianBytes(in.Vout)
diff --git a/elastosTransaction/txOut.go b/elastosTransaction/txOut.go
index 29b3251..16edb93 100644
--- a/elastosTransaction/txOut.go
+++ b/elastosTransaction/txOut.go
@@ -13,7 +13,7 @@ type Output struct {
 
 func (out Vout) NewOutput() (*Output, error) {
 	assetID, err := reverseHexToBytes(out.AssetID)
-	if err != nil {
+	if err != nil || len(assetID) != 32 {
 		return nil, errors.New("Invalid Asset ID!")
 	}
 
-- 
2.43.0


From d98499906370d9e64d0aa196abd54646835d65f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:21 +0000
Subject: [PATCH 40/42] fix: evaio: a fee without coins no longer crashes

---
 evaioTransaction/txStruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaioTransaction/txStruct.go b/evaioTransaction/txStruct.go
index 7cbfcae..5d7a515 100644
--- a/evaioTransaction/txStruct.go
+++ b/evaioTransaction/txStruct.go
@@ -12,7 +12,7 @@ type TxStruct struct {
 }
 
 func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStruct, message []Message) TxStruct {
-	if fee.Amount[0].Amount == "" {
+	if len(fee.Amount) == 0 || fee.Amount[0].Amount == "" {
 		fee.Amount = Coins{}
 	}
 	return TxStruct{
-- 
2.43.0


From acb8d6224384fa393de7d3b01a199482197964b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:08 +0000
Subject: [PATCH 41/42] fix: ontology: refuse what cannot be written or read,
 decode signed transactions, report errors

---
 ontologyTransaction/transaction.go  | 13 +++++++++++++
 ontologyTransaction/txInvokeCode.go | 12 ++++++++++++
 ontologyTransaction/txSigPub.go     |  3 +++
 ontologyTransaction/txStruct.go     | 19 +++++++++----------
 4 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/ontologyTransaction/transaction.go b/ontologyTransaction/transaction.go
index ad4e0e4..b06fecf 100644
--- a/ontologyTransaction/transaction.go
+++ b/ontologyTransaction/transaction.go
@@ -36,6 +36,9 @@ func CreateRawTransactionAndHash(gasPrice, gasLimit uint64, txState TxState) (st
 	}
 	randNounce := make([]byte, 4)
 	_, err = rand.Read(randNounce[:])
+	if err != nil {
+		return "", nil, err
+	}
 
 	txBytes, err := NewEmptyTransaction(txState.AssetType, TxTypeInvoke, littleEndianBytesToUint32(randNounce), gasPrice, gasLimit, txState.Payer, payLoad).ToBytes()
 	if err != nil {
@@ -62,6 +65,9 @@ func CreateRawTransactionAndHashV2(gasPrice, gasLimit uint64, txState TxStateV2)
 	}
 	randNounce := make([]byte, 4)
 	_, err = rand.Read(randNounce[:])
+	if err != nil {
+		return "", nil, err
+	}
 
 	txBytes, err := NewEmptyTransaction(txState.AssetType, TxTypeInvoke, littleEndianBytesToUint32(randNounce), gasPrice, gasLimit, txState.Payer, payLoad).ToBytes()
 	if err != nil {
@@ -96,6 +102,10 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 		return false, "", err
 	}
 
+	if tx.SigDatas != nil {
+		return false, "", errors.New("Transaction is signed already!")
+	}
+
 	hashBytes := owcrypt.Hash(owcrypt.Hash(txBytes[:len(txBytes)-1], 0, owcrypt.HASH_ALG_DOUBLE_SHA256), 0, owcrypt.HASH_ALG_SHA256)
 	sigData.Nrequired = 0
 	for _, sp := range sigpub {
@@ -108,5 +118,8 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 	tx.SigDatas = append(tx.SigDatas, sigData)
 
 	signedTx, err := tx.ToBytes()
+	if err != nil {
+		return false, "", err
+	}
 	return true, hex.EncodeToString(signedTx), nil
 }
diff --git a/ontologyTransaction/txInvokeCode.go b/ontologyTransaction/txInvokeCode.go
index bdfbde9..3bd9e62 100644
--- a/ontologyTransaction/txInvokeCode.go
+++ b/ontologyTransaction/txInvokeCode.go
@@ -61,6 +61,10 @@ func NewNativeInvokeV2(param TxStateV2) NativeInvokeV2 {
 }
 
 func (ni NativeInvoke) ToBytes() ([]byte, error) {
+	if ni.Param.AssetType != AssetONT && ni.Param.AssetType != AssetONG && ni.Param.AssetType != AssetONGWithdraw {
+		return nil, errors.New("Unknown asset type!")
+	}
+
 	ret := []byte{0x00}
 
 	ret = append(ret, OpCodeNewStruct, OpCodeToALTStack, OpCodeDupFromALTStack)
@@ -127,6 +131,14 @@ func (ni NativeInvoke) ToBytes() ([]byte, error) {
 }
 
 func (ni NativeInvokeV2) ToBytes() ([]byte, error) {
+	if ni.Param.AssetType != AssetONT && ni.Param.AssetType != AssetONG && ni.Param.AssetType != AssetONGWithdraw {
+		return nil, errors.New("Unknown asset type!")
+	}
+
+	if ni.Param.Amount == nil || ni.Param.Amount.Sign() < 0 {
+		return nil, errors.New("Invalid amount!")
+	}
+
 	ret := []byte{0x00}
 
 	ret = append(ret, OpCodeNewStruct, OpCodeToALTStack, OpCodeDupFromALTStack)
diff --git a/ontologyTransaction/txSigPub.go b/ontologyTransaction/txSigPub.go
index 4d9a442..d152dd1 100644
--- a/ontologyTransaction/txSigPub.go
+++ b/ontologyTransaction/txSigPub.go
@@ -105,6 +105,9 @@ func decodeSigPubBytes(sp []byte) (*SigPub, error) {
 	}
 	index += 2
 
+	if index+33 > limit {
+		return nil, errors.New("Invalid signature & public key data!")
+	}
 	ret.PublicKey = sp[index : index+33]
 	index += 33
 
diff --git a/ontologyTransaction/txStruct.go b/ontologyTransaction/txStruct.go
index 76d618b..39cbc5a 100644
--- a/ontologyTransaction/txStruct.go
+++ b/ontologyTransaction/txStruct.go
@@ -24,7 +24,10 @@ func NewEmptyTransaction(assetType int, txType byte, nonce uint32, gasPrice, gas
 	} else {
 		version = ONGContractVersion
 	}
-	_, payerBytes, _ := DecodeCheck(payer)
+	prefix, payerBytes, err := DecodeCheck(payer)
+	if err != nil || prefix != AddressPrefix {
+		payerBytes = nil // refused by ToBytes
+	}
 	return Transaction{version, txType, uint32ToLittleEndianBytes(nonce), uint64ToLittleEndianBytes(gasPrice), uint64ToLittleEndianBytes(gasLimit), payerBytes, payload, DefaultAttribute, nil}
 }
 
@@ -78,7 +81,7 @@ func (t Transaction) ToBytes() ([]byte, error) {
 		return nil, errors.New("Invalid payer!")
 	}
 	ret = append(ret, t.Payer...)
-	if t.Payload == nil || len(t.Payload) == 0 {
+	if t.Payload == nil || len(t.Payload) == 0 || len(t.Payload) > 0xFC {
 		return nil, errors.New("Invalid invoke code!")
 	}
 	ret = append(ret, byte(len(t.Payload)))
@@ -164,7 +167,7 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 	payloadLen := txBytes[index]
 	index++
 
-	if payloadLen == 0 {
+	if payloadLen == 0 || payloadLen > 0xFC {
 		return nil, errors.New("Invalid trnsaction data!")
 	}
 
@@ -196,13 +199,8 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		if index != limit {
 			return nil, errors.New("Invalid transaction data!")
 		}
-	} else if txBytes[index] == 0x01 {
-		sigpub, err := decodeSigPubBytes(txBytes[index:])
-		if err != nil {
-			return nil, err
-		}
-		tx.SigDatas = append(tx.SigDatas, SigData{0, []SigPub{*sigpub}})
 	} else {
+		var sigData SigData
 		sigLen := int(txBytes[index])
 		index++
 
@@ -214,12 +212,13 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 			if err != nil {
 				return nil, err
 			}
-			tx.SigDatas = append(tx.SigDatas, SigData{0, []SigPub{*sigpub}})
+			sigData.SigPubs = append(sigData.SigPubs, *sigpub)
 			index += 102
 		}
 		if index != limit {
 			return nil, errors.New("Invalid transaction data!")
 		}
+		tx.SigDatas = append(tx.SigDatas, sigData)
 	}
 
 	return &tx, nil
-- 
2.43.0


From 0870eaeef4708b70abff55e4f76085efe36088e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:24 +0000
Subject: [PATCH 42/42] fix: bigbang: refuse anchors that are not 32 bytes,
 lists and data too long for their length byte, and an empty address

---
 bigbangTransaction/address.go  | 2 +-
 bigbangTransaction/txIn.go     | 2 +-
 bigbangTransaction/txStruct.go | 5 ++++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bigbangTransaction/address.go b/bigbangTransaction/address.go
index 680ab08..0c1e8c1 100644
--- a/bigbangTransaction/address.go
+++ b/bigbangTransaction/address.go
@@ -6,7 +6,7 @@ import (
 )
 
 func addressDecode(address string) ([]byte, error) {
-	if address[:1] != pubkeyPrefix {
+	if len(address) == 0 || address[:1] != pubkeyPrefix {
 		return nil, errors.New("Invalid address, only public key address supported!")
 	}
 
diff --git a/bigbangTransaction/txIn.go b/bigbangTransaction/txIn.go
index 62fa5ba..545019c 100644
--- a/bigbangTransaction/txIn.go
+++ b/bigbangTransaction/txIn.go
@@ -24,5 +24,5 @@ func NewTxIn(txid string, vout byte) (*TxIn, error) {
 }
 
 func (id TxIn) ToBytes() []byte {
-	return append(id.TxID, id.Vout)
+	return append(append([]byte{}, id.TxID...), id.Vout)
 }
diff --git a/bigbangTransaction/txStruct.go b/bigbangTransaction/txStruct.go
index 539c1c6..dfb7879 100644
--- a/bigbangTransaction/txStruct.go
+++ b/bigbangTransaction/txStruct.go
@@ -28,7 +28,7 @@ func NewTxStruct(version, txtype uint16, timestamp, lockUntil uint32, anchor str
 	tx.LockUntil = uint32ToLittleEndianBytes(lockUntil)
 
 	anchorBytes, err := reverseHexToBytes(anchor)
-	if err != nil {
+	if err != nil || len(anchorBytes) != 32 {
 		return nil, errors.New("Invalid anchor string!")
 	}
 	tx.Anchor = anchorBytes
@@ -36,6 +36,9 @@ func NewTxStruct(version, txtype uint16, timestamp, lockUntil uint32, anchor str
 	if inputs == nil || len(inputs) == 0 {
 		return nil, errors.New("Miss input!")
 	}
+	if len(inputs) > 0xFC || len(data) > 0xFC {
+		return nil, errors.New("Too many inputs or too much data!")
+	}
 
 	for _, in := range inputs {
 		input, err := NewTxIn(in.TxID, in.Vout)
-- 
2.43.0

