From 55c41ac7da3de2df46ad01d2ca1ba2c9cb1263e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:45 +0000
Subject: [PATCH 01/28] fix: include output count growth in fee when adding
 change

Adding the 253rd output makes the output count of the serialized tx two bytes
larger. AdjustFee did not include that in the fee of the new change output, so
the fee came out below the estimated fee.
---
 fees.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fees.go b/fees.go
index e054ae6..aa1adb7 100644
--- a/fees.go
+++ b/fees.go
@@ -357,6 +357,10 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 			} else {
 				newSize = currentSize + uint64(OutputSize(tx.ChangeScript))
 			}
+
+			// Adding an output can increase the size of the output count.
+			outputCount := uint64(len(tx.MsgTx.TxOut))
+			newSize += uint64(VarIntSerializeSize(outputCount+1) - VarIntSerializeSize(outputCount))
 			newFee := EstimatedFeeValue(newSize, float64(tx.FeeRate))
 
 			changeOutputFee := newFee - currentFee
-- 
2.43.0


From 0abf6865202d5e0221bad3caec119455d4689d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:19 +0000
Subject: [PATCH 02/28] fix: sign the exact bytes after the last code separator

The remaining script items were written again with minimal pushes, so a
locking script with other push encodings was hashed with different bytes.
---
 sig_hash.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/sig_hash.go b/sig_hash.go
index ac29cb8..decab27 100644
--- a/sig_hash.go
+++ b/sig_hash.go
@@ -219,23 +219,18 @@ func writeSignatureHashPreimageBytes(w io.Writer, tx *wire.MsgTx, index int, loc
 // NOTE: This is only correct if the last OP_CODESEPARATOR is actually executed when the script is
 // executed, so there is room for error here depending on the locking script. --ce
 func afterOpCodeSeparator(lockScript []byte) ([]byte, error) {
-	items, err := bitcoin.ParseScriptItems(bytes.NewReader(lockScript), -1)
-	if err != nil {
-		return nil, errors.Wrap(err, "parse")
-	}
+	start := 0 // If no OP_CODESEPARATOR is found then the full locking script is returned.
+	buf := bytes.NewReader(lockScript)
+	for buf.Len() > 0 {
+		item, err := bitcoin.ParseScript(buf)
+		if err != nil {
+			return nil, errors.Wrap(err, "parse")
+		}
 
-	itemCount := len(items)
-	for i := itemCount - 1; i >= 0; i-- {
-		item := items[i]
 		if item.Type == bitcoin.ScriptItemTypeOpCode && item.OpCode == bitcoin.OP_CODESEPARATOR {
-			if i == itemCount-1 {
-				return nil, nil // OP_CODESEPARATOR is the last op code of the script
-			}
-
-			return items[i+1:].Script()
+			start = len(lockScript) - buf.Len()
 		}
 	}
 
-	// No OP_CODESEPARATOR found so return the full locking script.
-	return lockScript, nil
+	return lockScript[start:], nil
 }
-- 
2.43.0


From 52b56171fda5a1ec6068062d692197b6f4716690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:12 +0000
Subject: [PATCH 03/28] fix: don't randomize outputs too small to vary when
 breaking a value

Break values below five could ask for a random number below zero and panic.
BreakQuantity already has the same condition.
---
 break_value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/break_value.go b/break_value.go
index abfebc6..563c20d 100644
--- a/break_value.go
+++ b/break_value.go
@@ -85,7 +85,7 @@ func BreakValue(value, breakValue uint64, addresses []AddressKeyID,
 			outputValue *= 1000
 		}
 
-		if rand.Intn(2) == 1 {
+		if outputValue >= 10 && rand.Intn(2) == 1 {
 			outputValue = outputValue - (outputValue / 10) +
 				uint64(rand.Int63n(int64(outputValue/5)))
 		}
@@ -218,7 +218,7 @@ func BreakValueLockingScripts(value, breakValue uint64, lockingScripts []bitcoin
 			outputValue *= 1000
 		}
 
-		if rand.Intn(2) == 1 {
+		if outputValue >= 10 && rand.Intn(2) == 1 {
 			outputValue = outputValue - (outputValue / 10) +
 				uint64(rand.Int63n(int64(outputValue/5)))
 		}
-- 
2.43.0


From 6f849cb563015884faf5c10b18b58cfdf0a2065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:12 +0000
Subject: [PATCH 04/28] fix: allow breaking a value to a single locking script

A single locking script caused a division by zero. BreakValue already handles
a single address.
---
 break_value.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/break_value.go b/break_value.go
index 563c20d..ecddcc6 100644
--- a/break_value.go
+++ b/break_value.go
@@ -169,7 +169,12 @@ func BreakValueLockingScripts(value, breakValue uint64, lockingScripts []bitcoin
 	// Choose random multiples of breakValue until the value is taken up.
 
 	// Find the average value to break the value into the provided lockingScripts
-	average := 2 * (value / uint64(len(lockingScripts)-1))
+	var average uint64
+	if len(lockingScripts) == 1 {
+		average = value
+	} else {
+		average = 2 * (value / uint64(len(lockingScripts)-1))
+	}
 
 	// Find the power to use for choosing random values
 	factor := average / breakValue
-- 
2.43.0


From 4d8bad0bc105f5efb19969fbc45868073dfddfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:12 +0000
Subject: [PATCH 05/28] fix: don't exceed the count when breaking a quantity

The remainder was appended after count quantities had already been chosen, and
a count of one caused a division by zero.
---
 break_value.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/break_value.go b/break_value.go
index ecddcc6..b15c1f3 100644
--- a/break_value.go
+++ b/break_value.go
@@ -299,7 +299,12 @@ func BreakQuantity(value, breakValue uint64, count int) ([]uint64, error) {
 	// Choose random multiples of breakValue until the value is taken up.
 
 	// Find the average value to break the value into the provided addresses
-	average := 2 * (value / uint64(count-1))
+	var average uint64
+	if count == 1 {
+		average = value
+	} else {
+		average = 2 * (value / uint64(count-1))
+	}
 
 	// Find the power to use for choosing random values
 	factor := average / breakValue
@@ -319,7 +324,7 @@ func BreakQuantity(value, breakValue uint64, count int) ([]uint64, error) {
 	rand.Seed(time.Now().UnixNano())
 	result := make([]uint64, 0, count)
 	nextIndex := 0
-	for i := 0; i < count; i++ {
+	for i := 0; i < count-1; i++ { // leave room for any remainder
 		if remaining < breakValue {
 			break // remaining amount is less than dust required to include next address
 		}
-- 
2.43.0


From 73886cbe91f4bec78a1a0404667a52b6da0abe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:25 +0000
Subject: [PATCH 06/28] fix: leave change too small for an output as fee when
 funding

When the fee for an output is above the dust limit, AddFunding tried to add a
change output that AddOutput refuses and failed with a below dust error.
---
 inputs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inputs.go b/inputs.go
index d13c0e7..587a978 100644
--- a/inputs.go
+++ b/inputs.go
@@ -219,7 +219,8 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 					}
 				}
 
-				if change > changeDustLimit+changeOutputFee {
+				// A new output must also be worth the fee to include it to be accepted.
+				if change > changeDustLimit+changeOutputFee && change >= 2*changeOutputFee {
 					// Add new change output
 					change -= changeOutputFee
 					if len(tx.ChangeScript) == 0 {
-- 
2.43.0


From 2c20ada2f7710ebad76588d75d5275bb0edfca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:52 +0000
Subject: [PATCH 07/28] fix: include input and output count growth when adding
 funding

Crossing 252 inputs or outputs makes the count two bytes longer. The funding
was calculated without these bytes and could be short of the estimated fee.
---
 inputs.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/inputs.go b/inputs.go
index 587a978..dcd77e7 100644
--- a/inputs.go
+++ b/inputs.go
@@ -188,6 +188,11 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 		changeOutputFee = uint64(float32(P2PKHOutputSize) * tx.FeeRate)
 	}
 
+	// Adding a change output can increase the size of the output count.
+	outputCount := uint64(len(tx.MsgTx.TxOut))
+	changeOutputFee += EstimatedFeeValue(uint64(VarIntSerializeSize(outputCount+1)-
+		VarIntSerializeSize(outputCount)), float64(tx.FeeRate))
+
 	for _, utxo := range utxos {
 		if err := tx.AddInputUTXO(utxo); err != nil {
 			if errors.Cause(err) == ErrDuplicateInput {
@@ -203,6 +208,11 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 		}
 		neededFunding += inputFee // Add cost of input
 
+		// Adding an input can increase the size of the input count.
+		inputCount := uint64(len(tx.MsgTx.TxIn))
+		neededFunding += EstimatedFeeValue(uint64(VarIntSerializeSize(inputCount)-
+			VarIntSerializeSize(inputCount-1)), float64(tx.FeeRate))
+
 		if tx.SendMax {
 			continue
 		}
-- 
2.43.0


From dcd4ae26c6ac427778c973eef4b0f3a7e5944925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:07 +0000
Subject: [PATCH 08/28] fix: don't require change addresses when there is a
 remainder output

AddFundingBreakChange indexed the first change address even when it was not
used. Without a remainder output and addresses it now reports that a change
address is needed.
---
 inputs.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/inputs.go b/inputs.go
index dcd77e7..798712f 100644
--- a/inputs.go
+++ b/inputs.go
@@ -291,13 +291,19 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 	}
 
 	firstChangeOutputSize := uint64(0)
-	if !remainderIncluded && len(changeAddresses) > 0 {
+	var outputFee, inputFee uint64
+	if !remainderIncluded {
+		if len(changeAddresses) == 0 {
+			return errors.Wrap(ErrChangeAddressNeeded, "no change addresses")
+		}
+
 		lockingScript, err := changeAddresses[0].Address.LockingScript()
 		if err != nil {
 			return errors.Wrap(err, "first change locking script")
 		}
 
 		firstChangeOutputSize = uint64(OutputSize(lockingScript))
+		outputFee, inputFee, _ = OutputTotalCost(lockingScript, tx.FeeRate)
 	}
 
 	inputValue := tx.InputValue()
@@ -306,13 +312,6 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 	feeRate := float64(tx.FeeRate)
 	estFeeValue := EstimatedFeeValue(estSize, feeRate)
 
-	changeLockingScript, err := changeAddresses[0].Address.LockingScript()
-	if err != nil {
-		return errors.Wrap(err, "change locking script")
-	}
-
-	outputFee, inputFee, _ := OutputTotalCost(changeLockingScript, tx.FeeRate)
-
 	// Check if tx is already funded.
 	if !tx.SendMax && inputValue > outputValue && inputValue-outputValue >= estFeeValue {
 		if !remainderIncluded {
-- 
2.43.0


From ef4aec2904950a4b15967596a2cb1f43728bca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:13 +0000
Subject: [PATCH 09/28] fix: recognize funded transactions when breaking change

AddFundingBreakChange reported insufficient value when the inputs covered the
outputs and the fee but not a change output. When the existing inputs were
above what was needed, the needed funding wrapped around and more coins never
helped.
---
 inputs.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/inputs.go b/inputs.go
index 798712f..a71dbef 100644
--- a/inputs.go
+++ b/inputs.go
@@ -329,14 +329,15 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 	}
 
 	if len(utxos) == 0 {
+		if !tx.SendMax && inputValue >= outputValue+tx.EstimatedFee() {
+			return nil // Funded, but there is not enough for a change output
+		}
+
 		return errors.Wrap(ErrInsufficientValue, fmt.Sprintf("no more utxos: %d/%d", inputValue,
 			outputValue+estFeeValue))
 	}
 
-	// Calculate additional funding needed. Include cost of first added input.
 	// TODO Add support for input scripts other than P2PKH.
-	estFeeValue = EstimatedFeeValue(estSize, feeRate)
-	neededFunding := estFeeValue + outputValue - inputValue
 	duplicateValue := uint64(0)
 
 	for _, utxo := range utxos {
@@ -355,20 +356,18 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 
 		estSize += uint64(inputSize)
 		estFeeValue = EstimatedFeeValue(estSize, feeRate)
-		neededFunding = estFeeValue + outputValue - inputValue
 		inputValue += utxo.Value
 
 		if tx.SendMax {
 			continue
 		}
 
-		if neededFunding <= utxo.Value {
+		if inputValue >= outputValue+estFeeValue {
 			// Funding complete
 			// Re-calculate fee without estimating first change output because BreakValue will take
 			// the fees out of the values.
 			finalFeeValue := EstimatedFeeValue(estSize-firstChangeOutputSize, feeRate)
-			finalNeededFunding := finalFeeValue + outputValue - inputValue + utxo.Value
-			changeValue := utxo.Value - finalNeededFunding
+			changeValue := inputValue - outputValue - finalFeeValue
 
 			if remainderIncluded {
 				for i, output := range tx.Outputs {
@@ -398,16 +397,16 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 
 			return nil
 		}
-
-		// More UTXOs required
-		estFeeValue = EstimatedFeeValue(estSize, feeRate)
-		neededFunding = estFeeValue + outputValue - inputValue
 	}
 
 	if tx.SendMax {
 		return tx.CalculateFee()
 	}
 
+	if inputValue >= outputValue+tx.EstimatedFee() {
+		return nil // Funded, but there is not enough for a change output
+	}
+
 	available := uint64(0)
 	for _, input := range tx.Inputs {
 		available += input.Value
-- 
2.43.0


From df5cc4c95c03627580c2987c8de5098703607da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:22 +0000
Subject: [PATCH 10/28] fix: include input and output count growth when
 breaking change

Crossing 252 inputs or outputs makes the count two bytes longer. These bytes
were missing from the estimate used for funding.
---
 inputs.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/inputs.go b/inputs.go
index a71dbef..0a71862 100644
--- a/inputs.go
+++ b/inputs.go
@@ -309,6 +309,12 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 	inputValue := tx.InputValue()
 	outputValue := tx.OutputValue(true)
 	estSize := uint64(tx.EstimatedSize()) + firstChangeOutputSize
+	if !remainderIncluded {
+		// Adding change outputs can increase the size of the output count.
+		outputCount := len(tx.MsgTx.TxOut)
+		estSize += uint64(VarIntSerializeSize(uint64(outputCount+len(changeAddresses))) -
+			VarIntSerializeSize(uint64(outputCount)))
+	}
 	feeRate := float64(tx.FeeRate)
 	estFeeValue := EstimatedFeeValue(estSize, feeRate)
 
@@ -354,7 +360,10 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 			return errors.Wrap(err, "input size")
 		}
 
-		estSize += uint64(inputSize)
+		// Adding an input can increase the size of the input count.
+		inputCount := uint64(len(tx.MsgTx.TxIn))
+		estSize += uint64(inputSize + VarIntSerializeSize(inputCount) -
+			VarIntSerializeSize(inputCount-1))
 		estFeeValue = EstimatedFeeValue(estSize, feeRate)
 		inputValue += utxo.Value
 
-- 
2.43.0


From 701fde82e1b35b83345db94995dd5d8e9e65601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:11 +0000
Subject: [PATCH 11/28] fix: don't wrap the value when subtracting from an
 output below dust

Subtracting from an output worth less than its dust limit wrapped around and
was accepted. Any amount was then subtracted, which could wrap the output
value too. Refuse to subtract from such an output.
---
 outputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/outputs.go b/outputs.go
index 413ce67..36cdf49 100644
--- a/outputs.go
+++ b/outputs.go
@@ -268,7 +268,7 @@ func (tx *TxBuilder) SubtractValueFromOutput(index uint32, value uint64) error {
 
 	dust := DustLimitForOutput(tx.MsgTx.TxOut[index], tx.DustFeeRate)
 
-	if tx.MsgTx.TxOut[index].Value-dust < value {
+	if tx.MsgTx.TxOut[index].Value < dust || tx.MsgTx.TxOut[index].Value-dust < value {
 		return fmt.Errorf("Output value too small to subtract : %d - %d (dust %d)",
 			tx.MsgTx.TxOut[index].Value, value, dust)
 	}
-- 
2.43.0


From 01d52655ad83c007d1b6c5df7516f69dca7a2091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:06 +0000
Subject: [PATCH 12/28] fix: refuse to insert an output past the end

InsertOutput panicked for an index after the end of the outputs. Return an
error like InsertInput does.
---
 outputs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/outputs.go b/outputs.go
index 36cdf49..78b9980 100644
--- a/outputs.go
+++ b/outputs.go
@@ -201,6 +201,10 @@ func (tx *TxBuilder) AddOutput(lockScript bitcoin.Script, value uint64,
 func (tx *TxBuilder) InsertOutput(index int, lockScript bitcoin.Script, value uint64,
 	isRemainder, isDust bool) error {
 
+	if index > len(tx.MsgTx.TxOut) {
+		return errors.New("Output index out of range")
+	}
+
 	output := &OutputSupplement{
 		IsRemainder: isRemainder,
 		IsDust:      isDust,
-- 
2.43.0


From 329cef510f22b0cb45584443b2b505574c8039b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:44 +0000
Subject: [PATCH 13/28] fix: refuse to update the input after the last one

UpdateInputUTXO accepted an index equal to the number of inputs and then
panicked.
---
 inputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inputs.go b/inputs.go
index 0a71862..742d0c6 100644
--- a/inputs.go
+++ b/inputs.go
@@ -43,7 +43,7 @@ func (tx *TxBuilder) AddInputUTXO(utxo bitcoin.UTXO) error {
 }
 
 func (tx *TxBuilder) UpdateInputUTXO(index int, utxo bitcoin.UTXO) error {
-	if index > len(tx.MsgTx.TxIn) {
+	if index >= len(tx.MsgTx.TxIn) {
 		return errors.New("Input index out of range")
 	}
 
-- 
2.43.0


From 7b69ad0215cdd24c4bcc656cd83af13526b18d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:50 +0000
Subject: [PATCH 14/28] fix: keep output data with its output when randomizing
 after an index

RandomizeOutputsAfter paired the shuffled outputs with the data of the first
outputs, so marks and key ids ended up on other outputs.
---
 break_value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/break_value.go b/break_value.go
index b15c1f3..891341a 100644
--- a/break_value.go
+++ b/break_value.go
@@ -410,7 +410,7 @@ func (tx *TxBuilder) RandomizeOutputsAfter(index int) {
 	for i, txout := range tx.MsgTx.TxOut[index+1:] {
 		randOutputs[i] = &Output{
 			TxOut:      *txout,
-			Supplement: *tx.Outputs[i],
+			Supplement: *tx.Outputs[index+1+i],
 		}
 	}
 
-- 
2.43.0


From 197b07daec2125acfc9649706ee1ed73d73fc5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:16 +0000
Subject: [PATCH 15/28] fix: don't overflow when breaking very large quantities

Multiplying the break value could wrap around for quantities above about
10^18 and gave quantities far below the break value.
---
 break_value.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/break_value.go b/break_value.go
index 891341a..896e57f 100644
--- a/break_value.go
+++ b/break_value.go
@@ -1,6 +1,7 @@
 package txbuilder
 
 import (
+	"math"
 	"math/rand"
 	"time"
 
@@ -330,19 +331,22 @@ func BreakQuantity(value, breakValue uint64, count int) ([]uint64, error) {
 		}
 
 		inc := BreakIncrements[rand.Intn(len(BreakIncrements))]
-		quantity := breakValue * inc
 		switch rand.Intn(exponent) {
 		case 0: // *= 1
 		case 1:
-			quantity *= 10
+			inc *= 10
 		case 2:
-			quantity *= 100
+			inc *= 100
 		case 3:
-			quantity *= 1000
+			inc *= 1000
 		}
 
-		if quantity >= 10 && rand.Intn(2) == 1 {
-			quantity = quantity - (quantity / 10) + uint64(rand.Int63n(int64(quantity/5)))
+		quantity := remaining
+		if breakValue <= math.MaxInt64/inc { // otherwise the quantity could overflow
+			quantity = breakValue * inc
+			if quantity >= 10 && rand.Intn(2) == 1 {
+				quantity = quantity - (quantity / 10) + uint64(rand.Int63n(int64(quantity/5)))
+			}
 		}
 
 		if quantity > remaining {
-- 
2.43.0


From a4e879c070ca75820349136bf6927b41f88fdb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:02 +0000
Subject: [PATCH 16/28] fix: give inputs without data an empty supplement when
 rebuilding

Builders made from a wire transaction with missing input data had nil
supplements, so most later calls on them panicked.
---
 txbuilder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/txbuilder.go b/txbuilder.go
index d542968..34e00f5 100644
--- a/txbuilder.go
+++ b/txbuilder.go
@@ -202,6 +202,7 @@ func NewTxBuilderFromWire(feeRate, dustFeeRate float32, tx *wire.MsgTx,
 			}
 		}
 		if !found {
+			result.Inputs[i] = &InputSupplement{}
 			missingErr = ErrMissingInputData
 		}
 	}
@@ -244,6 +245,7 @@ func NewTxBuilderFromWireUTXOs(feeRate, dustFeeRate float32, tx *wire.MsgTx,
 			}
 		}
 		if !found {
+			result.Inputs[i] = &InputSupplement{}
 			missingErr = ErrMissingInputData
 		}
 	}
-- 
2.43.0


From ba5ac8de98c83b54b1deb93ff07a1a9f9e2fbb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:06 +0000
Subject: [PATCH 17/28] fix: leave change as it is when a fee increase is
 refused

AdjustFee reduced the change output before finding that too little would
be left, and returned the error with the reduced value in place.
---
 fees.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fees.go b/fees.go
index aa1adb7..14aa51d 100644
--- a/fees.go
+++ b/fees.go
@@ -323,14 +323,13 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 			return false, errors.Wrap(ErrInsufficientValue, "Not enough change for tx fee")
 		}
 
-		// Decrease change, thereby increasing the fee
-		tx.MsgTx.TxOut[changeOutputIndex].Value -= uint64(amount)
+		changeValue := tx.MsgTx.TxOut[changeOutputIndex].Value - uint64(amount)
 
 		outputFee, inputFee, _ := OutputTotalCost(tx.MsgTx.TxOut[changeOutputIndex].LockingScript,
 			tx.FeeRate)
 
 		// Check if change is below dust
-		if tx.MsgTx.TxOut[changeOutputIndex].Value < outputFee+inputFee {
+		if changeValue < outputFee+inputFee {
 			if !tx.Outputs[changeOutputIndex].addedForFee {
 				// Don't remove outputs unless they were added by fee adjustment
 				return false, errors.Wrap(ErrInsufficientValue, "Not enough change for tx fee")
@@ -341,6 +340,9 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 				tx.MsgTx.TxOut[changeOutputIndex+1:]...)
 			tx.Outputs = append(tx.Outputs[:changeOutputIndex], tx.Outputs[changeOutputIndex+1:]...)
 			done = true
+		} else {
+			// Decrease change, thereby increasing the fee
+			tx.MsgTx.TxOut[changeOutputIndex].Value = changeValue
 		}
 	} else {
 		// Decrease fee, transfer to change
-- 
2.43.0


From c36c85d079fe35baaa7e29357559ec528b8252e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:21 +0000
Subject: [PATCH 18/28] fix: estimate unlocking size of agent transfer scripts
 in fees

The match was used when it had failed, so unknown scripts panicked and
agent transfer scripts were an error.
---
 fees/fees.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fees/fees.go b/fees/fees.go
index eb9b3d6..1fc91e0 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -139,8 +139,10 @@ func EstimateUnlockingSize(lockingScript bitcoin.Script) (int, error) {
 			int(required)*(MaxSignaturesPushDataSize+PublicKeyPushDataSize+1), nil
 	}
 
-	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err != nil {
-		agentUnlockingSize, err := EstimateUnlockingSize(info.AgentLockingScript)
+	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err == nil && info != nil {
+		agentUnlockingScript := info.AgentLockingScript.Copy()
+		agentUnlockingScript.RemoveHardVerify()
+		agentUnlockingSize, err := EstimateUnlockingSize(agentUnlockingScript)
 		if err != nil {
 			return 0, errors.Wrap(err, "agent")
 		}
-- 
2.43.0


From 81a9743d9262de7f5142f2c988ff80698ede0fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:30 +0000
Subject: [PATCH 19/28] fix: use the embedded value as value of an unknown
 output in fees

InputValue returned the size of the unlocking script instead.
---
 fees/fees.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fees/fees.go b/fees/fees.go
index 1fc91e0..9729384 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -235,7 +235,7 @@ func InputValue(txin *wire.TxIn, inputOutput *wire.TxOut) (uint64, error) {
 		return 0, MissingUnlockingData
 	}
 
-	return unlockingData.Size, nil
+	return unlockingData.Value, nil
 }
 
 func InputSizeForUnlockingScriptSize(unlockingScriptSize int) int {
-- 
2.43.0


From 5e8816415fe834f98c7c37114109f7a32d257dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:48 +0000
Subject: [PATCH 20/28] fix: print estimated size with the embedded unlocking
 size

TxString added the length of the embedded data instead of the size of
the unlocking script it announces.
---
 print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/print.go b/print.go
index d6e321c..b8fce54 100644
--- a/print.go
+++ b/print.go
@@ -67,7 +67,7 @@ func TxString(tx expanded_tx.TransactionWithOutputs) string {
 
 				inputsValue += unlockData.Value
 				inputsSize += InputBaseSize + wire.VarIntSerializeSize(uint64(unlockData.Size)) +
-					len(txin.UnlockingScript)
+					int(unlockData.Size)
 				continue
 			}
 		}
-- 
2.43.0


From 29a64efd3da1a0d68ce994370db01b837b010967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:03 +0000
Subject: [PATCH 21/28] fix: print output values with all digits

A 32 bit float can't hold most values, so String showed wrong amounts.
---
 txbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txbuilder.go b/txbuilder.go
index 34e00f5..4dd4552 100644
--- a/txbuilder.go
+++ b/txbuilder.go
@@ -295,7 +295,7 @@ func (tx *TxBuilder) String(net bitcoin.Network) string {
 	}
 	result += "  Outputs:\n\n"
 	for i, output := range tx.MsgTx.TxOut {
-		result += fmt.Sprintf("    Value: %.08f\n", float32(output.Value)/100000000.0)
+		result += fmt.Sprintf("    Value: %.08f\n", float64(output.Value)/100000000.0)
 		result += fmt.Sprintf("    LockingScript: %s\n", output.LockingScript)
 		ra, err := bitcoin.RawAddressFromLockingScript(output.LockingScript)
 		if err == nil {
-- 
2.43.0


From 4d8a98aa14d03cfe8baff422c95bb91c80bf0fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:09 +0000
Subject: [PATCH 22/28] fix: refuse negative amounts in create_send

---
 cmd/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index 3f5a018..fc35c4a 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -96,6 +96,10 @@ func CreateSend(ctx context.Context, cfg *Config, args []string) {
 		fmt.Printf("Invalid amount : %s : %s\n", args[2], err)
 		return
 	}
+	if amount < 0 {
+		fmt.Printf("Invalid amount : %s : negative\n", args[2])
+		return
+	}
 
 	tx := txbuilder.NewTxBuilder(cfg.FeeRate, cfg.DustFeeRate)
 	for i := 3; i < len(args); i++ {
-- 
2.43.0


From 0bf4f43da1c40ace39d2c3154fbc04fa5480de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:11 +0000
Subject: [PATCH 23/28] fix: report when nothing is left after the fee in the
 command line tool

---
 cmd/main.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index fc35c4a..376de25 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -144,6 +144,11 @@ func CreateSend(ctx context.Context, cfg *Config, args []string) {
 		return
 	}
 
+	if len(tx.MsgTx.TxOut) == 0 {
+		fmt.Printf("Failed to create transaction : nothing left after fee\n")
+		return
+	}
+
 	buf := &bytes.Buffer{}
 	if err := tx.MsgTx.Serialize(buf); err != nil {
 		fmt.Printf("Failed to serialize tx : %s\n", err)
@@ -227,6 +232,11 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 		return
 	}
 
+	if len(tx.MsgTx.TxOut) == 0 {
+		fmt.Printf("Failed to create transaction : nothing left after fee\n")
+		return
+	}
+
 	buf := &bytes.Buffer{}
 	if err := tx.MsgTx.Serialize(buf); err != nil {
 		fmt.Printf("Failed to serialize tx : %s\n", err)
@@ -276,6 +286,11 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 			return
 		}
 
+		if len(tx.MsgTx.TxOut) == 0 {
+			fmt.Printf("Failed to create transaction : nothing left after fee\n")
+			return
+		}
+
 		buf := &bytes.Buffer{}
 		if err := tx.MsgTx.Serialize(buf); err != nil {
 			fmt.Printf("Failed to serialize tx : %s\n", err)
-- 
2.43.0


From 7282b2468a868e7821bc8087a75050124556eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:30 +0000
Subject: [PATCH 24/28] fix: don't crash on scripts that only begin like an
 agent transfer

---
 fees.go      | 14 +++++++++++++-
 fees/fees.go | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/fees.go b/fees.go
index 14aa51d..18654a4 100644
--- a/fees.go
+++ b/fees.go
@@ -108,6 +108,18 @@ const (
 	DustInputSize = 148
 )
 
+// matchAgentTransfer parses an agent bitcoin transfer locking script. A script that only begins like
+// one is reported as not matching, where MatchScript runs past the end of the script.
+func matchAgentTransfer(lockingScript bitcoin.Script) (info *agent_bitcoin_transfer.Info, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			info, err = nil, bitcoin.ErrUnknownScriptTemplate
+		}
+	}()
+
+	return agent_bitcoin_transfer.MatchScript(lockingScript)
+}
+
 // UnlockingScriptSize calculates the length of the unlocking script needed to unlock the specified
 // locking script.
 func UnlockingScriptSize(lockingScript bitcoin.Script) (int, error) {
@@ -130,7 +142,7 @@ func UnlockingScriptSize(lockingScript bitcoin.Script) (int, error) {
 		return scriptSize, nil
 	}
 
-	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err == nil && info != nil {
+	if info, err := matchAgentTransfer(lockingScript); err == nil && info != nil {
 		agentUnlockingScript := info.AgentLockingScript.Copy()
 		agentUnlockingScript.RemoveHardVerify()
 		agentUnlockingSize, err := UnlockingScriptSize(agentUnlockingScript)
diff --git a/fees/fees.go b/fees/fees.go
index 9729384..f5d5730 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -122,6 +122,18 @@ func EstimateInputSize(txin *wire.TxIn, lockingScript bitcoin.Script,
 		nil
 }
 
+// matchAgentTransfer parses an agent bitcoin transfer locking script. A script that only begins like
+// one is reported as not matching, where MatchScript runs past the end of the script.
+func matchAgentTransfer(lockingScript bitcoin.Script) (info *agent_bitcoin_transfer.Info, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			info, err = nil, bitcoin.ErrUnknownScriptTemplate
+		}
+	}()
+
+	return agent_bitcoin_transfer.MatchScript(lockingScript)
+}
+
 func EstimateUnlockingSize(lockingScript bitcoin.Script) (int, error) {
 	if lockingScript.IsP2PK() {
 		// Only a signature in a P2PK unlocking script
@@ -139,7 +151,7 @@ func EstimateUnlockingSize(lockingScript bitcoin.Script) (int, error) {
 			int(required)*(MaxSignaturesPushDataSize+PublicKeyPushDataSize+1), nil
 	}
 
-	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err == nil && info != nil {
+	if info, err := matchAgentTransfer(lockingScript); err == nil && info != nil {
 		agentUnlockingScript := info.AgentLockingScript.Copy()
 		agentUnlockingScript.RemoveHardVerify()
 		agentUnlockingSize, err := EstimateUnlockingSize(agentUnlockingScript)
-- 
2.43.0


From 35bc5ba6e76da2271143469ffa60ffb6bff3fbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:36 +0000
Subject: [PATCH 25/28] fix: keep the estimated fee when signing without all
 keys

---
 sign.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sign.go b/sign.go
index 0bfd78f..8a253d2 100644
--- a/sign.go
+++ b/sign.go
@@ -110,7 +110,11 @@ func (tx *TxBuilder) Sign(keys []bitcoin.Key) ([]bitcoin.Key, error) {
 		}
 
 		// Check fee and adjust if too low
-		targetFee := int64(EstimatedFeeValue(uint64(tx.MsgTx.SerializeSize()), float64(tx.FeeRate)))
+		size := tx.MsgTx.SerializeSize()
+		if missingKey { // some unlocking scripts are still to be added
+			size = tx.EstimatedSize()
+		}
+		targetFee := int64(EstimatedFeeValue(uint64(size), float64(tx.FeeRate)))
 		inputValue = tx.InputValue()
 		outputValue = tx.OutputValue(false)
 		changeValue := tx.changeSum()
-- 
2.43.0


From 31d707ea10f4367d8f55a1a4bcf079585ae35edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:33 +0000
Subject: [PATCH 26/28] fix: leave outputs alone when randomizing after the
 last one or later

---
 break_value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/break_value.go b/break_value.go
index 896e57f..e6aec82 100644
--- a/break_value.go
+++ b/break_value.go
@@ -410,6 +410,10 @@ func (tx *TxBuilder) RandomizeOutputs() {
 // that depend on outputs being at a specific index.
 func (tx *TxBuilder) RandomizeOutputsAfter(index int) {
 	randLength := len(tx.MsgTx.TxOut) - (index + 1)
+	if randLength <= 0 {
+		return // no outputs after the index
+	}
+
 	randOutputs := make([]*Output, randLength)
 	for i, txout := range tx.MsgTx.TxOut[index+1:] {
 		randOutputs[i] = &Output{
-- 
2.43.0


From 4f8f1807bd394be67f44da75f16f41b78ac93f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:49 +0000
Subject: [PATCH 27/28] fix: fund send-max from existing inputs when no further
 coins are given

---
 inputs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inputs.go b/inputs.go
index 742d0c6..80be614 100644
--- a/inputs.go
+++ b/inputs.go
@@ -154,7 +154,7 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 		return tx.CalculateFee() // Already funded
 	}
 
-	if len(utxos) == 0 {
+	if len(utxos) == 0 && !tx.SendMax {
 		return errors.Wrap(ErrInsufficientValue, fmt.Sprintf("no more utxos: %d/%d",
 			inputValue, outputValue+estFeeValue))
 	}
@@ -334,8 +334,8 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 		}
 	}
 
-	if len(utxos) == 0 {
-		if !tx.SendMax && inputValue >= outputValue+tx.EstimatedFee() {
+	if len(utxos) == 0 && !tx.SendMax {
+		if inputValue >= outputValue+tx.EstimatedFee() {
 			return nil // Funded, but there is not enough for a change output
 		}
 
-- 
2.43.0


From 79b07f7ec5a00b853742d19f06a9fa01e15bc60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:47 +0000
Subject: [PATCH 28/28] fix: do not add coins to a transaction that is funded
 exactly

---
 inputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inputs.go b/inputs.go
index 80be614..e6e8767 100644
--- a/inputs.go
+++ b/inputs.go
@@ -150,7 +150,7 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 	outputValue := tx.OutputValue(true)
 	estFeeValue := tx.EstimatedFee()
 
-	if !tx.SendMax && inputValue > outputValue && inputValue-outputValue >= estFeeValue {
+	if !tx.SendMax && len(tx.Inputs) > 0 && inputValue >= outputValue+estFeeValue {
 		return tx.CalculateFee() // Already funded
 	}
 
-- 
2.43.0

