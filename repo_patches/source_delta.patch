From 8ffffcd2d27576872b536a89aeff708f3d683528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:33 +0000
Subject: [PATCH 01/20] fix: apply the last-in-period block time rule to the
 right heights

---
 pkg/core/verify.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index 79cb135..afff546 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -183,7 +183,7 @@ func (v Verifier) VerifyBlock(b Block) error {
 
 	// If last block in period, verify time is ahead of first block in period
 	// This prevents panics in ExpectedTargetAdjustment
-	if newBlockHeight+1%v.params.DifficultyPeriod == 0 {
+	if (newBlockHeight+1)%v.params.DifficultyPeriod == 0 {
 		var firstBlockId HashT
 		if newBlockHeight+1 == v.params.DifficultyPeriod {
 			if !v.inv.GetBlockSpecificAncestor(b.PrevBlockId, int(v.params.DifficultyPeriod-2)).EqZero() {
-- 
2.43.0


From 031723ee34bfcd512cb4bb7b41e6ae7dc67709f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:36 +0000
Subject: [PATCH 02/20] fix: reject txs whose total inputs or outputs overflow

---
 pkg/core/verify.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index afff546..e30ceb8 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -249,6 +249,22 @@ func (v Verifier) VerifyTxIsolated(tx Tx) error {
 		return fmt.Errorf("tx vSize exceeds limit")
 	}
 
+	// Verify total inputs and outputs don't overflow
+	totalInputs := uint64(0)
+	for _, txi := range tx.Inputs {
+		if totalInputs+txi.Utxo.Value < totalInputs {
+			return fmt.Errorf("tx total inputs overflow")
+		}
+		totalInputs += txi.Utxo.Value
+	}
+	totalOutputs := uint64(0)
+	for _, txo := range tx.Outputs {
+		if totalOutputs+txo.Value < totalOutputs {
+			return fmt.Errorf("tx total outputs overflow")
+		}
+		totalOutputs += txo.Value
+	}
+
 	if tx.IsCoinbase {
 		// Verify coinbase has no inputs
 		if len(tx.Inputs) > 0 {
-- 
2.43.0


From ae23616f2832033393eda1955d212eec00230b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 03/20] fix: reject txs that spend the same utxo twice

---
 pkg/core/verify.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index e30ceb8..ad3a322 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -249,6 +249,15 @@ func (v Verifier) VerifyTxIsolated(tx Tx) error {
 		return fmt.Errorf("tx vSize exceeds limit")
 	}
 
+	// Verify no utxo is spent more than once
+	spent := set.NewSet[Utxo]()
+	for _, txi := range tx.Inputs {
+		if spent.Includes(txi.Utxo) {
+			return fmt.Errorf("tx spends the same utxo twice")
+		}
+		spent.Add(txi.Utxo)
+	}
+
 	// Verify total inputs and outputs don't overflow
 	totalInputs := uint64(0)
 	for _, txi := range tx.Inputs {
-- 
2.43.0


From 1189b1e5cda6106d4dd773e2b920390d07c2d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:42 +0000
Subject: [PATCH 04/20] fix: rewind the txs of a block in reverse order

---
 internal/chain/state.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/chain/state.go b/internal/chain/state.go
index 1975c7e..cb7b328 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -85,7 +85,9 @@ func (s *State) Rewind() {
 	}
 	rBlock := s.inv.GetBlock(s.head)
 	rTxs := s.inv.GetMerkleTxs(rBlock.MerkleRoot)
-	for _, tx := range rTxs {
+	// Undo txs in reverse order, as later txs may spend outputs of earlier ones
+	for i := len(rTxs) - 1; i >= 0; i-- {
+		tx := rTxs[i]
 		txId := tx.Hash()
 		// Return tx back to mempool
 		s.mempool.Add(txId)
-- 
2.43.0


From 5df0670eab0e6cee4bcccc2e1ad145d6ffb75ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 05/20] fix: refuse to write messages whose length does not fit
 the 2-byte prefix

---
 pkg/prot/conn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/prot/conn.go b/pkg/prot/conn.go
index af67bb3..d492b1a 100644
--- a/pkg/prot/conn.go
+++ b/pkg/prot/conn.go
@@ -170,8 +170,8 @@ func (c *Conn) Write(data []byte) {
 	if c.err != nil {
 		return
 	}
-	if len(data) > 65536 {
-		c.err = fmt.Errorf("too many bytes to write: %d > 65536", len(data))
+	if len(data) > 65535 {
+		c.err = fmt.Errorf("too many bytes to write: %d > 65535", len(data))
 		return
 	}
 	sizeB := make([]byte, 2)
-- 
2.43.0


From 9b79e64ff6acb0e8bd54e186fe29bee4db34723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:46 +0000
Subject: [PATCH 06/20] fix: do not allocate or loop by lengths a peer merely
 claims

---
 internal/peer/handlers.go |  5 +++--
 pkg/prot/core.go          | 28 ++++++++++++++++++----------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/internal/peer/handlers.go b/internal/peer/handlers.go
index ffce87c..473a5ba 100644
--- a/internal/peer/handlers.go
+++ b/internal/peer/handlers.go
@@ -41,8 +41,9 @@ var peerAddrsCmd = "peer-addrs"
 
 func (p *Peer) handleReadPeerAddrs() error {
 	numPeers := p.conn.ReadUint64()
-	peerAddrs := make(map[string]string, numPeers)
-	for i := 0; i < int(numPeers); i++ {
+	// Don't trust the claimed length, only grow as data actually arrives
+	peerAddrs := make(map[string]string)
+	for i := uint64(0); i < numPeers && !p.conn.HasErr(); i++ {
 		runtimeId := p.conn.ReadString()
 		peerAddrs[runtimeId] = p.conn.ReadString()
 	}
diff --git a/pkg/prot/core.go b/pkg/prot/core.go
index 53d5cfd..8fccfef 100644
--- a/pkg/prot/core.go
+++ b/pkg/prot/core.go
@@ -101,14 +101,14 @@ func (c *Conn) ReadTx(expectId core.HashT) core.Tx {
 	tx := core.Tx{
 		IsCoinbase: c.ReadBool(),
 		MinBlock:   c.ReadUint64(),
-		Inputs:     make([]core.TxIn, c.ReadUint64()),
-		Outputs:    make([]core.TxOut, c.ReadUint64()),
-	}
-	if c.err != nil {
-		return core.Tx{}
-	}
-	for i := range tx.Inputs {
-		tx.Inputs[i] = core.TxIn{
+		Inputs:     make([]core.TxIn, 0),
+		Outputs:    make([]core.TxOut, 0),
+	}
+	numInputs := c.ReadUint64()
+	numOutputs := c.ReadUint64()
+	// Don't trust the claimed lengths, only grow as data actually arrives
+	for i := uint64(0); i < numInputs; i++ {
+		txi := core.TxIn{
 			Utxo: core.Utxo{
 				TxId:  c.ReadHashT(),
 				Ind:   c.ReadUint64(),
@@ -117,12 +117,20 @@ func (c *Conn) ReadTx(expectId core.HashT) core.Tx {
 			PublicKey: c.Read(),
 			Signature: c.Read(),
 		}
+		if c.err != nil {
+			return core.Tx{}
+		}
+		tx.Inputs = append(tx.Inputs, txi)
 	}
-	for i := range tx.Outputs {
-		tx.Outputs[i] = core.TxOut{
+	for i := uint64(0); i < numOutputs; i++ {
+		txo := core.TxOut{
 			Value:         c.ReadUint64(),
 			PublicKeyHash: c.ReadHashT(),
 		}
+		if c.err != nil {
+			return core.Tx{}
+		}
+		tx.Outputs = append(tx.Outputs, txo)
 	}
 	if c.err != nil {
 		return core.Tx{}
-- 
2.43.0


From 71ae44cbda7635468ea75e48dd521f63eb4fca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 07/20] fix: report the verification error of a rejected chain
 instead of panicking

---
 internal/peer/sync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index cd13447..8abfdba 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -139,7 +139,7 @@ func (p *Peer) handleInboundSyncChain() error {
 		if p.conn.HasErr() {
 			return p.conn.Err()
 		}
-		return fmt.Errorf("failed to verify received chain: %s", p.conn.Err().Error())
+		return fmt.Errorf("failed to verify received chain: %s", err.Error())
 	}
 	p.conn.WriteBool(true)
 	if p.conn.HasErr() {
-- 
2.43.0


From f31283a931edd1448c455d639258cb6b5e72930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 08/20] fix: close the connection when its peer routine ends

---
 internal/peer/peer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/peer/peer.go b/internal/peer/peer.go
index 3a0987d..88406d1 100644
--- a/internal/peer/peer.go
+++ b/internal/peer/peer.go
@@ -76,6 +76,7 @@ func (p *Peer) Loop() {
 		} else {
 			fmt.Printf("peer %s closed\n", p.conn.PeerRuntimeId())
 		}
+		p.conn.Close()
 		p.subs.Close()
 		p.bus.PeerClosing.Pub(bus.PeerClosingEvent{
 			PeerRuntimeId: p.conn.PeerRuntimeId(),
-- 
2.43.0


From 2ef3f6b557c107bcd8d6db1e3b003b638923910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:44 +0000
Subject: [PATCH 09/20] fix: fail cleanly on tx requests the balance cannot
 cover

---
 pkg/core/txfactory.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/core/txfactory.go b/pkg/core/txfactory.go
index 129d5af..871aac8 100644
--- a/pkg/core/txfactory.go
+++ b/pkg/core/txfactory.go
@@ -38,6 +38,9 @@ func MakeOutboundTx(
 	// Get total outputs and verify <= utxos
 	totalOut := uint64(0)
 	for _, val := range dests {
+		if totalOut+val < totalOut {
+			return nil, fmt.Errorf("total outputs overflow")
+		}
 		totalOut += val
 	}
 	if totalOut >= balance {
@@ -201,7 +204,11 @@ func MakeConsolidateTx(
 	}
 
 	// Set the output amount
-	tx.Outputs[0].Value = totalIn - tx.FeeFromRate(targetFeeRate)
+	fee := tx.FeeFromRate(targetFeeRate)
+	if totalIn <= fee {
+		return nil, fmt.Errorf("insufficient balance to pay target fee rate - %d <= %d", totalIn, fee)
+	}
+	tx.Outputs[0].Value = totalIn - fee
 
 	// Sign the inputs, replacing placeholders
 	preSigHash := TxHashPreSig(tx.MinBlock, tx.Outputs)
@@ -240,6 +247,9 @@ func getPkkPrivs(privateKeys []*ecdsa.PrivateKey) (map[HashT]*ecdsa.PrivateKey,
 func getBalanceAndRichestPkh(
 	utxoPkhs map[Utxo]HashT, pkhPrivs map[HashT]*ecdsa.PrivateKey,
 ) (uint64, HashT, error) {
+	if len(utxoPkhs) == 0 {
+		return 0, HashT{}, fmt.Errorf("insufficient balance")
+	}
 	balance := uint64(0)
 	pkhBalances := make(map[HashT]uint64)
 	for utxo, pkh := range utxoPkhs {
-- 
2.43.0


From c018fc8eb513519fccbe5afbe19b4224c296a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:45 +0000
Subject: [PATCH 10/20] fix: send the sum when a destination is given more than
 once

---
 cmd/bcwallet/bcwallet.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/bcwallet/bcwallet.go b/cmd/bcwallet/bcwallet.go
index 8d4cc35..f62cdea 100644
--- a/cmd/bcwallet/bcwallet.go
+++ b/cmd/bcwallet/bcwallet.go
@@ -200,7 +200,10 @@ var commands = []Command{
 				if err != nil {
 					return err
 				}
-				dests[pkh] = val
+				if dests[pkh]+val < val {
+					return fmt.Errorf("total amount to %s overflows", pkh)
+				}
+				dests[pkh] += val
 			}
 
 			// Get current head height / min block
-- 
2.43.0


From 3900f2ef0517d352e33ea3386be5f2439408a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:47 +0000
Subject: [PATCH 11/20] fix: do not touch a connection after handing it to be
 closed

---
 internal/peerfactory/peerfactory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index 268af5e..80f38f2 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -177,8 +177,9 @@ func (pf *PeerFactory) tryConn(addr string) (*prot.Conn, error) {
 	if err != nil {
 		return nil, err
 	} else if conn.HasErr() {
+		err = conn.Err()
 		conn.CloseIfPossible(nil)
-		return nil, conn.Err()
+		return nil, err
 	}
 	return conn, nil
 }
-- 
2.43.0


From 12c5ba492320eb8769ce762e671e7c44fee62ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:50 +0000
Subject: [PATCH 12/20] fix: do not accept or relay loose coinbase txs

---
 internal/chain/chain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/chain/chain.go b/internal/chain/chain.go
index 781aa9b..b5d7421 100644
--- a/internal/chain/chain.go
+++ b/internal/chain/chain.go
@@ -207,6 +207,9 @@ func (c *Chain) handleCandidateHead(event bus.CandidateHeadEvent) error {
 }
 
 func (c *Chain) handleCandidateTx(event bus.CandidateTxEvent) error {
+	if event.Tx.IsCoinbase {
+		return fmt.Errorf("coinbase txs can only be submitted within a block")
+	}
 	txId := event.Tx.Hash()
 	if c.inv.HasTx(txId) {
 		return nil
-- 
2.43.0


From 91ec45cbb3a9d5ab26f7137a645afa111b1e1aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:52 +0000
Subject: [PATCH 13/20] fix: hand synced entities to the chain in dependency
 order

---
 internal/peer/sync.go | 55 +++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index 8abfdba..1d89616 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -148,47 +148,50 @@ func (p *Peer) handleInboundSyncChain() error {
 	// Request the peer for entities we don't know about
 	newMerkles := make([]core.MerkleNode, 0)
 	newTxs := make([]core.Tx, 0)
-	idQueue := queue.NewQueue[core.HashT]()
 	receivedIds := set.NewSet[core.HashT]()
-	for _, block := range newBlocks {
-		idQueue.Push(block.MerkleRoot)
-	}
-	for idQueue.Size() > 0 {
-		id, _ := idQueue.Pop()
-		if p.inv.HasEntity(id) || receivedIds.Includes(id) {
-			continue
-		}
-		p.conn.WriteHashT(id)
-		isTx := p.conn.ReadBool()
-		if p.conn.HasErr() {
-			return p.conn.Err()
-		} else if !isTx {
-			merkle := p.conn.ReadMerkle(id)
-			if p.conn.HasErr() {
-				return p.conn.Err()
+	// Go through blocks oldest first, as later blocks may depend on entities of earlier ones
+	for _, block := range util.Reverse(newBlocks) {
+		blockMerkles := make([]core.MerkleNode, 0)
+		idQueue := queue.NewQueue(block.MerkleRoot)
+		for idQueue.Size() > 0 {
+			id, _ := idQueue.Pop()
+			if p.inv.HasEntity(id) || receivedIds.Includes(id) {
+				continue
 			}
-			newMerkles = append(newMerkles, merkle)
-			idQueue.Push(merkle.LChild, merkle.RChild)
-		} else {
-			tx := p.conn.ReadTx(id)
+			p.conn.WriteHashT(id)
+			isTx := p.conn.ReadBool()
 			if p.conn.HasErr() {
 				return p.conn.Err()
+			} else if !isTx {
+				merkle := p.conn.ReadMerkle(id)
+				if p.conn.HasErr() {
+					return p.conn.Err()
+				}
+				blockMerkles = append(blockMerkles, merkle)
+				idQueue.Push(merkle.LChild, merkle.RChild)
+			} else {
+				tx := p.conn.ReadTx(id)
+				if p.conn.HasErr() {
+					return p.conn.Err()
+				}
+				newTxs = append(newTxs, tx)
 			}
-			newTxs = append(newTxs, tx)
+			receivedIds.Add(id)
 		}
-		receivedIds.Add(id)
+		// Children must be inserted before their parents
+		newMerkles = append(newMerkles, util.Reverse(blockMerkles)...)
 	}
 	p.conn.WriteHashT(core.HashT{})
 	p.conn.WriteString("complete")
 	if p.conn.HasErr() {
 		return p.conn.Err()
 	}
-	// Send the new entities to the head (reversed so they're inserted in correct order)
+	// Send the new entities to the head (in the order they should be inserted)
 	p.bus.CandidateHead.Pub(bus.CandidateHeadEvent{
 		Head:                   newHead,
 		Blocks:                 util.Reverse(newBlocks),
-		Merkles:                util.Reverse(newMerkles),
-		Txs:                    util.Reverse(newTxs),
+		Merkles:                newMerkles,
+		Txs:                    newTxs,
 		AutoAddMempoolInsecure: false,
 	})
 	return nil
-- 
2.43.0


From 8db15790106f8d701f320d6fcb5dafce32e30bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 14/20] fix: do not truncate rich list lengths above the int
 range

---
 internal/chain/state.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/chain/state.go b/internal/chain/state.go
index cb7b328..30895b2 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -384,9 +384,9 @@ func (s *State) GetRichList(maxLen uint64) map[core.HashT]uint64 {
 		return pkhBals[pkhs[i]] > pkhBals[pkhs[j]]
 	})
 	// outLen = min(maxLen, len(pkhs))
-	outLen := int(maxLen)
-	if len(pkhs) < outLen {
-		outLen = len(pkhs)
+	outLen := len(pkhs)
+	if maxLen < uint64(outLen) {
+		outLen = int(maxLen)
 	}
 	out := make(map[core.HashT]uint64, outLen)
 	for i := 0; i < outLen; i++ {
-- 
2.43.0


From 8adfe4304c99d6a1fd21750e27d183106d98324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:57 +0000
Subject: [PATCH 15/20] fix: do not print passwords given to admin endpoints

---
 internal/rest/server.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/rest/server.go b/internal/rest/server.go
index b448cf6..c0d82b0 100644
--- a/internal/rest/server.go
+++ b/internal/rest/server.go
@@ -90,7 +90,6 @@ func (s *Server) mountHandlers(admin bool, endpoint string, handlers map[string]
 		if admin && s.params.Password != "" {
 			givenPw := r.Header.Get("Pw")
 			if givenPw != s.params.Password {
-				fmt.Println(givenPw)
 				write401(w)
 				return
 			}
-- 
2.43.0


From d74f5e3b299afcbe83b7a40b54c3d38d85315781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:00 +0000
Subject: [PATCH 16/20] fix: replace saved files atomically

---
 cmd/bcwallet/config.go         |  3 ++-
 internal/chain/chain.go        |  2 +-
 pkg/disksyncmap/disksyncmap.go |  3 ++-
 pkg/util/file.go               | 28 ++++++++++++++++++++++++++++
 4 files changed, 33 insertions(+), 3 deletions(-)
 create mode 100644 pkg/util/file.go

diff --git a/cmd/bcwallet/config.go b/cmd/bcwallet/config.go
index b80f79b..75e3895 100644
--- a/cmd/bcwallet/config.go
+++ b/cmd/bcwallet/config.go
@@ -9,6 +9,7 @@ import (
 	"path"
 
 	"github.com/levilutz/basiccoin/pkg/core"
+	"github.com/levilutz/basiccoin/pkg/util"
 )
 
 type KeyConfigJSON struct {
@@ -202,7 +203,7 @@ func (c *Config) Save() error {
 		return fmt.Errorf("config file is a directory: %s", getConfigPath(c.Dev))
 	}
 
-	return os.WriteFile(getConfigPath(c.Dev), rawConfig, 0600)
+	return util.WriteFileAtomic(getConfigPath(c.Dev), rawConfig, 0600)
 }
 
 func EnsureConfig(dev bool) {
diff --git a/internal/chain/chain.go b/internal/chain/chain.go
index b5d7421..5541a44 100644
--- a/internal/chain/chain.go
+++ b/internal/chain/chain.go
@@ -229,7 +229,7 @@ func (c *Chain) handleCandidateTx(event bus.CandidateTxEvent) error {
 }
 
 func (c *Chain) saveHeadToFile(head core.HashT) error {
-	return os.WriteFile(*c.saveDir+"/head", []byte(head.String()), 0666)
+	return util.WriteFileAtomic(*c.saveDir+"/head", []byte(head.String()), 0666)
 }
 
 func loadHeadFromFile(saveDir *string) (head *core.HashT, err error) {
diff --git a/pkg/disksyncmap/disksyncmap.go b/pkg/disksyncmap/disksyncmap.go
index 1268a8c..1eaef08 100644
--- a/pkg/disksyncmap/disksyncmap.go
+++ b/pkg/disksyncmap/disksyncmap.go
@@ -6,6 +6,7 @@ import (
 	"os"
 
 	"github.com/levilutz/basiccoin/pkg/syncmap"
+	"github.com/levilutz/basiccoin/pkg/util"
 )
 
 type comparableStringer interface {
@@ -75,7 +76,7 @@ func (dsm *DiskSyncMap[K, V]) tryLoadKeyFromDisk(key K) bool {
 
 // Write to the given file on disk.
 func (dsm *DiskSyncMap[K, V]) saveFile(path string, val V) error {
-	return os.WriteFile(path, []byte(val.String()), 0666)
+	return util.WriteFileAtomic(path, []byte(val.String()), 0666)
 }
 
 // Load the given file from disk and parse.
diff --git a/pkg/util/file.go b/pkg/util/file.go
new file mode 100644
index 0000000..419b3ce
--- /dev/null
+++ b/pkg/util/file.go
@@ -0,0 +1,28 @@
+package util
+
+import "os"
+
+// Write a file so that a crash leaves either its old or its new content, never a part of it.
+// Concurrent writes to the same path are not supported.
+func WriteFileAtomic(path string, data []byte, perm os.FileMode) error {
+	tmpPath := path + ".tmp"
+	// Don't inherit the permissions of a leftover temporary file
+	if err := os.Remove(tmpPath); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	f, err := os.OpenFile(tmpPath, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(tmpPath, path)
+}
-- 
2.43.0


From b7b23e1379c8538741eff425dcdf27927f90e8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:42 +0000
Subject: [PATCH 17/20] fix: save a generated key before showing its address

bcwallet generate printed the new address first; when saving then failed or the
program was stopped, the address was out but its key was lost.
---
 cmd/bcwallet/bcwallet.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/bcwallet/bcwallet.go b/cmd/bcwallet/bcwallet.go
index f62cdea..96ce38e 100644
--- a/cmd/bcwallet/bcwallet.go
+++ b/cmd/bcwallet/bcwallet.go
@@ -98,8 +98,11 @@ var commands = []Command{
 				kc = NewKeyConfig(priv)
 			}
 			ctx.Config.AddKeys(kc)
+			if err := ctx.Config.Save(); err != nil {
+				return err
+			}
 			fmt.Println(kc.PublicKeyHash)
-			return ctx.Config.Save()
+			return nil
 		},
 	},
 	{
-- 
2.43.0


From 4bf0090536b7ff0083b11c2591b7dd68ef246368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 18/20] fix: peerfactory: don't keep the address of a peer that
 closed before its announcement was handled

---
 internal/peerfactory/peerfactory.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index 80f38f2..6b62822 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -121,7 +121,10 @@ func (pf *PeerFactory) Loop() {
 			pf.addConn(conn)
 
 		case event := <-pf.subs.PeerAnnouncedAddr.C:
-			pf.knownPeerAddrs[event.PeerRuntimeId] = event.Addr
+			// The peer may have closed before we got to its announcement
+			if pf.knownPeers.Includes(event.PeerRuntimeId) {
+				pf.knownPeerAddrs[event.PeerRuntimeId] = event.Addr
+			}
 
 		case event := <-pf.subs.PeerClosing.C:
 			pf.knownPeers.Remove(event.PeerRuntimeId)
-- 
2.43.0


From 70884dd8b066094b3c14c965b25a070effac3161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 19/20] fix: prepending to a list overwrote the list shared
 with the other miners

Every miner gets the same list of transaction ids in a MinerTarget event and
puts its own coinbase in front of it. Prepending in place overwrote the shared
array, so with more than one miner the others saw each other's coinbase.
---
 pkg/util/util.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 1270868..d317907 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -11,18 +11,13 @@ func MapKeys[K comparable, V any](in map[K]V) []K {
 	return out
 }
 
-// Prepend into slice.
+// Prepend into a new slice, leaving the given one unchanged.
 func Prepend[K any](ls []K, items ...K) []K {
-	for _, item := range items {
-		if len(ls) == 0 {
-			ls = []K{item}
-		} else {
-			ls = append(ls, item)
-			copy(ls[1:], ls)
-			ls[0] = item
-		}
+	out := make([]K, 0, len(items)+len(ls))
+	for i := len(items) - 1; i >= 0; i-- {
+		out = append(out, items[i])
 	}
-	return ls
+	return append(out, ls...)
 }
 
 // Reverse a slice. Does not modify in-place, returns a new one.
-- 
2.43.0


From f69cccc12debf5aeef8f8d19e7c06c7d0eaff134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:55 +0000
Subject: [PATCH 20/20] fix: accept blocks whose txs were saved before a
 restart

Txs that were pending when a node stopped are known to its saved inventory, but in no
mempool once it restarts, so the node refused every block that included them.
---
 internal/chain/chain.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/chain/chain.go b/internal/chain/chain.go
index 5541a44..c155e44 100644
--- a/internal/chain/chain.go
+++ b/internal/chain/chain.go
@@ -176,15 +176,15 @@ func (c *Chain) handleCandidateHead(event bus.CandidateHeadEvent) error {
 	newState := c.state.Copy()
 	newState.RewindUntil(lcaId)
 	newBlocks := c.inv.GetBlockAncestorsUntil(event.Head, lcaId)
+	// A saved inventory can hold txs from before a restart, which are known yet not in our mempool
+	autoAddMempool := event.AutoAddMempoolInsecure || c.saveDir != nil
 	// Advance through intermediate blocks, then the new head
 	for i := len(newBlocks) - 1; i >= 0; i-- {
-		if err := newState.Advance(
-			newBlocks[i], event.AutoAddMempoolInsecure,
-		); err != nil {
+		if err := newState.Advance(newBlocks[i], autoAddMempool); err != nil {
 			return fmt.Errorf("failed to advance to block: %s", err.Error())
 		}
 	}
-	if err := newState.Advance(event.Head, event.AutoAddMempoolInsecure); err != nil {
+	if err := newState.Advance(event.Head, autoAddMempool); err != nil {
 		return fmt.Errorf("failed to advance to block: %s", err.Error())
 	}
 	// Shift to new head - don't return error after here or state will get corrupted
-- 
2.43.0

