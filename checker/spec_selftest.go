package main

func init() {
	register("contracts", "building block contracts", nil, func(c *Ctx) {
		c.contractInvReads("HasBlock", "HasMerkle", "HasTx", "GetBlock", "GetBlockHeight", "GetBlockTotalWork", "GetBlockParentId", "GetMerkle", "GetMerkleVSize", "GetTx", "GetTxVSize", "HasEntity", "GetEntityVSize", "HasTxOut", "GetTxOut", "GetMerkleTxs", "GetMerkleTxIds", "GetBlockAncestors", "GetBlockSpecificAncestor")
		c.contractSyncMap()
		c.contractSet()
		c.contractQueue()
		c.contractUtil()
	})
}
