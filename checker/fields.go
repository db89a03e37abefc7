package main

// Canonical names of unexported fields, by struct and field type (only where the type is unique in
// the struct), so that renaming a private field does not change any derived term.
var fieldTable = map[string]map[string]string{
	"chain.Chain": {
		"*bus.Bus":             "bus",
		"*chain.State":         "state",
		"*chain.subscriptions": "subs",
		"*inv.Inv":             "inv",
		"*string":              "saveDir",
		"bool":                 "supportMiners",
	},
	"chain.State": {
		"*set.Set[core.HashT]":               "mempool",
		"*set.Set[core.Utxo]":                "utxos",
		"core.HashT":                         "head",
		"inv.InvReader":                      "inv",
		"map[core.HashT]*set.Set[core.Utxo]": "pkhUtxos",
		"map[core.HashT]core.HashT":          "includedTxBlocks",
		"map[core.HashT]float64":             "mempoolRates",
		"map[core.Utxo]*set.Set[core.HashT]": "mempoolUtxoSpends",
	},
	"inv.Inv": {
		"*core.Verifier": "verifier",
		"*string":        "saveDir",
		"core.Params":    "coreParams",
		"inv.SomeSyncMap[core.HashT, inv.BlockRecord]":  "blocks",
		"inv.SomeSyncMap[core.HashT, inv.MerkleRecord]": "merkles",
		"inv.SomeSyncMap[core.HashT, inv.TxRecord]":     "txs",
	},
	"miner.Miner": {
		"*bus.Bus":             "bus",
		"*core.Block":          "template",
		"*core.Tx":             "outCoinbase",
		"*miner.subscriptions": "subs",
		"[]core.MerkleNode":    "outMerkles",
		"inv.InvReader":        "inv",
		"miner.Params":         "params",
	},
	"peer.Peer": {
		"*bus.Bus":            "bus",
		"*peer.subscriptions": "subs",
		"*prot.Conn":          "conn",
		"bool":                "shouldClose",
		"core.HashT":          "curHead",
		"inv.InvReader":       "inv",
	},
	"peerfactory.PeerFactory": {
		"*bus.Bus":                     "bus",
		"*peerfactory.subcriptions":    "subs",
		"*set.Set[string]":             "knownPeers",
		"*syncqueue.SyncQueue[string]": "newAddrs",
		"[]string":                     "seedAddrs",
		"atomic.Bool":                  "listenStarted",
		"chan *prot.Conn":              "newConns",
		"core.HashT":                   "curHead",
		"inv.InvReader":                "inv",
		"map[string]string":            "knownPeerAddrs",
		"peerfactory.Params":           "params",
	},
	"rest.BusClient": {
		"*bus.Bus": "bus",
	},
	"rest.Server": {
		"*rest.BusClient": "busClient",
		"inv.InvReader":   "inv",
		"rest.Params":     "params",
	},
	"core.HashT": {
		"[32]byte": "data",
	},
	"core.Verifier": {
		"core.InvVerifier": "inv",
		"core.Params":      "params",
	},
	"disksyncmap.DiskSyncMap": {
		"*syncmap.SyncMap[K, V]":            "m",
		"func(raw string) (v V, err error)": "parseFunc",
		"string":                            "basePath",
	},
	"prot.Conn": {
		"*net.TCPConn": "tc",
		"error":        "err",
		"prot.Params":  "params",
		"string":       "peerRuntimeId",
	},
	"queue.Queue": {
		"[]K": "q",
	},
	"set.Set": {
		"map[K]struct{}": "s",
	},
	"syncmap.SyncMap": {
		"sync.Map": "m",
	},
	"syncqueue.SyncQueue": {
		"*queue.Queue[K]": "q",
		"bool":            "closed",
		"sync.Mutex":      "mu",
	},
	"topic.SubCh": {
		"chan struct{}": "close",
		"topic.Sub[T]":  "subQueue",
	},
	"topic.Topic": {
		"map[uint64]*syncqueue.SyncQueue[T]": "subs",
		"sync.RWMutex":                       "mu",
		"uint64":                             "nextId",
	},
}
