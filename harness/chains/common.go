package chains

import (
	"math/big"
	"net/netip"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

const vpScheme = proto.Scheme('W')

// vpNode is the model's record of one accepted block.
type vpNode struct {
	id     proto.BlockID
	parent int // index of the parent, -1 for genesis
	height int
	score  *big.Int
	ts     uint64
	gen    int
	next   []int // blocks that build on this one
	super  bool  // superseded by a micro-block
	num    int   // head number, while it is a head
}

// vpTree is the model of a store next to the real one.
type vpTree struct {
	l     *Linkage
	dir   string
	nodes []vpNode
	peers []netip.Addr
	leash []int // node index or -1
	heads int   // numbers handed out
}

func vpID(i int) proto.BlockID {
	if i%3 == 2 {
		var s crypto.Signature
		s[0], s[62], s[63] = 0x55, byte(i>>8), byte(i)
		return proto.NewBlockIDFromSignature(s)
	}
	var d crypto.Digest
	d[0], d[30], d[31] = 0x77, byte(i>>8), byte(i)
	return proto.NewBlockIDFromDigest(d)
}

func vpKey(g int) crypto.PublicKey {
	var k crypto.PublicKey
	k[0], k[30], k[31] = 0x11, byte(g>>8), byte(g)
	return k
}

func vpGenAddr(g int) proto.WavesAddress {
	a, err := proto.NewAddressFromPublicKey(vpScheme, vpKey(g))
	if err != nil {
		panic(err)
	}
	return a
}

func vpAddr4(i int) netip.Addr {
	return netip.AddrFrom4([4]byte{10, 0, byte((i + 1) >> 8), byte(i + 1)})
}

func vpTwo64() *big.Int { return new(big.Int).Lsh(big.NewInt(1), 64) }

// vpScoreOf is the reference definition of a block's own score.
func vpScoreOf(bt uint64) *big.Int {
	if bt == 0 {
		return new(big.Int)
	}
	return new(big.Int).Div(vpTwo64(), new(big.Int).SetUint64(bt))
}

func vpBlock(id, parent proto.BlockID, bt, ts uint64, gen int) *proto.Block {
	b := &proto.Block{}
	b.Version = proto.ProtobufBlockVersion
	b.ID = id
	b.Parent = parent
	b.BaseTarget = bt
	b.Timestamp = ts
	b.GeneratorPublicKey = vpKey(gen)
	return b
}

func vpGenesis(bt, ts uint64) proto.Block {
	return *vpBlock(vpID(0), proto.BlockID{}, bt, ts, 0)
}

func vpNoErr(err error, what string) {
	vpAssert(err == nil, what)
	if err != nil {
		vpAssume(false)
	}
}

func vpNewTree(peers int, bt, ts uint64) *vpTree {
	t := &vpTree{dir: vpTempDir()}
	g := vpGenesis(bt, ts)
	l, err := NewLinkage(t.dir, vpScheme, g)
	vpNoErr(err, "a fresh store opens")
	t.l = l
	t.heads = 1
	t.nodes = append(t.nodes, vpNode{id: g.ID, parent: -1, height: 1, score: vpScoreOf(bt), ts: ts, num: 1})
	for i := 0; i < peers; i++ {
		t.peers = append(t.peers, vpAddr4(i))
		t.leash = append(t.leash, -1)
	}
	return t
}

// record adds an accepted block to the model.
func (t *vpTree) record(n vpNode, supersedes int) int {
	k := len(t.nodes)
	base := n.parent
	if supersedes >= 0 {
		base = supersedes
	}
	b := &t.nodes[base]
	if len(b.next) == 0 && !b.super {
		n.num = b.num
	} else {
		t.heads++
		n.num = t.heads
	}
	if supersedes >= 0 {
		b.super = true
	} else {
		b.next = append(b.next, k)
	}
	t.nodes = append(t.nodes, n)
	return k
}

// put delivers a new block from a peer and records it in the model.
func (t *vpTree) put(parent int, bt, ts uint64, gen, peer int) int {
	id := vpID(len(t.nodes))
	p := t.nodes[parent]
	err := t.l.PutBlock(vpBlock(id, p.id, bt, ts, gen), t.peers[peer])
	vpNoErr(err, "a block with a known parent is accepted")
	k := t.record(vpNode{id: id, parent: parent, height: p.height + 1, score: new(big.Int).Add(p.score, vpScoreOf(bt)), ts: ts, gen: gen}, -1)
	t.leash[peer] = k
	return k
}

// micro delivers a new micro-block superseding a block.
func (t *vpTree) micro(ref, peer int) int {
	id := vpID(len(t.nodes))
	r := t.nodes[ref]
	err := t.l.PutMicroBlock(&proto.MicroBlockInv{TotalBlockID: id, Reference: r.id}, t.peers[peer])
	vpNoErr(err, "a micro-block with a known reference is accepted")
	k := t.record(vpNode{id: id, parent: r.parent, height: r.height, score: r.score, ts: r.ts, gen: r.gen}, ref)
	t.leash[peer] = k
	return k
}

// isAncestor tells whether a is b or an ancestor of it.
func (t *vpTree) isAncestor(a, b int) bool {
	for b >= 0 {
		if a == b {
			return true
		}
		b = t.nodes[b].parent
	}
	return false
}

// lca is the reference last common ancestor.
func (t *vpTree) lca(a, b int) int {
	for !t.isAncestor(a, b) {
		a = t.nodes[a].parent
	}
	return a
}

func (t *vpTree) find(id proto.BlockID) int {
	for i := range t.nodes {
		if t.nodes[i].id == id {
			return i
		}
	}
	return -1
}

// checkBlock compares a stored block with the model.
func (t *vpTree) checkBlock(i int) {
	n := t.nodes[i]
	ok, err := t.l.HasBlock(n.id)
	vpNoErr(err, "asking for a known block works")
	vpAssert(ok, "an accepted block is reported as known")
	b, err := t.l.Block(n.id)
	vpNoErr(err, "an accepted block reads back")
	vpAssert(b.ID == n.id, "a block reads back with its ID")
	if n.parent >= 0 {
		vpAssert(b.Parent == t.nodes[n.parent].id, "a block reads back with its parent")
	} else {
		vpAssert(b.Parent == proto.BlockID{}, "genesis has no parent")
	}
	vpAssert(int(b.Height) == n.height, "a block's height is one above its parent's")
	vpAssert(b.Score != nil && b.Score.Cmp(n.score) == 0, "a block's score is its parent's plus its own")
	vpAssert(b.Timestamp == int64(n.ts), "a block reads back with its timestamp")
	vpAssert(b.Generator == vpGenAddr(n.gen), "a block reads back with its generator")
}

// vpTargets picks a symbolic base target out of a few values with distinct block scores.
func vpTarget(name string, n int) uint64 {
	k := vpIntSym(name, 0, n-1)
	r := uint64(1 << 40)
	for i := 1; i < n; i++ {
		r = vpIteU64(k == i, uint64(1<<40)>>uint(i), r)
	}
	return r
}
