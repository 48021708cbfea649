package chains

import (
	"encoding/json"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

// vpCount is any requested count.
func vpCount(name string) int {
	return int(int64(vpU64(name)))
}

// VP_C10_ids asks for any number of ancestors of any block of any tree.
func VP_C10_ids() {
	n := vpParam("n", 4)
	t := vpNewTree(1, 1000, 1)
	t.grow(n, 1, 1, true)
	t.checkIDs(vpInt("k", 0, n), vpCount("count"))
	t.l.Close()
}

// VP_C10_line asks for any number of ancestors of the top of a long chain, of a micro-block, or of a block near the top.
func VP_C10_line() {
	t, k := vpLine()
	t.checkIDs(k, vpCount("count"))
	t.l.Close()
}

// vpLine is a chain of d blocks of three generators with micro-blocks here and there, and one of its topmost blocks.
func vpLine() (*vpTree, int) {
	t := vpNewTree(1, 1000, 1)
	d := vpParam("d", 70)
	k := 0
	for i := 1; i <= d; i++ {
		k = t.put(k, 1000, uint64(i), i%3, 0)
		if i%16 == 5 {
			k = t.micro(k, 0)
		}
	}
	switch vpInt("top", 0, 3) {
	case 0:
	case 1:
		k = t.micro(k, 0)
	case 2:
		k = t.nodes[k].parent
	case 3:
		k = t.put(t.nodes[t.nodes[k].parent].parent, 1000, 99, 1, 0)
	}
	return t, k
}

func (t *vpTree) checkIDs(k, count int) {
	ids, err := t.l.LastIDs(t.nodes[k].id, count)
	vpNoErr(err, "the history of a known block is reported for any count")
	vpAssert(len(ids) <= count || len(ids) == 0, "never more IDs than asked for")
	j := k
	for i := range ids {
		vpAssert(j >= 0 && ids[i] == t.nodes[j].id, "IDs run from the block back to genesis without gaps")
		if j < 0 {
			break
		}
		j = t.nodes[j].parent
	}
	vpAssert(j < 0 || len(ids) >= count, "IDs are cut short only by genesis")
	if j < 0 {
		vpReach("genesis")
	} else {
		vpReach("cut")
	}
}

// VP_C10_unknown asks for the ancestors of an unknown block.
func VP_C10_unknown() {
	t := vpNewTree(1, 1000, 1)
	t.grow(vpParam("n", 2), 1, 1, true)
	id := vpSymID("id")
	vpAssume(!t.known(id))
	_, err := t.l.LastIDs(id, vpCount("count"))
	vpAssert(err != nil, "the history of an unknown block is an error")
	_, err = t.l.ForkGenerators(id, vpCount("count"))
	vpAssert(err != nil, "the generators of an unknown block are an error")
	vpReach("unknown")
	t.l.Close()
}

// VP_C11_generators asks for the generators of any number of blocks of any chain.
func VP_C11_generators() {
	n := vpParam("n", 3)
	t := vpNewTree(1, 1000, 1)
	t.grow(n, 1, vpParam("gens", 3), vpParam("micros", 1) == 1)
	t.checkGenerators(vpInt("k", 0, n), vpCount("count"))
	t.l.Close()
}

// VP_C11_line asks for the generators of any number of blocks near the top of a long chain.
func VP_C11_line() {
	t, k := vpLine()
	t.checkGenerators(k, vpCount("count"))
	t.l.Close()
}

func (t *vpTree) checkGenerators(k, count int) {
	gs, err := t.l.ForkGenerators(t.nodes[k].id, count)
	vpNoErr(err, "generators of a known block are reported for any count")
	want := map[int]int{}
	total := 0
	for j, c := k, 0; j >= 0 && c < count; j, c = t.nodes[j].parent, c+1 {
		want[t.nodes[j].gen]++
		total++
		vpReach("counted")
	}
	vpAssert(len(gs) == len(want), "one entry per generator")
	sum := 0
	for i, g := range gs {
		found := false
		for w, c := range want {
			if g.Generator == vpGenAddr(w) {
				vpAssert(g.Blocks == c, "a generator's blocks are counted exactly")
				found = true
			}
		}
		vpAssert(found, "only generators of the chain are listed")
		for _, h := range gs[:i] {
			vpAssert(h.Generator != g.Generator, "a generator is listed once")
			vpAssert(h.Blocks >= g.Blocks, "generators are in descending order of blocks")
		}
		sum += g.Blocks
	}
	vpAssert(sum == total, "every block is counted once")
}

// VP_C12_stats counts forks of any length around the threshold.
func VP_C12_stats() {
	d := vpParam("d", 8)
	t := vpNewTree(3, vpTarget("gbt", 2), 1)
	a := vpInt("a", 0, d)
	b := vpInt("b", 0, d)
	trunk := vpInt("trunk", 0, 2)
	base := t.chain(0, trunk, 1<<40, 0)
	t.leash[0] = -1
	x := t.chain(base, a, vpTarget("at", 2), 0)
	y := t.chain(base, b, vpTarget("bt", 2), 1)
	t.move(0, x)
	t.move(1, y)
	if vpInt("third", 0, 1) == 1 {
		t.move(2, base)
	}
	s, err := t.l.Stats()
	vpNoErr(err, "statistics are reported")
	fs, err := t.l.Forks(nil)
	vpNoErr(err, "forks are reported")
	long := 0
	for _, f := range fs {
		k, c := t.find(f.HeadBlock), t.find(f.LastCommonBlock)
		vpAssert(k >= 0 && c >= 0, "forks refer to known blocks")
		n := 0
		for j := k; j != c && j >= 0; j = t.nodes[j].parent {
			n++
		}
		if n > 5 {
			long++
			vpReach("long")
		} else {
			vpReach("short")
		}
	}
	vpAssert(s.Long == long, "forks longer than five blocks are long")
	vpAssert(s.Short == len(fs)-long, "all other forks are short")
	t.l.Close()
}

// VP_C14_reopen closes and reopens the store at any point of a history, starting with another genesis block.
func VP_C14_reopen() {
	n := vpParam("n", 3)
	t := vpNewTree(2, 1000, 1)
	at := vpInt("at", 0, n)
	for i := 0; i <= n; i++ {
		if i == at {
			t.l.Close()
			g := vpGenesis(1000, 1)
			same := vpInt("genesis", 0, 1) == 0
			if !same {
				g = *vpBlock(vpID(50), proto.BlockID{}, 5000, 99, 1)
			}
			l, err := NewLinkage(t.dir, vpScheme, g)
			vpNoErr(err, "an existing store opens")
			t.l = l
			if !same {
				ok, err := l.HasBlock(g.ID)
				vpNoErr(err, "asking for a block works")
				vpAssert(!ok, "another genesis block is not recorded in an existing store")
				vpReach("other")
				for p := range t.peers {
					if t.leash[p] < 0 {
						t.move(p, 0)
					}
				}
			}
			for j := range t.nodes {
				t.checkBlock(j)
			}
			t.checkHeads()
			t.checkLeashes()
			fs, err := l.Forks(nil)
			vpNoErr(err, "forks are reported")
			t.checkForks(fs, nil)
			vpReach("reopened")
		}
		if i < n {
			p := vpInt("peer", 0, 1)
			if len(t.nodes) > 1 && vpInt("micro", 0, 1) == 1 {
				t.micro(vpInt("ref", 1, len(t.nodes)-1), p)
			} else {
				t.put(vpInt("parent", 0, len(t.nodes)-1), 1000, uint64(10+i), 0, p)
			}
		}
	}
	t.checkAll()
	t.l.Close()
}

// vpQueries asks a store everything about everything it knows.
func (t *vpTree) queries(blocks []proto.BlockID) {
	for _, id := range blocks {
		_, err := t.l.Block(id)
		vpAssert(err == nil, "every known block reads back")
		_, err = t.l.LastIDs(id, 100)
		vpAssert(err == nil, "every known block has a history")
		_, err = t.l.ForkGenerators(id, 100)
		vpAssert(err == nil, "every known block has generators")
	}
	_, err := t.l.Heads()
	vpAssert(err == nil, "heads are listed")
	_, err = t.l.ActiveHeads()
	vpAssert(err == nil, "active heads are listed")
	_, err = t.l.Leashes()
	vpAssert(err == nil, "leashes are listed")
	_, err = t.l.Stats()
	vpAssert(err == nil, "statistics are reported")
	fs, err := t.l.Forks(nil)
	vpAssert(err == nil, "forks are reported")
	_, err = json.Marshal(fs)
	vpAssert(err == nil, "forks are presentable as JSON")
	for _, a := range t.peers {
		_, err = t.l.LCB(a)
		vpAssert(err == nil, "last common blocks are found")
		_, err = t.l.LeashScore(a)
		vpAssert(err == nil, "leash scores are found")
		ok, err := t.l.HasLeash(a)
		vpAssert(err == nil, "leashes are found")
		if ok {
			f, err := t.l.Fork(a)
			vpAssert(err == nil, "a leashed peer's fork is reported")
			_, err = json.Marshal(f)
			vpAssert(err == nil, "a fork is presentable as JSON")
		}
	}
	t.l.LogInitialStats()
}

// VP_C16_hostile delivers n blocks or micro-blocks with arbitrary content.
func VP_C16_hostile() {
	n := vpParam("n", 2)
	t := vpNewTree(2, 1000, 1)
	known := []proto.BlockID{t.nodes[0].id}
	for i := 0; i < n; i++ {
		p := i % 2
		var id, link proto.BlockID
		if k := vpInt("id", -2, len(known)-1); k >= 0 {
			id = known[k]
		} else if k == -1 {
			id = vpID(40 + i)
		}
		if k := vpInt("link", -2, len(known)-1); k >= 0 {
			link = known[k]
		} else if k == -1 {
			link = vpID(60 + i)
		}
		var err error
		if vpInt("kind", 0, 1) == 0 {
			bt := vpU64("bt")
			if vpParam("small", 0) == 1 {
				bt = vpIteU64(vpBool("extreme"), 1<<63, 1<<40)
			}
			b := vpBlock(id, link, bt, vpU64("ts"), 0)
			b.Version = proto.ProtobufBlockVersion
			if vpInt("legacy", 0, 1) == 1 {
				b.Version = proto.NgBlockVersion
			}
			if b.Version < proto.ProtobufBlockVersion {
				b.BlockSignature = *new(crypto.Signature)
				copy(b.BlockSignature[:], vpBytes("sig", 64))
			}
			id = b.BlockID()
			copy(b.GeneratorPublicKey[:], vpBytes("key", 32))
			err = t.l.PutBlock(b, t.peers[p])
			vpReach("block")
		} else {
			err = t.l.PutMicroBlock(vpMicro(id, link), t.peers[p])
			vpReach("micro")
		}
		ok, err2 := t.l.HasBlock(id)
		vpAssert(err2 == nil, "asking for a block works")
		vpAssert(err != nil || ok, "an accepted block is known")
		if err == nil {
			vpReach("accepted")
			fresh := true
			for _, k := range known {
				if k == id {
					fresh = false
				}
			}
			if fresh {
				known = append(known, id)
			}
		}
		t.queries(known)
	}
	t.l.Close()
}

// VP_C17_kinds delivers two blocks with arbitrary identifiers.
func VP_C17_kinds() {
	t := vpNewTree(2, 1000, 1)
	a := vpSymID("a")
	b := vpSymID("b")
	vpAssume(a != t.nodes[0].id)
	vpAssume(b != t.nodes[0].id)
	deliver := func(id proto.BlockID, parent proto.BlockID, ts uint64, p int) {
		blk := vpBlock(id, parent, 1000/uint64(p+1), ts, p)
		if id.IsSignature() {
			blk.Version = proto.NgBlockVersion
			blk.BlockSignature = id.Signature()
			blk.ID = vpID(90) // not what identifies a legacy block
		}
		vpNoErr(t.l.PutBlock(blk, t.peers[p]), "a block with a known parent is accepted")
		l, err := t.l.Leash(t.peers[p])
		vpNoErr(err, "a leash reads back")
		vpAssert(l == id, "a block is known under its signature in the legacy form and its digest in the current one")
	}
	parent := t.nodes[0].id
	deliver(a, parent, 5, 0)
	second := parent
	if vpInt("onA", 0, 1) == 1 {
		second = a
	}
	vpAssume(vpOr(a != b, second == parent))
	deliver(b, second, 6, 1)
	ba, err := t.l.Block(a)
	vpNoErr(err, "an accepted block reads back")
	vpAssert(ba.ID == a && ba.Parent == parent && ba.Timestamp == 5 && ba.Height == 2, "the first block keeps its record")
	bb, err := t.l.Block(b)
	vpNoErr(err, "an accepted block reads back")
	vpAssert(bb.ID == b, "the second block has its own ID")
	if a == b {
		vpReach("same")
		vpAssert(bb.Timestamp == 5, "the same identifier is the same block")
	} else {
		vpReach("different")
		vpAssert(bb.Timestamp == 6 && bb.Parent == second, "different identifiers are different blocks")
	}
	ca, err := t.l.LCB(t.peers[0])
	vpNoErr(err, "the last common block is reported")
	cb, err := t.l.LCB(t.peers[1])
	vpNoErr(err, "the last common block is reported")
	vpAssert(cb == b, "the heaviest chain is common with itself")
	if a == b || second == a {
		vpAssert(ca == a, "a block under the heaviest one is common")
	} else {
		vpAssert(ca == parent, "different blocks have their parent in common")
	}
	m := vpSymID("m")
	vpAssume(m != a)
	vpAssume(m != b)
	vpAssume(m != t.nodes[0].id)
	vpNoErr(t.l.PutMicroBlock(vpMicro(m, b), t.peers[0]), "a micro-block with a known reference of either kind is accepted")
	bm, err := t.l.Block(m)
	vpNoErr(err, "an accepted micro-block reads back")
	vpAssert(bm.ID == m && bm.Parent == bb.Parent && bm.Height == bb.Height, "a micro-block is recorded under its own ID")
	ids, err := t.l.LastIDs(m, 10)
	vpNoErr(err, "a history is reported")
	if second == parent {
		vpAssert(len(ids) == 2 && ids[0] == m && ids[1] == parent, "the history keeps every identifier")
	} else {
		vpAssert(len(ids) == 3 && ids[0] == m && ids[1] == a && ids[2] == parent, "the history keeps every identifier")
	}
	t.l.Close()
}
