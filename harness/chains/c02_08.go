package chains

import (
	"net/netip"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

// vpSymID is an arbitrary identifier of either kind.
func vpSymID(name string) proto.BlockID {
	if vpInt(name+"kind", 0, 1) == 1 {
		var s crypto.Signature
		copy(s[:], vpBytes(name, 64))
		return proto.NewBlockIDFromSignature(s)
	}
	var d crypto.Digest
	copy(d[:], vpBytes(name, 32))
	return proto.NewBlockIDFromDigest(d)
}

// known tells whether an identifier is one of the recorded blocks'.
func (t *vpTree) known(id proto.BlockID) bool {
	r := false
	for i := range t.nodes {
		r = vpOr(r, t.nodes[i].id == id)
	}
	return r
}

// VP_C02_unlinkable delivers, after any history of n events, a block and a micro-block with arbitrary unknown IDs and links.
func VP_C02_unlinkable() {
	n := vpParam("n", 2)
	t := vpNewTree(2, 1000, 1)
	t.grow(n, 1, 1, true)
	id, link := vpSymID("id"), vpSymID("link")
	vpAssume(!t.known(id))
	vpAssume(!t.known(link))
	p := vpInt("from", 0, 1)
	if vpInt("kind", 0, 1) == 0 {
		err := t.l.PutBlock(vpBlock(id, link, vpU64("bt"), 7, 0), t.peers[p])
		vpAssert(vpIsParentNotFound(err), "a block with an unknown parent is refused with ErrParentNotFound")
		vpReach("parent")
	} else {
		err := t.l.PutMicroBlock(vpMicro(id, link), t.peers[p])
		vpAssert(vpIsRefNotFound(err), "a micro-block with an unknown reference is refused with ErrRefNotFound")
		vpReach("ref")
	}
	ok, err := t.l.HasBlock(id)
	vpNoErr(err, "asking for a block works")
	vpAssert(!ok, "a refused block is not known")
	t.checkAll()
	// What follows is recorded as if the refused delivery had not happened.
	t.put(vpInt("parent", 0, len(t.nodes)-1), 1000, 9, 0, 1-p)
	t.checkAll()
	t.l.Close()
}

// VP_C02_known asks for an arbitrary identifier after any history of n events.
func VP_C02_known() {
	n := vpParam("n", 3)
	t := vpNewTree(1, 1000, 1)
	t.grow(n, 1, 1, true)
	id := vpSymID("id")
	ok, err := t.l.HasBlock(id)
	vpNoErr(err, "asking for a block works")
	vpAssert(ok == t.known(id), "a block is known if and only if it was accepted")
	if ok {
		vpReach("known")
	} else {
		vpReach("unknown")
	}
	t.l.Close()
}

// VP_C02_again delivers a known block or micro-block again, possibly with another content.
func VP_C02_again() {
	n := vpParam("n", 2)
	t := vpNewTree(2, 1000, 1)
	t.grow(n, 1, 1, true)
	k := vpInt("again", 0, n)
	p := vpInt("from", 0, 1)
	var link proto.BlockID
	if j := vpInt("link", -1, n); j >= 0 {
		link = t.nodes[j].id
	} else {
		link = vpID(77)
	}
	if vpInt("kind", 0, 1) == 0 {
		err := t.l.PutBlock(vpBlock(t.nodes[k].id, link, vpU64("bt"), vpU64("ts"), 1), t.peers[p])
		vpNoErr(err, "a known block is accepted again")
		vpReach("block again")
	} else {
		err := t.l.PutMicroBlock(vpMicro(t.nodes[k].id, link), t.peers[p])
		vpNoErr(err, "a known micro-block is accepted again")
		vpReach("micro again")
	}
	t.leash[p] = k
	t.checkAll()
	t.put(vpInt("parent2", 0, len(t.nodes)-1), 1000, 9, 0, 1-p)
	t.checkAll()
	t.l.Close()
}

// VP_C03_tree compares the last common block of any two blocks of any tree of n events.
func VP_C03_tree() {
	n := vpParam("n", 4)
	t := vpNewTree(1, 1000, 1)
	t.peers = append(t.peers, vpAddr4(1))
	t.leash = append(t.leash, -1)
	t.peers = t.peers[:1]
	t.grow(n, 1, 1, true)
	t.peers = t.peers[:2]
	for a := range t.nodes {
		t.move(0, a)
		for b := range t.nodes {
			if a == b {
				continue
			}
			t.move(1, b)
			t.checkLCB(0)
			fs, err := t.l.Forks(nil)
			vpNoErr(err, "forks are reported")
			vpAssert(len(fs) == 2, "two leashed blocks are two forks")
			want := t.nodes[t.lca(a, b)].id
			for _, f := range fs {
				vpAssert(f.LastCommonBlock == want || f.Longest, "the last common block of two chains is their lowest common ancestor")
			}
			vpReach("pair")
		}
	}
	t.l.Close()
}

// VP_C03_deep compares two long branches that part at any height of a trunk.
func VP_C03_deep() {
	d, b1, b2 := vpParam("trunk", 9), vpParam("a", 9), vpParam("b", 9)
	t := vpNewTree(2, 1000, 1)
	at := vpInt("at", 0, d)
	base := t.chain(0, at, 1000, 0)
	as := []int{base}
	bs := []int{base}
	for i := 0; i < b1; i++ {
		as = append(as, t.put(as[i], 1000, uint64(5000+i), 0, 0))
	}
	for i := 0; i < b2; i++ {
		bs = append(bs, t.put(bs[i], 2000, uint64(9000+i), 0, 1))
	}
	if vpInt("m", 0, 1) == 1 {
		as = append(as, t.micro(as[len(as)-1], 0))
		bs = append(bs, t.micro(bs[len(bs)-1], 1))
	}
	want := t.nodes[base].id
	for i := 1; i < len(as); i++ {
		t.move(0, as[i])
		for j := 1; j < len(bs); j++ {
			t.move(1, bs[j])
			fs, err := t.l.Forks(nil)
			vpNoErr(err, "forks are reported")
			vpAssert(len(fs) == 2 && fs[1].LastCommonBlock == want, "the last common block of two branches is where they part")
			id, err := t.l.LCB(t.peers[1])
			vpNoErr(err, "the last common block is found")
			vpAssert(id == want || fs[0].Peers[0] == t.peers[1], "the last common block of two branches is where they part")
			vpReach("pair")
		}
	}
	t.l.Close()
}

// VP_C03_line compares two blocks of one long chain, with micro-blocks at the end.
func VP_C03_line() {
	d := vpParam("d", 17)
	t := vpNewTree(2, 1000, 1)
	top := t.chain(0, d, 1000, 0)
	if vpInt("m", 0, 1) == 1 {
		top = t.micro(top, 0)
		vpReach("micro")
	}
	t.move(0, top)
	k := vpInt("k", 0, d)
	t.move(1, k)
	fs, err := t.l.Forks(nil)
	vpNoErr(err, "forks are reported")
	for _, f := range fs {
		if f.HeadBlock == t.nodes[k].id {
			vpAssert(f.LastCommonBlock == t.nodes[t.lca(top, k)].id, "an ancestor is the last common block")
			vpReach("ancestor")
		}
	}
	t.l.Close()
}

// VP_C04_lcb checks every peer's last common block for any tree, scores and leashes.
func VP_C04_lcb() {
	n := vpParam("n", 3)
	t := vpNewTree(1, vpTarget("gbt", 2), 1)
	t.grow(n, vpParam("targets", 2), 1, vpParam("micros", 1) == 1)
	for i := 1; i < vpParam("peers", 3); i++ {
		t.peers = append(t.peers, vpAddr4(i))
		t.leash = append(t.leash, -1)
	}
	t.leash[0] = -1
	k := vpInt("leash0", 0, len(t.nodes)-1)
	t.move(0, k)
	t.moves()
	vpMapOrders(vpParam("orders", 1) == 1)
	t.checkLCB(vpInt("of", 0, len(t.peers)-1))
	vpReach("lcb")
	t.l.Close()
}

// VP_C05_forks checks the forks report for any tree, scores, leashes and selection of peers.
func VP_C05_forks() {
	n := vpParam("n", 3)
	t := vpNewTree(1, vpTarget("gbt", 2), 1)
	t.grow(n, vpParam("targets", 2), 1, vpParam("micros", 1) == 1)
	for i := 1; i < vpParam("peers", 3); i++ {
		t.peers = append(t.peers, vpAddr4(i))
		t.leash = append(t.leash, -1)
	}
	t.moves()
	fs, err := t.l.Forks(nil)
	vpNoErr(err, "forks are reported")
	t.checkForks(fs, nil)
	vpReach("all")
	lp := LookupPeers{}
	sel := make([]bool, len(t.peers))
	any := false
	for p := range t.peers {
		if vpInt("sel", 0, 1) == 1 {
			sel[p] = true
			any = true
			lp[t.peers[p]] = struct{}{}
		}
	}
	if vpInt("stranger", 0, 1) == 1 {
		lp[vpAddr4(100)] = struct{}{}
		any = true
	}
	fs, err = t.l.Forks(lp)
	vpNoErr(err, "forks are reported")
	if !any {
		t.checkForks(fs, nil)
	} else {
		t.checkForks(fs, func(p int) bool { return sel[p] })
		vpReach("some")
	}
	t.l.Close()
}

// VP_C05_none asks for forks of a store nobody is leashed in.
func VP_C05_none() {
	t := vpNewTree(1, vpU64("gbt"), 1)
	lp := LookupPeers{}
	if vpInt("filter", 0, 1) == 1 {
		lp[vpAddr4(0)] = struct{}{}
	}
	fs, err := t.l.Forks(lp)
	vpNoErr(err, "forks are reported")
	vpAssert(len(fs) == 0, "nobody is leashed, so there are no forks")
	s, err := t.l.Stats()
	vpNoErr(err, "statistics are reported")
	vpAssert(s.Short == 0 && s.Long == 0, "nobody is leashed, so there are no forks")
	vpReach("none")
	t.l.Close()
}

// VP_C06_fork compares the single-peer report with the complete one.
func VP_C06_fork() {
	n := vpParam("n", 3)
	t := vpNewTree(1, vpTarget("gbt", 2), 1)
	t.grow(n, vpParam("targets", 2), 1, vpParam("micros", 1) == 1)
	for i := 1; i < vpParam("peers", 3); i++ {
		t.peers = append(t.peers, vpAddr4(i))
		t.leash = append(t.leash, -1)
	}
	t.leash[0] = -1
	t.move(0, vpInt("leash0", 0, len(t.nodes)-1))
	t.moves()
	fs, err := t.l.Forks(nil)
	vpNoErr(err, "forks are reported")
	for p := range t.peers {
		if t.leash[p] < 0 {
			continue
		}
		f, err := t.l.Fork(t.peers[p])
		vpNoErr(err, "a leashed peer's fork is reported")
		k := t.checkFork(f, nil)
		vpAssert(k == t.leash[p], "a peer's fork is headed by its leash")
		// The longest may be chosen differently only among entries that tie in score and peers.
		ok := false
		for i := range t.nodes {
			if t.peersOn(i, nil) == 0 {
				continue
			}
			ok = vpOr(ok, vpAnd(t.heaviest(i, nil), f.LastCommonBlock == t.nodes[t.lca(k, i)].id, f.Longest == (i == k)))
		}
		vpAssert(ok, "a peer's fork is measured against the heaviest leashed block")
		for _, e := range fs {
			if e.HeadBlock != f.HeadBlock {
				continue
			}
			vpAssert(e.HeadHeight == f.HeadHeight && e.Score.Cmp(f.Score) == 0 && e.PeersCount == f.PeersCount && e.HeadTimestamp.Equal(f.HeadTimestamp) &&
				e.HeadGenerator == f.HeadGenerator, "the single fork agrees with the report")
			vpReach("compared")
		}
	}
	t.l.Close()
}

// VP_C07_leashes makes n moves and deliveries of arbitrary addresses.
func VP_C07_leashes() {
	n := vpParam("n", 2)
	t := vpNewTree(0, 1000, 1)
	peers := vpParam("peers", 2)
	for i := 0; i < peers; i++ {
		var a netip.Addr
		if vpInt("v6", 0, 1) == 0 {
			var b [4]byte
			copy(b[:], vpBytes("a4", 4))
			a = netip.AddrFrom4(b)
		} else {
			var b [16]byte
			copy(b[:], vpBytes("a6", 16))
			a = netip.AddrFrom16(b)
		}
		for _, o := range t.peers {
			vpAssume(a != o)
		}
		t.peers = append(t.peers, a)
		t.leash = append(t.leash, -1)
	}
	for i := 0; i < n; i++ {
		p := vpInt("peer", 0, peers-1)
		switch vpInt("op", 0, 2) {
		case 0:
			t.put(vpInt("parent", 0, len(t.nodes)-1), 1000, uint64(i+2), 0, p)
		case 1:
			if len(t.nodes) < 2 {
				vpAssume(false)
			}
			t.micro(len(t.nodes)-1, p)
		default:
			t.move(p, vpInt("to", 0, len(t.nodes)-1))
		}
	}
	t.checkLeashes()
	vpReach("checked")
	t.l.Close()
}

// VP_C08_heads checks heads and active heads after any history of n events.
func VP_C08_heads() {
	n := vpParam("n", 3)
	t := vpNewTree(2, 1000, 1)
	t.grow(n, 1, 1, true)
	if vpInt("move", 0, 1) == 1 {
		t.move(0, vpInt("to", 0, len(t.nodes)-1))
	}
	t.checkHeads()
	for i := range t.nodes {
		if t.isHead(i) {
			vpReach("head")
		}
	}
	t.l.Close()
}

// VP_C08_history follows the heads' numbers through a history, step by step.
func VP_C08_history() {
	n := vpParam("n", 4)
	t := vpNewTree(1, 1000, 1)
	for i := 1; i <= n; i++ {
		t.grow1(i)
		t.checkHeads()
		vpReach("step")
	}
	t.l.Close()
}

func (t *vpTree) grow1(i int) {
	if i > 1 && vpInt("micro", 0, 1) == 1 {
		t.micro(vpInt("ref", 1, len(t.nodes)-1), 0)
		return
	}
	t.put(vpInt("parent", 0, len(t.nodes)-1), 1000, uint64(1000+i), 0, 0)
}
