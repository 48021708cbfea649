package chains

import (
	"errors"
	"math/big"
	"net/netip"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

// grow delivers n blocks or micro-blocks over any tree shape, from any of the peers.
func (t *vpTree) grow(n, targets, gens int, micros bool) {
	for i := 1; i <= n; i++ {
		peer := 0
		if len(t.peers) > 1 {
			peer = vpInt("peer", 0, len(t.peers)-1)
		}
		if micros && i > 1 && vpInt("micro", 0, 1) == 1 {
			t.micro(vpInt("ref", 1, i-1), peer)
			vpReach("micro")
			continue
		}
		gen := 0
		if gens > 1 {
			gen = vpInt("gen", 0, gens-1)
		}
		t.put(vpInt("parent", 0, i-1), vpTarget("bt", targets), uint64(1000+i), gen, peer)
		vpReach("block")
	}
}

// chain appends n blocks on top of a node, from one peer, and returns the last one.
func (t *vpTree) chain(from, n int, bt uint64, peer int) int {
	for i := 0; i < n; i++ {
		from = t.put(from, bt, uint64(1000+len(t.nodes)), 0, peer)
	}
	return from
}

// moves assigns a leash to every peer: any block or none.
func (t *vpTree) moves() {
	for p := range t.peers {
		if t.leash[p] >= 0 {
			continue
		}
		k := vpInt("leash", -1, len(t.nodes)-1)
		if k >= 0 {
			t.move(p, k)
		}
	}
}

func (t *vpTree) move(p, k int) {
	err := t.l.MoveLeash(t.nodes[k].id, t.peers[p])
	vpNoErr(err, "a leash moves to a known block")
	t.leash[p] = k
}

func (t *vpTree) isHead(i int) bool { return len(t.nodes[i].next) == 0 && !t.nodes[i].super }

func (t *vpTree) peersOn(i int, sel func(p int) bool) int {
	c := 0
	for p := range t.peers {
		if t.leash[p] == i && (sel == nil || sel(p)) {
			c++
		}
	}
	return c
}

// heaviest tells whether block i has the highest score of all leashed blocks, then the most peers.
func (t *vpTree) heaviest(i int, sel func(p int) bool) bool {
	ci := t.peersOn(i, sel)
	if ci == 0 {
		return false
	}
	r := true
	for j := range t.nodes {
		cj := t.peersOn(j, sel)
		if j == i || cj == 0 {
			continue
		}
		c := t.nodes[i].score.Cmp(t.nodes[j].score)
		r = vpAnd(r, vpOr(c > 0, vpAnd(c == 0, ci >= cj)))
	}
	return r
}

// strictly tells whether i comes before j in the report.
func (t *vpTree) before(i, j int, sel func(p int) bool) bool {
	c := t.nodes[i].score.Cmp(t.nodes[j].score)
	return vpOr(c > 0, vpAnd(c == 0, t.peersOn(i, sel) >= t.peersOn(j, sel)))
}

// checkHeads compares the heads and the active heads with the model.
func (t *vpTree) checkHeads() {
	hs, err := t.l.Heads()
	vpNoErr(err, "heads are listed")
	t.compareHeads(hs, "heads", func(i int) bool { return t.isHead(i) })
	as, err := t.l.ActiveHeads()
	vpNoErr(err, "active heads are listed")
	t.compareHeads(as, "active heads", func(i int) bool { return t.isHead(i) && t.peersOn(i, nil) > 0 })
}

func (t *vpTree) compareHeads(hs []Head, what string, want func(i int) bool) {
	n := 0
	for i := range t.nodes {
		if !want(i) {
			continue
		}
		n++
		found := 0
		for _, h := range hs {
			if h.BlockID == t.nodes[i].id {
				found++
				vpAssert(h.ID == uint64(t.nodes[i].num), what+" keep their numbers")
			}
		}
		vpAssert(found == 1, what+" are exactly the chain tips")
	}
	vpAssert(len(hs) == n, what+" are only the chain tips")
}

// checkLeashes compares all leashes with the model.
func (t *vpTree) checkLeashes() {
	ls, err := t.l.Leashes()
	vpNoErr(err, "leashes are listed")
	n := 0
	for p, a := range t.peers {
		id, err := t.l.Leash(a)
		vpNoErr(err, "a leash reads back")
		has, err := t.l.HasLeash(a)
		vpNoErr(err, "a leash can be asked for")
		s, err := t.l.LeashScore(a)
		vpNoErr(err, "a leash score reads back")
		if t.leash[p] < 0 {
			vpAssert(!has, "a peer that delivered nothing has no leash")
			vpAssert(id == t.nodes[0].id, "a peer without a leash reports genesis")
			vpAssert(s.Cmp(t.nodes[0].score) == 0, "a peer without a leash reports the genesis score")
			continue
		}
		n++
		vpAssert(has, "a peer that delivered a block has a leash")
		vpAssert(id == t.nodes[t.leash[p]].id, "a leash is the last block delivered or assigned")
		vpAssert(s.Cmp(t.nodes[t.leash[p]].score) == 0, "a leash score is the block's score")
		found := 0
		for _, l := range ls {
			if l.Addr == a {
				found++
				vpAssert(l.BlockID == t.nodes[t.leash[p]].id, "a listed leash is the current one")
			}
		}
		vpAssert(found == 1, "every leash is listed exactly once")
	}
	vpAssert(len(ls) == n, "no other leashes are listed")
}

// checkAll compares everything the store reports with the model.
func (t *vpTree) checkAll() {
	for i := range t.nodes {
		t.checkBlock(i)
	}
	t.checkHeads()
	t.checkLeashes()
}

// checkLCB checks the last common block of a peer.
func (t *vpTree) checkLCB(p int) {
	id, err := t.l.LCB(t.peers[p])
	vpNoErr(err, "the last common block is found")
	if t.leash[p] < 0 {
		vpAssert(id == t.nodes[0].id, "the last common block of a peer without a leash is genesis")
		return
	}
	ok := false
	for i := range t.nodes {
		if t.peersOn(i, nil) == 0 {
			continue
		}
		ok = vpOr(ok, vpAnd(t.heaviest(i, nil), id == t.nodes[t.lca(t.leash[p], i)].id))
	}
	vpAssert(ok, "the last common block is the lowest common ancestor with the heaviest leashed block")
}

func (t *vpTree) peerIndex(a netip.Addr) int {
	for p := range t.peers {
		if t.peers[p] == a {
			return p
		}
	}
	return -1
}

// checkFork compares one entry of a report with the model and returns the head's index.
func (t *vpTree) checkFork(f Fork, sel func(p int) bool) int {
	k := t.find(f.HeadBlock)
	vpAssert(k >= 0, "a fork's head is a known block")
	if k < 0 {
		vpAssume(false)
	}
	n := t.nodes[k]
	seen := 0
	for _, a := range f.Peers {
		p := t.peerIndex(a)
		vpAssert(p >= 0 && t.leash[p] == k && (sel == nil || sel(p)), "a fork lists only selected peers leashed to its head")
		seen++
		for _, b := range f.Peers[seen:] {
			vpAssert(a != b, "a fork lists a peer once")
		}
	}
	vpAssert(seen == t.peersOn(k, sel), "a fork lists all selected peers leashed to its head")
	vpAssert(f.PeersCount == seen, "a fork counts its peers")
	vpAssert(int(f.HeadHeight) == n.height, "a fork reports its head's height")
	vpAssert(f.Score.Cmp(n.score) == 0, "a fork reports its head's score")
	vpAssert(f.HeadTimestamp.UnixMilli() == int64(n.ts), "a fork reports its head's timestamp")
	vpAssert(f.HeadGenerator == vpGenAddr(n.gen), "a fork reports its head's generator")
	c := t.find(f.LastCommonBlock)
	vpAssert(c >= 0, "a fork's last common block is known")
	if c < 0 {
		vpAssume(false)
	}
	vpAssert(f.Length == n.height-t.nodes[c].height, "a fork's length is its height above the last common block")
	return k
}

// checkForks compares a report with the model.
func (t *vpTree) checkForks(fs []Fork, sel func(p int) bool) {
	want := 0
	for i := range t.nodes {
		if t.peersOn(i, sel) > 0 {
			want++
		}
	}
	vpAssert(len(fs) == want, "the report has one entry per leashed block")
	first := -1
	prev := -1
	seen := make([]bool, len(t.nodes))
	for i, f := range fs {
		k := t.checkFork(f, sel)
		vpAssert(!seen[k], "the report lists a block once")
		seen[k] = true
		vpAssert(f.Longest == (i == 0), "exactly the first entry is the longest")
		if i == 0 {
			first = k
		} else {
			vpAssert(t.before(prev, k, sel), "the report is ordered by score, then by peers")
		}
		prev = k
		vpAssert(f.LastCommonBlock == t.nodes[t.lca(first, k)].id, "a fork's last common block is the lowest common ancestor with the longest")
	}
}

func vpIsParentNotFound(err error) bool { return errors.Is(err, ErrParentNotFound) }
func vpIsRefNotFound(err error) bool    { return errors.Is(err, ErrRefNotFound) }

func vpCloneScore(s *big.Int) *big.Int { return new(big.Int).Set(s) }

func vpMicro(total, ref proto.BlockID) *proto.MicroBlockInv {
	return &proto.MicroBlockInv{TotalBlockID: total, Reference: ref}
}
