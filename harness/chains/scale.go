package chains

import (
	"github.com/wavesplatform/gowaves/pkg/proto"
)

// The harnesses of this file are about stores much larger than what the others can go through entirely: a page, a
// byte, a cache or a limit that no small store reaches. Only a few things are free in them.

// vpWide is a store of many branches and many peers.
type vpWide struct {
	*vpTree
	at  map[proto.BlockID]int
	on  []int // selected peers by block
	top int   // the heaviest block with selected peers
}

// newWide grows w branches of one to eight blocks on a trunk of 20, one of them with a free weight, each delivered by a peer of its own;
// every fourth peer comes back to another block, every tenth is on the trunk.
func newWide(w int) *vpWide {
	t := &vpWide{vpTree: vpNewTree(w, 1000, 1), at: map[proto.BlockID]int{}}
	trunk := []int{0}
	for i := 0; i < 20; i++ {
		trunk = append(trunk, t.put(trunk[i], 1000, uint64(10+i), 0, 0))
	}
	free := []int{0, w / 2, w - 1}[vpInt("free", 0, 2)]
	// Lighter or heavier than all others, or somewhere between them, on a par with one.
	x := vpIntSym("bt", 0, 3)
	bt := vpIteU64(x == 0, 10, vpIteU64(x == 1, 2000, vpIteU64(x == 2, uint64(2000+w/2*16), 1<<40)))
	tips := []int{}
	for i := 0; i < w; i++ {
		k := trunk[(i*5)%21]
		for j := 0; j <= i%8; j++ {
			v := uint64(2000 + i*16 + j)
			if i == free && j == 0 {
				v = bt
			}
			k = t.put(k, v, uint64(100+len(t.nodes)), i%40, i)
		}
		if i%5 == 3 {
			k = t.micro(k, i)
		}
		tips = append(tips, k)
	}
	for i := range tips {
		switch {
		case i%10 == 7:
			t.move(i, trunk[i%21])
		case i%4 == 2:
			t.move(i, tips[(i*5)%w])
		}
	}
	for i, n := range t.nodes {
		t.at[n.id] = i
	}
	t.count(nil)
	return t
}

func (t *vpWide) count(sel func(p int) bool) {
	t.on = make([]int, len(t.nodes))
	t.top = -1
	for p, k := range t.leash {
		if k >= 0 && (sel == nil || sel(p)) {
			t.on[k]++
		}
	}
}

func (t *vpWide) before2(i, j int) bool {
	c := t.nodes[i].score.Cmp(t.nodes[j].score)
	return vpOr(c > 0, vpAnd(c == 0, t.on[i] >= t.on[j]))
}

func (t *vpWide) compareHeadsWide(hs []Head, what string, want func(i int) bool) {
	seen := make([]bool, len(t.nodes))
	for _, h := range hs {
		i, ok := t.at[h.BlockID]
		vpAssert(ok && want(i) && !seen[i], what+" are only the chain tips")
		if !ok {
			continue
		}
		seen[i] = true
		vpAssert(h.ID == uint64(t.nodes[i].num), what+" keep their numbers")
	}
	for i := range t.nodes {
		vpAssert(seen[i] == want(i), what+" are exactly the chain tips")
	}
}

func (t *vpWide) forksWide(fs []Fork, sel func(p int) bool) {
	t.count(sel)
	want := 0
	for _, c := range t.on {
		if c > 0 {
			want++
		}
	}
	vpAssert(len(fs) == want, "the report has one entry per leashed block")
	first, prev := -1, -1
	seen := make([]bool, len(t.nodes))
	for i, f := range fs {
		k, ok := t.at[f.HeadBlock]
		vpAssert(ok && t.on[k] > 0 && !seen[k], "the report lists every leashed block once")
		if !ok {
			return
		}
		seen[k] = true
		t.entry(f, k, sel)
		vpAssert(f.Longest == (i == 0), "exactly the first entry is the longest")
		if i == 0 {
			first = k
		} else {
			vpAssert(t.before2(prev, k), "the report is ordered by score, then by peers")
		}
		prev = k
		c := t.lca(first, k)
		vpAssert(f.LastCommonBlock == t.nodes[c].id, "a fork's last common block is the lowest common ancestor with the longest")
		vpAssert(f.Length == t.nodes[k].height-t.nodes[c].height, "a fork's length is its height above the last common block")
	}
}

func (t *vpWide) entry(f Fork, k int, sel func(p int) bool) {
	n := t.nodes[k]
	vpAssert(int(f.HeadHeight) == n.height && f.Score.Cmp(n.score) == 0 && f.HeadTimestamp.UnixMilli() == int64(n.ts) && f.HeadGenerator == vpGenAddr(n.gen),
		"a fork reports its head's height, score, timestamp and generator")
	vpAssert(f.PeersCount == t.on[k] && len(f.Peers) == t.on[k], "a fork lists and counts all selected peers leashed to its head")
	had := map[int]bool{}
	for _, a := range f.Peers {
		b := a.As4()
		p := int(b[2])<<8 + int(b[3]) - 1
		vpAssert(p >= 0 && p < len(t.peers) && t.leash[p] == k && !had[p] && (sel == nil || sel(p)), "a fork lists only selected peers leashed to its head, once")
		had[p] = true
	}
}

// best lists the blocks that may count as the longest: all leashed blocks that nobody is before.
func (t *vpWide) best() []int {
	r := []int{}
	for i := range t.nodes {
		if t.on[i] == 0 {
			continue
		}
		if len(r) == 0 {
			r = append(r, i)
			continue
		}
		c := t.nodes[i].score.Cmp(t.nodes[r[0]].score)
		if c > 0 || c == 0 && t.on[i] > t.on[r[0]] {
			r = []int{i}
		} else if c == 0 && t.on[i] == t.on[r[0]] {
			r = append(r, i)
		}
	}
	return r
}

// VP_wide_heads checks heads, active heads and leashes of a store of many branches, before and after reopening.
func VP_wide_heads() {
	t := newWide(vpParam("w", 140))
	for i := 0; i < 2; i++ {
		hs, err := t.l.Heads()
		vpNoErr(err, "heads are listed")
		t.compareHeadsWide(hs, "heads", t.isHead)
		hs, err = t.l.ActiveHeads()
		vpNoErr(err, "active heads are listed")
		t.compareHeadsWide(hs, "active heads", func(i int) bool { return t.isHead(i) && t.on[i] > 0 })
		ls, err := t.l.Leashes()
		vpNoErr(err, "leashes are listed")
		vpAssert(len(ls) == len(t.peers), "every leash is listed exactly once")
		for _, l := range ls {
			b := l.Addr.As4()
			p := int(b[2])<<8 + int(b[3]) - 1
			vpAssert(p >= 0 && p < len(t.peers) && l.BlockID == t.nodes[t.leash[p]].id, "a listed leash is the current one")
		}
		for p, a := range t.peers {
			id, err := t.l.Leash(a)
			vpNoErr(err, "a leash reads back")
			vpAssert(id == t.nodes[t.leash[p]].id, "a leash is the last block delivered or assigned")
		}
		for i := range t.nodes {
			b, err := t.l.Block(t.nodes[i].id)
			vpNoErr(err, "an accepted block reads back")
			vpAssert(int(b.Height) == t.nodes[i].height && b.Score.Cmp(t.nodes[i].score) == 0, "a block's height and score follow from its parent's")
		}
		if i == 0 {
			t.l.Close()
			l, err := NewLinkage(t.dir, vpScheme, vpGenesis(1000, 1))
			vpNoErr(err, "an existing store opens")
			t.l = l
			// The next branch gets a number nobody has.
			k := t.put(0, 1<<40, 7, 1, 0)
			t.at[t.nodes[k].id] = k
			t.count(nil)
			vpReach("reopened")
		}
	}
	t.l.Close()
}

// VP_wide_forks checks the report of a store of many branches: all of it, for most of the peers, and for a few of them.
func VP_wide_forks() {
	t := newWide(vpParam("w", 140))
	w := len(t.peers)
	for part := 0; part < 4; part++ {
		var sel func(p int) bool
		switch part {
		case 1:
			sel = func(p int) bool { return p != w-1 }
		case 2:
			sel = func(p int) bool { return p%2 == 1 }
		case 3:
			sel = func(p int) bool { return p == 3 || p == w-2 || p == w/2 }
		}
		var lp LookupPeers
		if sel != nil {
			lp = LookupPeers{}
			for p, a := range t.peers {
				if sel(p) {
					lp[a] = struct{}{}
				}
			}
		}
		fs, err := t.l.Forks(lp)
		vpNoErr(err, "forks are reported")
		t.forksWide(fs, sel)
		vpReach("report")
		if sel == nil {
			long := 0
			for _, f := range fs {
				if f.Length > 5 {
					long++
				}
			}
			s, err := t.l.Stats()
			vpNoErr(err, "statistics are reported")
			vpAssert(s.Long == long && s.Short == len(fs)-long, "forks longer than five blocks are long, all others short")
		}
	}
	t.l.Close()
}

// VP_wide_peers checks the last common block and the fork of single peers of a store of many branches.
func VP_wide_peers() {
	t := newWide(vpParam("w", 140))
	best := t.best()
	step := vpParam("step", 17)
	for p := 0; p < len(t.peers); p += step {
		id, err := t.l.LCB(t.peers[p])
		vpNoErr(err, "the last common block is found")
		f, err := t.l.Fork(t.peers[p])
		vpNoErr(err, "a leashed peer's fork is reported")
		k := t.leash[p]
		vpAssert(f.HeadBlock == t.nodes[k].id, "a peer's fork is headed by its leash")
		t.entry(f, k, nil)
		lcb, fork := false, false
		for _, b := range best {
			c := t.nodes[t.lca(b, k)]
			lcb = lcb || id == c.id
			fork = fork || f.LastCommonBlock == c.id && f.Longest == (b == k) && f.Length == t.nodes[k].height-c.height
		}
		vpAssert(lcb, "the last common block is the lowest common ancestor with the heaviest leashed block")
		vpAssert(fork, "a peer's fork is measured against the heaviest leashed block")
		vpReach("peer")
	}
	t.l.Close()
}

// VP_long_branch grows a long chain and a branch of a few lengths that parts from it at any of the heights that matter to a byte or to the
// skip pointers, and checks blocks, forks, statistics and last common blocks.
func VP_long_branch() {
	d := vpParam("d", 300)
	t := vpNewTree(2, 1000, 1)
	line := []int{0}
	for i := 1; i <= d; i++ {
		line = append(line, t.put(line[i-1], 1000, uint64(i), i%3, 0))
	}
	ats := []int{0, 1, 62, 63, 126, 127, 128, 254, 255, 256, d - 6, d - 1}
	at := ats[vpInt("at", 0, len(ats)-1)]
	lens := []int{1, 5, 6, 64, 260}
	n := lens[vpInt("len", 0, vpParam("lens", 5)-1)]
	vpAssume(at <= d)
	k := line[at]
	for i := 0; i < n; i++ {
		k = t.put(k, 2000, uint64(1000+i), 1, 1)
	}
	for i := range t.nodes {
		if i < at-2 && i%16 != 0 {
			continue
		}
		b, err := t.l.Block(t.nodes[i].id)
		vpNoErr(err, "an accepted block reads back")
		vpAssert(int(b.Height) == t.nodes[i].height && b.Score.Cmp(t.nodes[i].score) == 0, "a block's height and score follow from its parent's")
		vpAssert(t.nodes[i].parent < 0 || b.Parent == t.nodes[t.nodes[i].parent].id, "a block reads back with its parent")
	}
	want := t.nodes[line[at]].id
	fs, err := t.l.Forks(nil)
	vpNoErr(err, "forks are reported")
	vpAssert(len(fs) == 2, "the report has one entry per leashed block")
	first := t.find(fs[0].HeadBlock)
	long := 0
	for i, f := range fs {
		h := t.find(f.HeadBlock)
		c := t.lca(first, h)
		vpAssert(f.LastCommonBlock == t.nodes[c].id, "the last common block of two branches is where they part")
		vpAssert(f.Length == t.nodes[h].height-t.nodes[c].height, "a fork's length is its height above the last common block")
		vpAssert(f.Longest == (i == 0), "exactly the first entry is the longest")
		if f.Length > 5 {
			long++
		}
	}
	s, err := t.l.Stats()
	vpNoErr(err, "statistics are reported")
	vpAssert(s.Long == long && s.Short == 2-long, "forks longer than five blocks are long, all others short")
	for p := range t.peers {
		id, err := t.l.LCB(t.peers[p])
		vpNoErr(err, "the last common block is found")
		vpAssert(id == want || t.leash[p] == first && id == t.nodes[first].id, "the last common block of two branches is where they part")
		f, err := t.l.Fork(t.peers[p])
		vpNoErr(err, "a leashed peer's fork is reported")
		vpAssert(f.LastCommonBlock == id, "a peer's fork is measured from its last common block")
		sc, err := t.l.LeashScore(t.peers[p])
		vpNoErr(err, "a leash score reads back")
		vpAssert(sc.Cmp(t.nodes[t.leash[p]].score) == 0, "a leash score is the block's score")
	}
	// The history of the branch down to genesis, and its generators.
	count := t.nodes[k].height + (at+n)%3 - 1
	t.checkIDs(k, count)
	gs, err := t.l.ForkGenerators(t.nodes[k].id, count)
	vpNoErr(err, "generators of a known block are reported for any count")
	sum := 0
	for _, g := range gs {
		sum += g.Blocks
	}
	wantSum := count
	if wantSum > t.nodes[k].height {
		wantSum = t.nodes[k].height
	}
	vpAssert(sum == wantSum, "every block is counted once")
	vpReach("branch")
	t.l.Close()
}

// VP_many_generators lets every block of a chain come from another generator, some from one.
func VP_many_generators() {
	d := vpParam("d", 300)
	t := vpNewTree(1, 1000, 1)
	k := 0
	gens := map[proto.WavesAddress]int{vpGenAddr(0): 1}
	for i := 1; i <= d; i++ {
		g := i
		if i%7 == 0 {
			g = 7
		}
		k = t.put(k, 1000, uint64(i), g, 0)
		gens[vpGenAddr(g)]++
	}
	gs, err := t.l.ForkGenerators(t.nodes[k].id, d+1)
	vpNoErr(err, "generators of a known block are reported for any count")
	vpAssert(len(gs) == len(gens), "one entry per generator")
	seen := map[proto.WavesAddress]bool{}
	for i, g := range gs {
		vpAssert(gens[g.Generator] == g.Blocks && !seen[g.Generator], "a generator's blocks are counted exactly")
		vpAssert(i == 0 || gs[i-1].Blocks >= g.Blocks, "generators are in descending order of blocks")
		seen[g.Generator] = true
	}
	vpReach("generators")
	t.l.Close()
}

// VP_crowded asks for forks when almost all of w peers have their leashes on the same block, the heaviest or not.
func VP_crowded() {
	w := vpParam("w", 300)
	t := vpNewTree(w, 1000, 1)
	trunk := t.chain(0, 2, 1000, 0)
	bt := vpTarget("w", 2)
	heads := []int{t.put(trunk, bt, 100, 1, 0), t.put(trunk, 1000, 100, 2, 0), trunk}
	crowd := heads[vpInt("crowd", 0, 2)]
	few := vpInt("few", 0, 2)
	for p := range t.peers {
		k := crowd
		if p < few || p == w-1 {
			k = heads[p%2]
		}
		t.move(p, k)
	}
	t.ask(7)
	for part := 0; part < 2; part++ {
		var sel func(p int) bool
		var lp LookupPeers
		if part == 1 {
			sel = func(p int) bool { return p != few }
			lp = LookupPeers{}
			for p, a := range t.peers {
				if sel(p) {
					lp[a] = struct{}{}
				}
			}
		}
		fs, err := t.l.Forks(lp)
		vpNoErr(err, "forks are reported")
		t.checkForks(fs, sel)
	}
	for _, p := range []int{0, 1, 2, w / 2, w - 1} {
		t.checkLCB(p)
		f, err := t.l.Fork(t.peers[p])
		vpNoErr(err, "a leashed peer's fork is reported")
		vpAssert(t.checkFork(f, nil) == t.leash[p], "a peer's fork is headed by its leash")
	}
	vpReach("crowded")
	t.l.Close()
}
