package chains

import (
	"math/big"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

// vpSameFork compares two entries of a report.
func vpSameFork(a, b Fork) bool {
	if len(a.Peers) != len(b.Peers) || a.PeersCount != b.PeersCount || a.Longest != b.Longest || a.Length != b.Length {
		return false
	}
	for i := range a.Peers {
		if a.Peers[i] != b.Peers[i] {
			return false
		}
	}
	return a.HeadBlock == b.HeadBlock && a.HeadHeight == b.HeadHeight && a.HeadGenerator == b.HeadGenerator && a.HeadTimestamp.Equal(b.HeadTimestamp) &&
		a.LastCommonBlock == b.LastCommonBlock && a.Score.Cmp(b.Score) == 0
}

// vpSameAnswer compares two answers of a query.
func vpSameAnswer(a, b any) bool {
	switch x := a.(type) {
	case bool:
		return x == b.(bool)
	case proto.BlockID:
		return x == b.(proto.BlockID)
	case *big.Int:
		return x.Cmp(b.(*big.Int)) == 0
	case Block:
		y := b.(Block)
		return x.ID == y.ID && x.Parent == y.Parent && x.Height == y.Height && x.Generator == y.Generator && x.Timestamp == y.Timestamp && x.Score.Cmp(y.Score) == 0
	case []proto.BlockID:
		y := b.([]proto.BlockID)
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	case []Head:
		y := b.([]Head)
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	case []Leash:
		y := b.([]Leash)
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	case []GeneratorStats:
		y := b.([]GeneratorStats)
		if len(x) != len(y) {
			return false
		}
		n := 0
		for i := range x {
			for j := range y {
				if x[i] == y[j] {
					n++
				}
			}
		}
		return n == len(x)
	case Stats:
		return x == b.(Stats)
	case Fork:
		return vpSameFork(x, b.(Fork))
	}
	vpAssert(false, "an answer of a known kind")
	return false
}

// VP_C18_queries lets one read of the storage fail during any query.
func VP_C18_queries() {
	n := vpParam("n", 2)
	t := vpNewTree(2, 1000, 1)
	t.grow(n, 1, 1, true)
	q := vpInt("query", 0, 12)
	id, p := vpID(50), t.peers[0]
	if q <= 3 {
		if k := vpInt("of", 0, len(t.nodes)); k < len(t.nodes) {
			id = t.nodes[k].id
		}
	} else {
		t.leash[0] = -1
		t.move(0, vpInt("leash0", 0, len(t.nodes)-1))
		if k := vpInt("leash1", 0, len(t.nodes)); k < len(t.nodes) {
			t.move(1, k)
		}
		if q <= 7 || q == 12 {
			p = t.peers[vpInt("peer", 0, 1)]
		}
	}
	var ask func() (any, error)
	switch q {
	case 0:
		ask = func() (any, error) { return t.l.HasBlock(id) }
	case 1:
		ask = func() (any, error) { return t.l.Block(id) }
	case 2:
		ask = func() (any, error) { return t.l.LastIDs(id, 100) }
	case 3:
		ask = func() (any, error) { return t.l.ForkGenerators(id, 100) }
	case 4:
		ask = func() (any, error) { return t.l.HasLeash(p) }
	case 5:
		ask = func() (any, error) { return t.l.Leash(p) }
	case 6:
		ask = func() (any, error) { return t.l.LeashScore(p) }
	case 7:
		ask = func() (any, error) { return t.l.LCB(p) }
	case 8:
		ask = func() (any, error) { return t.l.Heads() }
	case 9:
		ask = func() (any, error) { return t.l.ActiveHeads() }
	case 10:
		ask = func() (any, error) { return t.l.Leashes() }
	case 11:
		ask = func() (any, error) { return t.l.Stats() }
	case 12:
		ask = func() (any, error) {
			ok, err := t.l.HasLeash(p)
			if err != nil || !ok {
				return Fork{Score: new(big.Int)}, err
			}
			return t.l.Fork(p)
		}
	}
	vpReadFault(-1)
	want, wantErr := ask()
	k := vpInt("read", 0, vpReads()-1)
	vpReadFault(k)
	got, err := ask()
	hit := vpReads() > k
	vpReadFault(-1)
	vpAssume(hit)
	if err == nil {
		vpAssert(wantErr == nil && vpSameAnswer(want, got), "a failed read does not change an answer")
		vpReach("unaffected")
	} else {
		vpReach("reported")
	}
	again, err := ask()
	vpAssert((err == nil) == (wantErr == nil), "an answer is the same after a failure")
	if err == nil {
		vpAssert(vpSameAnswer(want, again), "an answer is the same after a failure")
	}
	t.l.Close()
}

// VP_C18_forks lets one read of the storage fail while the report is made.
func VP_C18_forks() {
	t := vpNewTree(2, 1000, 1)
	t.grow(vpParam("n", 3), 1, 1, true)
	t.leash[0] = -1
	t.move(0, vpInt("leash0", 0, len(t.nodes)-1))
	t.leash[1] = -1
	t.move(1, vpInt("leash1", 0, len(t.nodes)-1))
	vpReadFault(-1)
	fs, err := t.l.Forks(nil)
	vpNoErr(err, "forks are reported")
	k := vpInt("read", 0, vpReads()-1)
	vpReadFault(k)
	fs, err = t.l.Forks(nil)
	hit := vpReads() > k
	vpReadFault(-1)
	vpAssume(hit)
	if err == nil {
		t.checkForks(fs, nil)
		vpReach("unaffected")
	} else {
		vpReach("reported")
	}
	fs, err = t.l.Forks(nil)
	vpNoErr(err, "forks are reported after a failure")
	t.checkForks(fs, nil)
	t.l.Close()
}

// VP_C18_deliver lets one read of the storage fail during a delivery.
func VP_C18_deliver() {
	t := vpNewTree(2, 1000, 1)
	t.grow(vpParam("n", 2), 1, 1, true)
	p := vpInt("from", 0, 1)
	op := vpInt("op", 0, 3)
	at := vpInt("at", 0, len(t.nodes)-1)
	vpAssume(op != 1 || at > 0)
	a := t.nodes[at]
	id := vpID(len(t.nodes))
	do := func() error {
		switch op {
		case 0:
			return t.l.PutBlock(vpBlock(id, a.id, 3000, 77, 1), t.peers[p])
		case 1:
			return t.l.PutMicroBlock(vpMicro(id, a.id), t.peers[p])
		case 2:
			return t.l.PutBlock(vpBlock(a.id, vpID(40), 3000, 77, 1), t.peers[p])
		default:
			return t.l.PutMicroBlock(vpMicro(a.id, vpID(40)), t.peers[p])
		}
	}
	done := func() {
		switch op {
		case 0:
			n := vpNode{id: id, parent: at, height: a.height + 1, ts: 77, gen: 1, score: vpScoreOf(3000)}
			n.score.Add(n.score, a.score)
			t.record(n, -1)
			t.leash[p] = len(t.nodes) - 1
		case 1:
			t.record(vpNode{id: id, parent: a.parent, height: a.height, score: a.score, ts: a.ts, gen: a.gen}, at)
			t.leash[p] = len(t.nodes) - 1
		default:
			t.leash[p] = at
		}
	}
	k := vpInt("read", 0, vpParam("reads", 12))
	vpReadFault(k)
	err := do()
	hit := vpReads() > k
	vpReadFault(-1)
	vpAssume(hit)
	if err != nil {
		vpAssert(!vpIsParentNotFound(err) && !vpIsRefNotFound(err), "a failed read is not taken for an unknown parent")
		t.checkAll() // nothing is recorded
		vpNoErr(do(), "a failed delivery can be repeated")
		vpReach("refused")
	} else {
		vpReach("unaffected")
	}
	done()
	t.checkAll()
	t.put(0, 1000, 99, 0, 1-p)
	t.checkAll()
	t.l.Close()
}

// VP_C18_open lets one read of the storage fail on opening.
func VP_C18_open() {
	t := vpNewTree(1, 1000, 1)
	t.grow(vpParam("n", 2), 1, 1, true)
	t.l.Close()
	k := vpInt("read", 0, 3)
	vpReadFault(k)
	l, err := NewLinkage(t.dir, vpScheme, vpGenesis(1000, 1))
	hit := vpReads() > k
	vpReadFault(-1)
	vpAssume(hit)
	if err == nil {
		t.l = l
		vpReach("unaffected")
	} else {
		t.reopen(true) // The process ends when the store does not open.
		vpReach("refused")
	}
	t.checkAll()
	t.put(0, 1000, 99, 0, 0)
	t.checkAll()
	t.l.Close()
}
