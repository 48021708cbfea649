package chains

import (
	"math/big"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

// vpFaultKinds are the ways a write can go wrong.
var vpFaultKinds = []string{"error", "crash-before", "crash-after"}

// reopen opens what is on disk after an interruption.
func (t *vpTree) reopen(crashed bool) {
	if crashed {
		t.dir = vpSnapshotDir(t.dir)
	} else {
		t.l.Close()
	}
	l, err := NewLinkage(t.dir, vpScheme, vpGenesis(1000, 1))
	vpNoErr(err, "the store reopens after an interruption")
	t.l = l
}

// VP_C13_deliver interrupts the delivery of one block, micro-block or leash at any write and repeats it after reopening.
func VP_C13_deliver() {
	n := vpParam("n", 2)
	t := vpNewTree(2, 1000, 1)
	t.grow(n, 1, 1, true)
	w := vpInt("write", 0, vpParam("writes", 2))
	kind := vpFaultKinds[vpInt("fault", 0, 2)]
	p := vpInt("from", 0, 1)
	op := vpInt("op", 0, 2)
	at := vpInt("at", 0, len(t.nodes)-1)
	if op == 1 && at == 0 {
		vpAssume(false)
	}
	id := vpID(len(t.nodes))
	a := t.nodes[at]
	do := func() error {
		switch op {
		case 0:
			return t.l.PutBlock(vpBlock(id, a.id, 3000, 77, 1), t.peers[p])
		case 1:
			return t.l.PutMicroBlock(vpMicro(id, a.id), t.peers[p])
		default:
			return t.l.MoveLeash(a.id, t.peers[p])
		}
	}
	var err error
	vpFault(w, kind)
	crashed := vpCrashRun(func() { err = do() })
	hit := vpWrites() > w
	vpFault(-1, "")
	if crashed {
		vpReach("crash")
	} else if hit {
		vpAssert(err != nil, "a failed write is reported")
		vpReach("failure")
	} else {
		vpNoErr(err, "an uninterrupted delivery succeeds")
	}
	t.reopen(crashed)
	want := vpNode{id: id, parent: at, height: a.height + 1, ts: 77, gen: 1}
	if op == 1 {
		want = vpNode{id: id, parent: a.parent, height: a.height, score: a.score, ts: a.ts, gen: a.gen}
	} else {
		want.score = vpScoreOf(3000)
		want.score.Add(want.score, a.score)
	}
	sup := -1
	if op == 1 {
		sup = at
	}
	leash := at // where the peer's leash ends up
	if op != 2 {
		leash = len(t.nodes)
	}
	recorded := false
	if op != 2 {
		ok, err := t.l.HasBlock(id)
		vpNoErr(err, "asking for a block works")
		if ok {
			t.record(want, sup)
			recorded = true
			vpReach("recorded")
		} else {
			vpAssert(crashed || hit, "an acknowledged block is known")
			vpReach("not recorded")
		}
	}
	// The leash is either the old or the new one.
	has, err := t.l.HasLeash(t.peers[p])
	vpNoErr(err, "asking for a leash works")
	if has {
		lid, err := t.l.Leash(t.peers[p])
		vpNoErr(err, "a leash reads back")
		if (op == 2 || recorded) && lid == t.nodes[leash].id {
			t.leash[p] = leash
		}
	}
	vpAssert(crashed || hit || t.leash[p] == leash, "an acknowledged leash is recorded")
	t.checkAll()
	for i := range t.nodes {
		_, err := t.l.LastIDs(t.nodes[i].id, 100)
		vpAssert(err == nil, "every known block has a complete ancestry")
	}
	_, err = t.l.Forks(nil)
	vpAssert(err == nil, "forks are reported")
	// Repeating the delivery has the same result as an uninterrupted one.
	vpNoErr(do(), "an interrupted delivery can be repeated")
	if op != 2 && !recorded {
		t.record(want, sup)
	}
	t.leash[p] = leash
	t.checkAll()
	t.put(leash, 1000, 99, 0, 1-p)
	t.checkAll()
	t.l.Close()
}

// VP_C13_init interrupts the very first opening of a store.
func VP_C13_init() {
	t := &vpTree{dir: vpTempDir()}
	g := vpGenesis(1000, 1)
	w := vpInt("write", 0, 1)
	kind := vpFaultKinds[vpInt("fault", 0, 2)]
	vpFault(w, kind)
	var err error
	var l *Linkage
	crashed := vpCrashRun(func() { l, err = NewLinkage(t.dir, vpScheme, g) })
	hit := vpWrites() > w
	vpFault(-1, "")
	if crashed {
		vpReach("crash")
	} else if err == nil {
		vpAssert(!hit, "a failed write is reported")
		t.l = l
	} else {
		vpAssert(hit, "a fresh store opens")
		vpReach("failure")
		crashed = true // The process ends when the store does not open.
	}
	t.reopen(crashed)
	t.heads = 1
	t.nodes = append(t.nodes, vpNode{id: g.ID, parent: -1, height: 1, score: vpScoreOf(1000), ts: 1, num: 1})
	t.peers = append(t.peers, vpAddr4(0))
	t.leash = append(t.leash, -1)
	t.checkAll()
	t.put(0, 1000, 5, 0, 0)
	t.checkAll()
	t.l.Close()
}

// VP_C13_sequence interrupts a whole sequence of deliveries at any write and continues after reopening.
func VP_C13_sequence() {
	n := vpParam("n", 3)
	t := vpNewTree(1, 1000, 1)
	type op struct {
		micro bool
		at    int
	}
	ops := make([]op, n)
	for i := range ops {
		ops[i] = op{at: vpInt("parent", 0, i)}
		if ops[i].at > 0 && vpInt("micro", 0, 1) == 1 {
			ops[i].micro = true
		}
	}
	do := func(i int) error {
		r := ops[i]
		id := vpID(i + 1)
		at := proto.BlockID(vpID(r.at))
		if r.micro {
			return t.l.PutMicroBlock(vpMicro(id, at), t.peers[0])
		}
		return t.l.PutBlock(vpBlock(id, at, 1000, uint64(i), 0), t.peers[0])
	}
	w := vpInt("write", 0, 2*n-1)
	kind := vpFaultKinds[vpInt("fault", 0, 2)]
	acked := 0
	vpFault(w, kind)
	crashed := vpCrashRun(func() {
		for i := range ops {
			if do(i) != nil {
				break
			}
			acked++
		}
	})
	vpFault(-1, "")
	if crashed {
		vpReach("crash")
	} else {
		vpReach("failure")
	}
	t.reopen(crashed)
	for i := range ops {
		ok, err := t.l.HasBlock(vpID(i + 1))
		vpNoErr(err, "asking for a block works")
		vpAssert(ok || i >= acked, "nothing acknowledged is lost")
		if err := do(i); err != nil {
			vpAssert(false, "every delivery can be repeated")
		}
		r := ops[i]
		a := t.nodes[r.at]
		if r.micro {
			t.record(vpNode{id: vpID(i + 1), parent: a.parent, height: a.height, score: a.score, ts: a.ts, gen: a.gen}, r.at)
		} else {
			s := vpScoreOf(1000)
			s.Add(s, a.score)
			t.record(vpNode{id: vpID(i + 1), parent: r.at, height: a.height + 1, score: s, ts: uint64(i)}, -1)
		}
		t.leash[0] = i + 1
	}
	t.checkAll()
	t.l.Close()
}

// VP_C15_deliveries runs concurrent deliveries by two peers and a query.
func VP_C15_deliveries() {
	t := vpNewTree(3, 1000, 1)
	base := t.put(0, 1000, 2, 0, 2)
	heads := t.heads
	scenario := vpInt("scenario", 0, 3)
	x, y := vpID(10), vpID(11)
	px, py := base, base
	switch scenario {
	case 1: // the same block from two peers
		y = x
	case 2: // branches of different blocks
		py = 0
	}
	micro := scenario == 3
	query := vpInt("query", 0, vpParam("queries", 5))
	var ex, ey, eq error
	var qh []Head
	var qf []Fork
	var ql []Leash
	var qid proto.BlockID
	vpRace(true)
	vpExplore(vpParam("preempt", 2))
	vpGo(1, func() { ex = t.l.PutBlock(vpBlock(x, t.nodes[px].id, 1000, 10, 0), t.peers[0]) })
	vpGo(2, func() {
		if micro {
			ey = t.l.PutMicroBlock(vpMicro(y, t.nodes[py].id), t.peers[1])
			return
		}
		ey = t.l.PutBlock(vpBlock(y, t.nodes[py].id, 1000, 10, 0), t.peers[1])
	})
	switch query {
	case 0:
		vpGo(3, func() { qh, eq = t.l.ActiveHeads() })
	case 1:
		vpGo(3, func() { qf, eq = t.l.Forks(nil) })
	case 2:
		vpGo(3, func() { ql, eq = t.l.Leashes() })
	case 3:
		vpGo(3, func() { qid, eq = t.l.LCB(t.peers[0]) })
	case 4:
		vpGo(3, func() { t.l.LogInitialStats() })
	case 5:
		vpGo(3, func() { eq = t.l.MoveLeash(t.nodes[0].id, t.peers[2]) })
		t.leash[2] = 0
	}
	vpWait()
	vpExplore(-1)
	vpRace(false)
	vpNoErr(ex, "a concurrent delivery succeeds")
	vpNoErr(ey, "a concurrent delivery succeeds")
	vpNoErr(eq, "a concurrent query succeeds")
	// The final state is that of one of the two orders.
	one := func() {
		t.leash[0] = t.record(vpNode{id: x, parent: px, height: t.nodes[px].height + 1, score: vpAddScore(t.nodes[px], 1000), ts: 10}, -1)
	}
	two := func() {
		switch {
		case micro:
			b := t.nodes[py]
			t.leash[1] = t.record(vpNode{id: y, parent: b.parent, height: b.height, score: b.score, ts: b.ts, gen: b.gen}, py)
		default:
			t.leash[1] = t.record(vpNode{id: y, parent: py, height: t.nodes[py].height + 1, score: vpAddScore(t.nodes[py], 1000), ts: 10}, -1)
		}
	}
	hs, err := t.l.Heads()
	vpNoErr(err, "heads are listed")
	first := 1
	if scenario == 1 {
		one()
		t.leash[1] = t.leash[0]
	} else {
		// The continuation of the head keeps its number: it tells which one came first.
		if scenario != 2 {
			for _, h := range hs {
				if h.ID == uint64(heads) && h.BlockID == y {
					first = 2
				}
			}
		}
		if first == 1 {
			one()
			two()
			vpReach("first")
		} else {
			two()
			one()
			vpReach("second")
		}
	}
	t.checkAll()
	for i := range qh {
		vpAssert(t.find(qh[i].BlockID) >= 0, "active heads are known blocks")
	}
	// A query sees the leashes before or after each delivery.
	final := append([]int{}, t.leash...)
	match := func(p int, k int) bool { // whether the query saw peer p on block k
		for _, l := range ql {
			if l.Addr == t.peers[p] {
				return k >= 0 && l.BlockID == t.nodes[k].id
			}
		}
		return k < 0
	}
	switch query {
	case 1:
		ok := false
		for m := 0; m < 4; m++ {
			t.leash[0], t.leash[1] = -1, -1
			if m&1 != 0 {
				t.leash[0] = final[0]
			}
			if m&2 != 0 {
				t.leash[1] = final[1]
			}
			want := 0
			same := true
			for i := range t.nodes {
				c := t.peersOn(i, nil)
				if c == 0 {
					continue
				}
				want++
				f := -1
				for j := range qf {
					if qf[j].HeadBlock == t.nodes[i].id && qf[j].PeersCount == c {
						f = j
						for _, a := range qf[j].Peers {
							same = same && t.leash[t.peerIndex(a)] == i
						}
					}
				}
				same = same && f >= 0
			}
			if same && want == len(qf) {
				ok = true
				t.checkForks(qf, nil)
			}
		}
		vpAssert(ok, "a concurrent forks report is that of some moment")
	case 2:
		for p := 0; p < 2; p++ {
			vpAssert(match(p, -1) || match(p, final[p]), "a concurrent list of leashes is that of some moment")
		}
		vpAssert(match(2, final[2]), "a list of leashes contains undisturbed ones")
	case 3:
		k := t.find(qid)
		vpAssert(k >= 0, "a concurrent last common block is a known block")
	}
	t.leash = final
	t.l.Close()
}

func vpAddScore(n vpNode, bt uint64) (s *big.Int) {
	s = vpScoreOf(bt)
	return s.Add(s, n.score)
}
