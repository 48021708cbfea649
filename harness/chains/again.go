package chains

import (
	"math/big"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

// The harnesses of this file ask the same questions again and again while the history goes on, so that an answer that
// was right once (and may have been remembered) is checked after everything that can change it.

// ask checks the answers to one kind of questions, q is the number of the property.
func (t *vpTree) ask(q int) {
	switch q {
	case 1, 2:
		for i := range t.nodes {
			t.checkBlock(i)
		}
		for i := 0; i < 2; i++ {
			id := vpID(len(t.nodes) + i)
			ok, err := t.l.HasBlock(id)
			vpNoErr(err, "asking for an unknown block works")
			vpAssert(!ok, "a block that was not accepted is not known")
			_, err = t.l.Block(id)
			vpAssert(err != nil, "a block that was not accepted does not read back")
		}
	case 4:
		for p := range t.peers {
			t.checkLCB(p)
		}
	case 5:
		all := LookupPeers{}
		for p := range t.peers {
			all[t.peers[p]] = struct{}{}
			fs, err := t.l.Forks(LookupPeers{t.peers[p]: struct{}{}})
			vpNoErr(err, "forks are reported")
			t.checkForks(fs, func(o int) bool { return o == p })
		}
		for _, lp := range []LookupPeers{nil, all} {
			fs, err := t.l.Forks(lp)
			vpNoErr(err, "forks are reported")
			t.checkForks(fs, nil)
		}
	case 6:
		for p := range t.peers {
			if t.leash[p] < 0 {
				continue
			}
			f, err := t.l.Fork(t.peers[p])
			vpNoErr(err, "a leashed peer's fork is reported")
			k := t.checkFork(f, nil)
			vpAssert(k == t.leash[p], "a peer's fork is headed by its leash")
			ok := false
			for i := range t.nodes {
				if t.peersOn(i, nil) > 0 {
					ok = vpOr(ok, vpAnd(t.heaviest(i, nil), f.LastCommonBlock == t.nodes[t.lca(k, i)].id, f.Longest == (i == k)))
				}
			}
			vpAssert(ok, "a peer's fork is measured against the heaviest leashed block")
		}
	case 7:
		t.checkLeashes()
	case 8:
		t.checkHeads()
	case 10:
		for k := range t.nodes {
			for _, c := range []int{1, 100, 2, 0, -1} {
				t.checkIDs(k, c)
			}
		}
	case 11:
		for k := range t.nodes {
			for _, c := range []int{1, 100, 2, 0, -1} {
				t.checkGenerators(k, c)
			}
		}
	case 12:
		s, err := t.l.Stats()
		vpNoErr(err, "statistics are reported")
		fs, err := t.l.Forks(nil)
		vpNoErr(err, "forks are reported")
		long := 0
		for _, f := range fs {
			k, c := t.find(f.HeadBlock), t.find(f.LastCommonBlock)
			vpAssert(k >= 0 && c >= 0, "forks refer to known blocks")
			n := 0
			for j := k; j != c && j >= 0; j = t.nodes[j].parent {
				n++
			}
			if n > 5 {
				long++
				vpReach("long")
			}
		}
		vpAssert(s.Long == long, "forks longer than five blocks are long")
		vpAssert(s.Short == len(fs)-long, "all other forks are short")
	default:
		for _, k := range []int{1, 4, 5, 6, 7, 8, 10, 11, 12} {
			t.ask(k)
		}
	}
}

// event lets something happen that changes answers, or should not.
func (t *vpTree) event(i int) {
	kinds := []int{0, 1, 2, 3, 4}
	if vpParam("faults", 0) == 1 {
		kinds = append(kinds, 5, 6, 7)
	}
	if vpParam("reopen", 0) == 1 {
		kinds = append(kinds, 8)
	}
	p := vpInt("peer", 0, len(t.peers)-1)
	bt := vpTarget("w", vpParam("targets", 1))
	switch kinds[vpInt("event", 0, len(kinds)-1)] {
	case 0: // A new block.
		t.put(vpInt("parent", 0, len(t.nodes)-1), bt, uint64(100+i), i%2, p)
	case 1: // A new micro-block.
		t.micro(vpInt("ref", 1, len(t.nodes)-1), p)
	case 2: // A known block once more.
		k := vpInt("known", 0, len(t.nodes)-1)
		n := t.nodes[k]
		var parent proto.BlockID
		if n.parent >= 0 {
			parent = t.nodes[n.parent].id
		}
		vpNoErr(t.l.PutBlock(vpBlock(n.id, parent, bt, n.ts, n.gen), t.peers[p]), "a known block is accepted again")
		t.leash[p] = k
	case 3: // A leash is moved.
		t.move(p, vpInt("to", 0, len(t.nodes)-1))
	case 4: // Something that is refused.
		unknown, id := vpID(len(t.nodes)), vpID(len(t.nodes)+1)
		if vpBool("of-block") {
			vpAssert(vpIsParentNotFound(t.l.PutBlock(vpBlock(id, unknown, bt, 1, 1), t.peers[p])), "an orphan is refused")
		} else {
			vpAssert(vpIsRefNotFound(t.l.PutMicroBlock(vpMicro(id, unknown), t.peers[p])), "an orphan is refused")
		}
	case 5: // The storage fails to write.
		id := vpID(len(t.nodes))
		vpFault(0, "error")
		var err error
		switch vpInt("of", 0, 2) {
		case 0:
			err = t.l.PutBlock(vpBlock(id, t.nodes[vpInt("parent", 0, len(t.nodes)-1)].id, bt, 1, 1), t.peers[p])
		case 1:
			err = t.l.PutMicroBlock(vpMicro(id, t.nodes[vpInt("ref", 1, len(t.nodes)-1)].id), t.peers[p])
		case 2:
			err = t.l.MoveLeash(t.nodes[vpInt("to", 0, len(t.nodes)-1)].id, t.peers[p])
		}
		vpAssert(err != nil, "a failure of the storage is reported")
		vpFault(-1, "")
		vpReach("unwritten")
	case 6: // The storage fails to read, after a new block or not.
		if vpParam("new", 0) == 1 && vpBool("new") {
			t.put(0, bt, uint64(200+i), 1, p)
		}
		q := vpInt("query", 0, vpParam("queries", 11))
		n := t.nodes[vpInt("about", 0, len(t.nodes)-1)]
		vpReadFault(vpInt("read", 0, vpParam("reads", 2)))
		a := t.peers[p]
		var err error
		switch q {
		case 0:
			_, err = t.l.HasBlock(n.id)
		case 1:
			_, err = t.l.Block(n.id)
		case 2:
			_, err = t.l.LastIDs(n.id, 100)
		case 3:
			_, err = t.l.ForkGenerators(n.id, 100)
		case 4:
			_, err = t.l.HasLeash(a)
		case 5:
			_, err = t.l.Leash(a)
		case 6:
			_, err = t.l.LeashScore(a)
		case 7:
			_, err = t.l.LCB(a)
		case 8:
			_, err = t.l.Heads()
		case 9:
			_, err = t.l.Leashes()
		case 10:
			_, err = t.l.Stats()
		case 11:
			_, err = t.l.Forks(nil)
		}
		vpReadFault(-1)
		if err != nil {
			vpReach("unread")
		}
	case 7: // The storage fails to read on a delivery.
		k := vpInt("parent", 0, len(t.nodes)-1)
		n := t.nodes[k]
		id := vpID(len(t.nodes))
		vpReadFault(vpInt("read", 0, vpParam("reads", 2)))
		err := t.l.PutBlock(vpBlock(id, n.id, bt, uint64(100+i), i%2), t.peers[p])
		vpReadFault(-1)
		if err == nil {
			t.leash[p] = t.record(vpNode{id: id, parent: k, height: n.height + 1, score: new(big.Int).Add(n.score, vpScoreOf(bt)), ts: uint64(100 + i), gen: i % 2}, -1)
		} else {
			vpReach("unread")
		}
	case 8: // The program is restarted.
		t.l.Close()
		l, err := NewLinkage(t.dir, vpScheme, vpGenesis(1<<40, 1))
		vpNoErr(err, "an existing store opens")
		t.l = l
		vpReach("reopened")
	}
}

// VP_again asks before and after each of n events that follow a small tree with leashes.
func VP_again() {
	q := vpParam("q", 5)
	t := vpNewTree(1, 1<<40, 1)
	k := t.put(0, 1<<40, 2, 1, 0)
	for i := 1; i < vpParam("peers", 2); i++ {
		t.peers = append(t.peers, vpAddr4(i))
		t.leash = append(t.leash, -1)
	}
	if q == 12 { // Forks of about the length that counts.
		base := t.leash[0]
		x := t.chain(base, 8, 1<<40, 0)
		t.chain(base, 5, 1<<40, 1)
		t.move(0, x)
	} else if vpParam("peers", 2) > 1 {
		t.put(vpInt("second", 0, k), 1<<39, 3, 0, 1)
	}
	t.ask(q)
	for i := 0; i < vpParam("n", 2); i++ {
		t.event(i)
		t.ask(q)
	}
	t.l.Close()
	vpReach("end")
}
