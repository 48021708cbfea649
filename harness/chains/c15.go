package chains

import (
	"errors"
	"math/big"
	"net/netip"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

// vpSeen is the answer of one operation of the store.
type vpSeen struct {
	err     int // 0 success, 1 unknown parent, 2 unknown reference, 3 other
	yes     bool
	score   *big.Int
	ids     []proto.BlockID
	heads   []Head
	leashes []Leash
	forks   []Fork
	gens    []GeneratorStats
	blocks  []Block
	stats   Stats
}

func vpErrKind(err error) int {
	switch {
	case err == nil:
		return 0
	case errors.Is(err, ErrParentNotFound):
		return 1
	case errors.Is(err, ErrRefNotFound):
		return 2
	}
	return 3
}

func vpHeadsEq(a, b []Head) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		n := 0
		for _, y := range b {
			if x == y {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}

func vpForkEq(x, y Fork) bool {
	if x.HeadBlock != y.HeadBlock || x.HeadHeight != y.HeadHeight || x.Score.Cmp(y.Score) != 0 || x.Longest != y.Longest ||
		x.PeersCount != y.PeersCount || x.LastCommonBlock != y.LastCommonBlock || x.Length != y.Length || len(x.Peers) != len(y.Peers) {
		return false
	}
	for _, p := range x.Peers {
		found := false
		for _, q := range y.Peers {
			found = found || p == q
		}
		if !found {
			return false
		}
	}
	return true
}

func (a *vpSeen) same(b *vpSeen) bool {
	if a.err != b.err || a.yes != b.yes || a.stats != b.stats || !vpHeadsEq(a.heads, b.heads) {
		return false
	}
	if (a.score == nil) != (b.score == nil) || a.score != nil && a.score.Cmp(b.score) != 0 {
		return false
	}
	if len(a.ids) != len(b.ids) || len(a.leashes) != len(b.leashes) || len(a.forks) != len(b.forks) ||
		len(a.gens) != len(b.gens) || len(a.blocks) != len(b.blocks) {
		return false
	}
	for i := range a.ids {
		if a.ids[i] != b.ids[i] {
			return false
		}
	}
	for _, x := range a.leashes {
		found := false
		for _, y := range b.leashes {
			found = found || x == y
		}
		if !found {
			return false
		}
	}
	for _, x := range a.forks {
		found := false
		for _, y := range b.forks {
			found = found || vpForkEq(x, y)
		}
		if !found {
			return false
		}
	}
	for _, x := range a.gens {
		found := false
		for _, y := range b.gens {
			found = found || x == y
		}
		if !found {
			return false
		}
	}
	for i, x := range a.blocks {
		y := b.blocks[i]
		if x.ID != y.ID || x.Parent != y.Parent || x.Height != y.Height || x.Score.Cmp(y.Score) != 0 || x.Timestamp != y.Timestamp || x.Generator != y.Generator {
			return false
		}
	}
	return true
}

const (
	vpX  = 10
	vpY  = 11
	vpM  = 12
	vpM2 = 13
)

// vpMutators is the number of operations that change the store.
const vpMutators = 12

const vpQueries = 16

// vpNewPrior opens a store with a chain of two blocks and a heavy fork; three peers are leashed.
func vpNewPrior() *Linkage {
	l, err := NewLinkage(vpTempDir(), vpScheme, vpGenesis(1<<60, 1))
	vpNoErr(err, "a fresh store opens")
	vpNoErr(l.PutBlock(vpBlock(vpID(1), vpID(0), 1<<60, 1, 1), vpAddr4(1)), "a block is stored")
	vpNoErr(l.PutBlock(vpBlock(vpID(2), vpID(1), 1<<60, 2, 2), vpAddr4(0)), "a block is stored")
	vpNoErr(l.PutBlock(vpBlock(vpID(3), vpID(0), 1<<40, 3, 3), vpAddr4(2)), "a block is stored")
	return l
}

// vpOp runs one operation.
func vpOp(l *Linkage, op int) *vpSeen {
	r := &vpSeen{}
	var err error
	p0, p1, p2 := vpAddr4(0), vpAddr4(1), vpAddr4(2)
	one := func(id proto.BlockID) {
		if err == nil {
			r.ids = append(r.ids, id)
		}
	}
	switch op {
	case 0:
		err = l.PutBlock(vpBlock(vpID(vpX), vpID(2), 1<<59, 5, 1), p0)
	case 1:
		err = l.PutBlock(vpBlock(vpID(vpX), vpID(2), 1<<59, 5, 1), p1)
	case 2:
		err = l.PutBlock(vpBlock(vpID(vpY), vpID(2), 1<<58, 6, 2), p1)
	case 3:
		err = l.PutBlock(vpBlock(vpID(vpY), vpID(1), 1<<58, 6, 2), p1)
	case 4:
		err = l.PutBlock(vpBlock(vpID(vpY), vpID(vpX), 1<<58, 6, 2), p1)
	case 5:
		err = l.PutMicroBlock(vpMicro(vpID(vpM), vpID(2)), p1)
	case 6:
		err = l.PutMicroBlock(vpMicro(vpID(vpM2), vpID(2)), p0)
	case 7:
		err = l.PutMicroBlock(vpMicro(vpID(vpM2), vpID(vpM)), p1)
	case 8:
		err = l.MoveLeash(vpID(0), p0)
	case 9:
		err = l.MoveLeash(vpID(2), p1)
	case 10:
		err = l.PutBlock(vpBlock(vpID(1), vpID(0), 1<<60, 1, 1), vpAddr4(3))
	case 11:
		err = l.PutMicroBlock(vpMicro(vpID(vpM), vpID(2)), p2)
	case vpMutators + 0:
		r.heads, err = l.Heads()
	case vpMutators + 1:
		r.heads, err = l.ActiveHeads()
	case vpMutators + 2:
		r.forks, err = l.Forks(nil)
	case vpMutators + 3:
		r.forks, err = l.Forks(map[netip.Addr]struct{}{p1: {}, p2: {}})
	case vpMutators + 4:
		var f Fork
		f, err = l.Fork(p0)
		r.forks = append(r.forks, f)
	case vpMutators + 5:
		var id proto.BlockID
		id, err = l.LCB(p1)
		one(id)
	case vpMutators + 6:
		r.leashes, err = l.Leashes()
	case vpMutators + 7:
		r.stats, err = l.Stats()
	case vpMutators + 8:
		r.gens, err = l.ForkGenerators(vpID(vpX), 10)
	case vpMutators + 9:
		r.ids, err = l.LastIDs(vpID(vpM), 10)
	case vpMutators + 10:
		r.score, err = l.LeashScore(p1)
	case vpMutators + 11:
		var id proto.BlockID
		id, err = l.Leash(p1)
		one(id)
	case vpMutators + 12:
		r.yes, err = l.HasLeash(vpAddr4(3))
	case vpMutators + 13:
		r.yes, err = l.HasBlock(vpID(vpX))
	case vpMutators + 14:
		var b Block
		b, err = l.Block(vpID(vpY))
		if err == nil {
			r.blocks = append(r.blocks, b)
		}
	default:
		l.LogInitialStats()
	}
	r.err = vpErrKind(err)
	return r
}

// vpFinal lists the whole contents of a store.
func vpFinal(l *Linkage) []*vpSeen {
	var r []*vpSeen
	for _, q := range []int{0, 2, 6} {
		r = append(r, vpOp(l, vpMutators+q))
	}
	for _, i := range []int{1, 2, 3, vpX, vpY, vpM, vpM2} {
		s := &vpSeen{}
		var err error
		s.yes, err = l.HasBlock(vpID(i))
		vpNoErr(err, "a block can be asked for")
		if s.yes {
			b, err := l.Block(vpID(i))
			vpNoErr(err, "a known block reads back")
			s.blocks = append(s.blocks, b)
			s.ids, err = l.LastIDs(vpID(i), 10)
			vpNoErr(err, "the history of a known block reads back")
		}
		r = append(r, s)
	}
	return r
}

func vpPermutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range vpPermutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int{}, p[:i]...)
			q = append(q, n-1)
			r = append(r, append(q, p[i:]...))
		}
	}
	return r
}

// VP_C15_orders runs any operations in parallel and compares them with all their sequential orders.
func VP_C15_orders() {
	n := vpParam("n", 2)
	ops := make([]int, n)
	for i := range ops {
		switch {
		case i == 0:
			ops[i] = vpInt("op", 0, vpMutators-1)
		case i < n-1 || vpBool("mutates"):
			ops[i] = vpInt("op", ops[i-1], vpMutators-1)
		default:
			ops[i] = vpInt("query", vpMutators, vpMutators+vpQueries-1)
		}
	}
	l := vpNewPrior()
	seen := make([]*vpSeen, n)
	vpRace(true)
	vpExplore(vpParam("preempt", 1))
	for i := range ops {
		vpGo(i+1, func() { seen[i] = vpOp(l, ops[i]) })
	}
	vpWait()
	vpExplore(-1)
	vpRace(false)
	final := vpFinal(l)
	l.Close()
	match := false
	for _, order := range vpPermutations(n) {
		l := vpNewPrior()
		same := true
		for _, i := range order {
			same = vpOp(l, ops[i]).same(seen[i]) && same
		}
		if same {
			for i, s := range vpFinal(l) {
				same = same && s.same(final[i])
			}
		}
		l.Close()
		if same {
			match = true
			break
		}
	}
	vpAssert(match, "operations that ran in parallel answer and leave the store as if they had run one after another")
	vpReach("end")
}
