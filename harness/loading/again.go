package loading

import (
	"math/big"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

// vpRun follows a loader through many attempts.
type vpRun struct {
	*vpSys
	parent []int   // of the blocks of the pool
	height []int   // of the blocks of the pool
	lsh    []int   // leashes of the peers, -1 without
	score  []int64 // last announced scores, -1 without
	active int     // the peer that is synchronised with, or -1
	diff   int64   // what was missing when the download went on, or -1
}

func (r *vpRun) own(i int) int64 {
	if r.lsh[i] < 0 {
		return 256
	}
	return int64(256 * (r.height[r.lsh[i]]))
}

func (r *vpRun) lags(i int) bool {
	return r.conns[i] != nil && r.score[i] >= 0 && r.score[i] > r.own(i)
}

func (r *vpRun) at(i int) int { return max(r.lsh[i], 0) }

// grow stores a block of peer i on top of its leash.
func (r *vpRun) grow(i int) {
	p := r.at(i)
	k := r.put(p, i)
	r.note(k, p)
	r.lsh[i] = k
}

func (r *vpRun) note(k, p int) {
	for len(r.parent) <= k {
		r.parent, r.height = append(r.parent, -1), append(r.height, 0)
	}
	r.parent[k], r.height[k] = p, r.height[p]+1
}

func (r *vpRun) announce(i int, v int64) {
	r.vpSys.score(i, big.NewInt(v))
	r.score[i] = v
}

// event is something that happens to the peers between attempts.
func (r *vpRun) event() {
	n := len(r.conns)
	kind := vpInt("event", 0, 5)
	if kind == 5 {
		return
	}
	i := vpInt("peer", 0, n-1)
	switch kind {
	case 0:
		if r.conns[i] == nil {
			vpAssume(false)
		}
		r.announce(i, int64(vpInt("score", 0, 1))*100_000)
	case 1:
		vpAssume(i != r.active)
		r.toggle(i)
	case 2: // One peer goes and another comes.
		j := (i + 1) % n
		vpAssume(i != r.active && j != r.active && (r.conns[i] == nil) != (r.conns[j] == nil))
		r.toggle(i)
		r.toggle(j)
	case 3:
		vpAssume(i != r.active)
		r.grow(i)
	case 4: // A peer comes back with more.
		vpAssume(i != r.active && r.conns[i] != nil)
		r.toggle(i)
		r.toggle(i)
		r.announce(i, 100_000)
	}
}

func (r *vpRun) toggle(i int) {
	if r.conns[i] == nil {
		r.connect(i)
	} else {
		r.disconnect(i)
	}
}

// asks checks that one request for the IDs after the leash goes to peer i.
func (r *vpRun) asks(i int, before int) {
	c := r.conns[i]
	vpAssert(len(c.ids) == before+1, "one request for IDs goes out")
	vpAssume(len(c.ids) == before+1)
	var want []proto.BlockID
	for k := r.at(i); k >= 0; k = r.parent[k] {
		want = append(want, vpID(k))
	}
	vpAssert(vpSameIDs(c.ids[before], want), "the request carries the ancestors of the leash")
}

// sync lets the timer of the loader fire.
func (r *vpRun) sync() {
	before := r.asked()
	traffic := r.traffic()
	some := false
	for i := range r.conns {
		some = some || r.lags(i)
	}
	r.l.sync()
	if r.active >= 0 {
		vpAssert(r.traffic() == traffic, "no other download is started while one is running")
		return
	}
	t := r.target(before)
	if !some {
		vpAssert(t < 0 && r.traffic() == traffic, "nobody is contacted without a connected lagging peer")
		vpReach("nobody")
		return
	}
	vpAssert(t >= 0, "a connected lagging peer is asked")
	vpAssume(t >= 0)
	vpAssert(r.lags(t), "only a connected lagging peer is asked")
	r.asks(t, before[t])
	vpAssert(r.traffic() == traffic+1, "one message goes out")
	r.active, r.diff = t, -1
	vpReach("started")
}

// answer lets the peer that is synchronised with answer, or not.
func (r *vpRun) answer() {
	t := r.active
	switch vpInt("mid", 0, 2) { // The score changes meanwhile.
	case 0:
		r.announce(t, 0)
	case 1:
		r.announce(t, 200_000)
	}
	traffic := r.traffic()
	before := len(r.conns[t].ids)
	blocks := len(r.conns[t].blocks)
	ids := []proto.BlockID{vpID(r.at(t))}
	last := r.at(t)
	add := 0
	switch vpInt("answer", 0, 4) {
	case 0: // Nothing, and it is too late.
		vpAdvance(31 * time.Second)
		r.l.tick()
		vpAssert(r.traffic() == traffic, "a failure sends nothing")
		r.active = -1
		vpReach("failed")
		return
	case 1: // Nothing so far.
		return
	case 2: // Nothing new.
	case 3: // New blocks.
		add = 2
	case 4: // Blocks another peer has, and a new one.
		o := (t + 1) % len(r.conns)
		var path []int
		k := r.at(o)
		for k > 0 && k != last && r.height[k] > r.height[last] {
			path = append(path, k)
			k = r.parent[k]
		}
		vpAssume(k == last && len(path) > 0)
		for j := len(path) - 1; j >= 0; j-- {
			ids = append(ids, vpID(path[j]))
		}
		last = path[0]
		add = 1
		vpReach("shared")
	}
	var fresh []int
	for j := 0; j < add; j++ {
		k := r.next
		r.next++
		r.note(k, last)
		ids, fresh, last = append(ids, vpID(k)), append(fresh, k), k
	}
	r.l.handleIDs(IDsPackage{Peer: vpAddr(t), IDs: ids})
	var want []proto.BlockID
	for _, k := range fresh {
		want = append(want, vpID(k))
	}
	vpAssert(vpSameIDs(r.conns[t].blocks[blocks:], want), "exactly the unknown blocks are requested, once and in order")
	for _, k := range fresh {
		vpAssert(len(r.conns[t].ids) == before, "nothing goes on before all blocks are there")
		r.l.handleBlock(BlockPackage{Peer: vpAddr(t), Block: vpBlock(k, vpID(r.parent[k]), vpBT)})
	}
	if r.lsh[t] >= 0 || last > 0 {
		r.lsh[t] = last
		vpAssert(r.leash(t) == vpID(last), "the leash follows the blocks")
	}
	d := r.score[t] - r.own(t)
	if d > 0 && d != r.diff {
		r.asks(t, before)
		r.diff = d
		vpReach("continued")
		return
	}
	vpAssert(len(r.conns[t].ids) == before, "a peer that is not lagging, or does not get on, is left alone")
	r.active = -1
	vpReach("left")
}

// VP_again lets n attempts follow each other while peers come, go, announce scores and deliver blocks.
func VP_again() {
	n := vpParam("peers", 2)
	r := &vpRun{vpSys: vpNewSys(n), parent: []int{-1}, height: []int{1}, active: -1, diff: -1}
	for i := 0; i < n; i++ {
		r.lsh, r.score = append(r.lsh, -1), append(r.score, -1)
	}
	r.grow(0)
	r.announce(0, 512)
	if vpBool("one") {
		r.toggle(n - 1)
	}
	r.sync()
	for i := 0; i < vpParam("n", 2); i++ {
		r.event()
		r.sync()
		if r.active >= 0 {
			r.answer()
		}
	}
	r.sync()
	vpReach("end")
}
