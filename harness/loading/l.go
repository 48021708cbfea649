package loading

import (
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

// VP_L05 starts and restarts a download.
func VP_L05() {
	d := vpNewDL(1)
	restart := vpBool("restart")
	d.hp.leash = vpID(vpInt("leash", 0, 2))
	d.hp.lcb = vpID(vpInt("lcb", 0, 2))
	n := vpInt("tail", 0, 2)
	d.hp.tail = nil
	for i := 0; i < n; i++ {
		d.hp.tail = append(d.hp.tail, vpID(10+i))
	}
	want := d.hp.leash
	var err error
	if restart {
		want = d.hp.lcb
		err = d.pl.restart()
	} else {
		err = d.pl.start()
	}
	vpNoErr(err, "a download starts")
	vpAssert(len(d.hr.ids) == 1, "exactly one request for IDs goes out")
	vpAssert(len(d.hr.blocks) == 0, "no block is requested at the start")
	vpAssert(len(d.hp.last) == 1 && d.hp.last[0] == want, "the request follows the leash on a start and the last common block on a restart")
	vpAssert(d.hp.limit == 100, "up to 100 ancestors are sent")
	vpAssert(vpSameIDs(d.hr.ids[0], d.hp.tail), "the request carries the ancestors in order")
	vpAssert(!d.hp.foul, "only the peer's own leash is consulted")
	// Starting again while waiting changes nothing.
	if vpBool("again") {
		vpNoErr(d.pl.restart(), "a restart while waiting is ignored")
	} else {
		vpNoErr(d.pl.start(), "a start while waiting is ignored")
	}
	vpAssert(len(d.hr.ids) == 1, "a download that waits sends no second request")
	vpAssert(d.r.ok == 0 && d.r.fail == 0, "nothing is reported while waiting")
	vpReach("end")
}

// vpOffer chooses a list of distinct IDs of the pool, in any order.
func vpOffer(n, pool int) []int {
	var l []int
	used := make([]bool, pool)
	for i := 0; i < n; i++ {
		k := vpInt("offer", 0, pool-1)
		vpAssume(!used[k])
		used[k] = true
		l = append(l, k)
	}
	return l
}

func vpIDs(l []int) []proto.BlockID {
	var ids []proto.BlockID
	for _, k := range l {
		ids = append(ids, vpID(k))
	}
	return ids
}

var _ = time.Second

// batch runs one complete batch of downloads, all of the blocks unknown before.
func (d *vpDL) batch(l []int) {
	vpNoErr(d.pl.start(), "a download starts")
	vpNoErr(d.pl.processIDs(vpIDs(l)), "IDs are processed")
	for _, k := range l {
		vpNoErr(d.pl.processBlock(vpBlock(k, proto.BlockID{}, 1)), "a block is processed")
	}
	vpAssert(d.r.ok == 1 && d.r.fail == 0, "a complete batch is a success")
	d.r.ok = 0
	d.hr.ids, d.hr.blocks = nil, nil
	d.hp.moves, d.hp.stored, d.hp.last = nil, nil, nil
}

// VP_L01 answers a request with a list of IDs.
func VP_L01() {
	pool := vpParam("pool", 4)
	d := vpNewDL(pool + 2)
	if vpBool("earlier") {
		d.batch([]int{pool, pool + 1})
	}
	for i := 0; i < pool; i++ {
		d.hp.known[i] = vpBool("known")
	}
	if k := vpInt("leash", 0, pool); k < pool {
		d.hp.leash = vpID(k)
	}
	vpNoErr(d.pl.start(), "a download starts")
	n := vpInt("offered", 1, vpParam("offer", 3))
	l := vpOffer(n, pool)
	lead := 0
	for lead < n && d.hp.known[l[lead]] {
		lead++
	}
	old := d.hp.leash
	vpNoErr(d.pl.processIDs(vpIDs(l)), "IDs are processed")
	vpAssert(!d.hp.foul, "only the peer's own leash moves")
	vpAssert(len(d.hp.stored) == 0, "nothing is stored by a list of IDs")
	vpAssert(len(d.hr.ids) == 1, "no second request for IDs goes out")
	if lead > 0 {
		vpAssert(d.hp.leash == vpID(l[lead-1]), "the leash ends at the last leading known ID")
	} else {
		vpAssert(d.hp.leash == old, "the leash stays where it was")
	}
	for _, m := range d.hp.moves {
		found := false
		for i := 0; i < lead; i++ {
			found = vpOr(found, m == vpID(l[i]))
		}
		vpAssert(found, "the leash moves to leading known IDs only")
	}
	vpAssert(vpSameIDs(d.hr.blocks, vpIDs(l[lead:])), "exactly the IDs from the first unknown one on are requested, once and in order")
	vpAssert(d.r.fail == 0, "no failure is reported")
	if lead == n {
		vpAssert(d.r.ok == 1, "success is reported at once if all IDs are known")
		vpReach("known")
	} else {
		vpAssert(d.r.ok == 0, "nothing is reported while blocks are awaited")
		vpReach("wait")
	}
	// A second list changes nothing.
	moves, reqs := len(d.hp.moves), len(d.hr.blocks)
	vpNoErr(d.pl.processIDs(vpIDs([]int{vpInt("late", 0, pool-1)})), "a second list of IDs is ignored")
	vpAssert(len(d.hp.moves) == moves && len(d.hr.blocks) == reqs && len(d.hp.stored) == 0, "a second list of IDs has no effect")
}

// VP_L02 delivers blocks in any order.
func VP_L02() {
	pool := vpParam("pool", 4)
	d := vpNewDL(pool + 2)
	if vpBool("earlier") {
		d.batch([]int{pool, pool + 1})
	}
	if vpParam("lead", 0) > 0 {
		for i := 0; i < pool; i++ {
			d.hp.known[i] = vpBool("known")
		}
	}
	vpNoErr(d.pl.start(), "a download starts")
	n := vpInt("offered", 1, vpParam("offer", 2))
	l := vpOffer(n, pool)
	lead := 0
	for lead < n && d.hp.known[l[lead]] {
		lead++
	}
	vpAssume(lead < n)
	vpNoErr(d.pl.processIDs(vpIDs(l)), "IDs are processed")
	want := l[lead:]
	got := make([]bool, len(want))
	done := false
	for e := 0; e < vpParam("events", 4); e++ {
		k := vpInt("block", -1, pool-1)
		if k < 0 {
			vpNoErr(d.pl.processBlock(nil), "a missing block is ignored")
		} else {
			// A block that was offered follows the previous one, any other follows the first of the requested.
			parent := proto.BlockID{}
			foreign := true
			for i, o := range l {
				if o == k {
					foreign = false
					if i > 0 {
						parent = vpID(l[i-1])
					}
				}
			}
			if foreign {
				parent = vpID(l[lead])
			}
			vpNoErr(d.pl.processBlock(vpBlock(k, parent, 1)), "a block is processed")
		}
		all := true
		for i, w := range want {
			if w == k {
				got[i] = true
			}
			all = all && got[i]
		}
		done = done || all
		vpAssert(d.r.fail == 0, "no failure is reported")
		if !done {
			vpAssert(len(d.hp.stored) == 0, "nothing is stored before all requested blocks arrived")
			vpAssert(d.r.ok == 0, "nothing is reported before all requested blocks arrived")
			continue
		}
		vpAssert(d.r.ok == 1, "success is reported once")
		vpAssert(len(d.hp.stored) == len(want), "every requested block is stored once")
		for i, w := range want {
			vpAssert(d.hp.stored[i].BlockID() == vpID(w), "blocks are stored in the order their IDs were offered")
		}
		vpReach("done")
	}
	vpAssert(!d.hp.foul, "blocks are stored for their peer")
	vpAssert(len(d.hr.blocks) == len(want), "nothing is requested twice")
}

// VP_L03 lets a download wait for any time.
func VP_L03() {
	pool := vpParam("pool", 3)
	d := vpNewDL(pool + 2)
	if vpBool("earlier") {
		d.batch([]int{pool, pool + 1})
		if vpBool("pause") {
			vpAdvance(40 * time.Second)
		}
	}
	if vpBool("restart") {
		vpNoErr(d.pl.restart(), "a download restarts")
	} else {
		vpNoErr(d.pl.start(), "a download starts")
	}
	req := time.Now()
	var l []int
	got := make([]bool, pool)
	if vpBool("answered") {
		vpAdvance(time.Duration(vpInt("delay", 0, 3)) * 10 * time.Second)
		n := vpInt("offered", 1, pool)
		for i := 0; i < n; i++ {
			l = append(l, (i*2)%pool)
		}
		vpNoErr(d.pl.processIDs(vpIDs(l)), "IDs are processed")
		req = time.Now()
		full := true
		for i := range l {
			got[i] = vpBool("arrives")
			full = full && got[i]
		}
		vpAssume(!full)
		for _, rev := range []bool{vpBool("reverse")} {
			for i := range l {
				j := i
				if rev {
					j = len(l) - 1 - i
				}
				if got[j] {
					vpAdvance(time.Second)
					vpNoErr(d.pl.processBlock(vpBlock(l[j], proto.BlockID{}, 1)), "a block is processed")
				}
			}
		}
	}
	vpAssert(len(d.hp.stored) == 0, "nothing is stored while waiting")
	wait := vpIntSym("wait", 0, 100_000_000_000)
	vpNoErr(d.pl.processTick(req.Add(time.Duration(wait))), "a tick is processed")
	vpAssert(d.r.ok == 0, "a stalled download is no success")
	if wait <= 30_000_000_000 {
		vpAssert(d.r.fail == 0, "no failure up to 30 seconds since the last request")
		vpAssert(len(d.hp.stored) == 0, "nothing is stored while waiting")
		vpReach("wait")
		vpNoErr(d.pl.processTick(req.Add(30*time.Second+1)), "a tick is processed")
	}
	vpAssert(d.r.fail == 1, "a failure is reported after 30 seconds since the last request")
	prefix := 0
	for prefix < len(l) && got[prefix] {
		prefix++
	}
	vpAssert(len(d.hp.stored) == prefix, "exactly the leading run of received blocks of the current batch is stored")
	for i := 0; i < prefix; i++ {
		vpAssert(d.hp.stored[i].BlockID() == vpID(l[i]), "the leading run is stored in order")
	}
	vpReach("fail")
	vpNoErr(d.pl.processTick(req.Add(time.Hour)), "a tick is processed")
	vpNoErr(d.pl.processBlock(vpBlock(0, proto.BlockID{}, 1)), "a late block is ignored")
	vpNoErr(d.pl.processIDs(vpIDs([]int{0})), "late IDs are ignored")
	vpAssert(d.r.fail == 1 && d.r.ok == 0 && len(d.hp.stored) == prefix, "a failed download does nothing more")
}

// VP_L04 sends any events to a download whose storage may fail.
func VP_L04() {
	pool := vpParam("pool", 2)
	d := vpNewDL(pool)
	faults := vpParam("faults", 0)
	if faults > 0 {
		if vpBool("refused") {
			d.hp.refuse = vpInt("refuse", 0, pool-1)
		} else {
			d.hp.fail = vpInt("fail", 0, faults-1)
		}
	}
	clean := faults == 0
	active, dead := false, false
	phase := 0 // 0 idle, 1 waits for IDs, 2 waits for blocks
	var offered []int
	last := time.Now()
	for e := 0; e < vpParam("events", 4); e++ {
		ok, fail := d.r.ok, d.r.fail
		stored, moves, ids, blocks := len(d.hp.stored), len(d.hp.moves), len(d.hr.ids), len(d.hr.blocks)
		kind := vpInt("event", 0, 4)
		late := false
		moot := false // the event makes no sense in this state
		var err error
		switch kind {
		case 0, 1:
			vpAssume(!dead)
			if kind == 0 {
				err = d.pl.start()
			} else {
				err = d.pl.restart()
			}
			if active {
				moot = true
			} else {
				active = true
				phase = 1
				offered = nil
				last = time.Now()
			}
		case 2:
			moot = phase != 1
			l := []int{vpInt("id", 0, pool-1)}
			if vpBool("two") {
				l = append(l, vpInt("id2", 0, pool-1))
			}
			err = d.pl.processIDs(vpIDs(l))
			if !moot {
				offered = l
				phase = 2
				last = time.Now()
			}
		case 3:
			moot = phase != 2
			err = d.pl.processBlock(vpBlock(vpInt("block", 0, pool-1), proto.BlockID{}, 1))
		default:
			late = vpBool("late")
			moot = !active
			tm := last.Add(30 * time.Second)
			if late {
				tm = tm.Add(time.Second)
			}
			err = d.pl.processTick(tm)
		}
		dOK, dFail := d.r.ok-ok, d.r.fail-fail
		if clean || moot {
			vpAssert(err == nil, "an event that is due or makes no sense is no error")
		}
		if moot {
			vpAssert(dOK == 0 && dFail == 0, "an event that makes no sense is not reported")
			vpAssert(len(d.hp.stored) == stored && len(d.hp.moves) == moves && len(d.hr.ids) == ids && len(d.hr.blocks) == blocks,
				"an event that makes no sense has no effect")
			continue
		}
		vpAssert(dOK+dFail <= 1, "at most one outcome is reported")
		if late {
			vpAssert(dFail == 1, "the timeout brings a failure")
		} else if clean || kind != 4 {
			vpAssert(dFail == 0, "no failure without a timeout")
		}
		if dOK > 0 {
			vpAssert(kind == 2 || kind == 3, "success comes with IDs or blocks only")
			for _, k := range offered {
				vpAssert(d.hp.known[k], "success means that everything offered is stored")
			}
			vpReach("ok")
		}
		if dFail > 0 {
			dead = true
			vpReach("fail")
		}
		if dOK+dFail > 0 {
			active = false
			phase = 0
		}
	}
	if active {
		_ = d.pl.processTick(last.Add(31 * time.Second))
		vpAssert(d.r.fail == 1, "the timeout brings a failure report whatever happened before")
		vpReach("timeout")
	}
}
