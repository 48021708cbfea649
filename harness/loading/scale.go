package loading

import (
	"math/big"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

// The harnesses of this file are about batches and crowds much larger than what the others can go through entirely:
// a page, a byte, a window or a limit that no small batch reaches. Only a few things are free in them.

// VP_big_batch loads one or two long lists of IDs of which any usual number is known, lets the blocks arrive in one of four orders and
// one of them late or never.
func VP_big_batch() {
	n := vpParam("n", 260)
	d := vpNewDL(2 * n)
	a, b := vpInt("lead", 0, 8), vpInt("missing", 0, 6)
	rounds := 1 + (a+b/2)%2
	order := (a + b) % 4
	if vpParam("orders", 0) == 1 {
		rounds = vpInt("rounds", 1, 2)
		order = vpInt("order", 0, 3)
	}
	for round := 1; round <= rounds; round++ {
		l := []int{}
		for i := 0; i < n; i++ {
			l = append(l, (round-1)*n+i)
		}
		lead := 0
		missing, never := n-1, false
		if round == rounds {
			lead = []int{0, 1, 50, 99, 100, 101, n / 2, n - 1, n}[a]
			missing = lead + []int{0, 1, 31, 64, 100, 127, n - 1 - lead}[b]
			never = vpBool("never")
		}
		for i := 0; i < lead; i++ {
			d.hp.known[l[i]] = true
		}
		d.r.ok = 0
		d.hr.ids, d.hr.blocks = nil, nil
		d.hp.moves, d.hp.stored = nil, nil
		vpNoErr(d.pl.start(), "a download starts")
		vpNoErr(d.pl.processIDs(vpIDs(l)), "IDs are processed")
		vpAssert(vpSameIDs(d.hr.blocks, vpIDs(l[lead:])), "exactly the IDs from the first unknown one on are requested, once and in order")
		if lead > 0 {
			vpAssert(d.hp.leash == vpID(l[lead-1]), "the leash ends at the last leading known ID")
		}
		if lead == n {
			vpAssert(d.r.ok == 1 && d.r.fail == 0 && len(d.hp.stored) == 0, "success is reported at once if all IDs are known")
			vpReach("known")
			return
		}
		vpAssume(missing < n)
		seq := []int{}
		for i := lead; i < n; i++ {
			switch order {
			case 0:
				seq = append(seq, i)
			case 1:
				seq = append(seq, n-1-(i-lead))
			case 2: // the second half first
				seq = append(seq, lead+(i-lead+(n-lead)/2)%(n-lead))
			case 3: // neighbours swapped
				j := lead + ((i - lead) ^ 1)
				if j >= n {
					j = i
				}
				seq = append(seq, j)
			}
		}
		for _, i := range seq {
			if i == missing {
				continue
			}
			vpNoErr(d.pl.processBlock(vpBlock(l[i], proto.BlockID{}, 1)), "a block is processed")
			if i%50 == 7 {
				vpNoErr(d.pl.processBlock(vpBlock(l[i], proto.BlockID{}, 1)), "a block that comes twice is processed")
			}
		}
		vpAssert(d.r.ok == 0 && d.r.fail == 0 && len(d.hp.stored) == 0, "nothing is stored and reported before all requested blocks arrived")
		if never {
			vpNoErr(d.pl.processTick(time.Now().Add(31*time.Second)), "a tick is processed")
			vpAssert(d.r.fail == 1 && d.r.ok == 0, "a failure is reported after 30 seconds since the last request")
			vpAssert(len(d.hp.stored) == missing-lead, "exactly the leading run of received blocks of the current batch is stored")
			for i, b := range d.hp.stored {
				vpAssert(b.BlockID() == vpID(l[lead+i]), "the leading run is stored in order")
			}
			vpReach("fail")
			return
		}
		vpNoErr(d.pl.processBlock(vpBlock(l[missing], proto.BlockID{}, 1)), "a block is processed")
		vpAssert(d.r.ok == 1 && d.r.fail == 0, "success is reported once")
		vpAssert(len(d.hp.stored) == n-lead, "every requested block is stored once")
		for i, b := range d.hp.stored {
			vpAssert(b.BlockID() == vpID(l[lead+i]), "blocks are stored in the order their IDs were offered")
		}
		vpReach("done")
	}
}

// VP_big_sync lets the loader catch up with a peer that is some hundred blocks ahead, one of many, in full batches.
func VP_big_sync() {
	n := vpParam("peers", 70)
	s := vpNewSys(n)
	x := []int{0, n / 2, n - 1}[vpInt("x", 0, 2)]
	short := vpInt("height", 0, 3)
	height := []int{50, 98, 99, 150}[short]
	k := 0
	line := []int{0}
	for i := 0; i < height; i++ {
		k = s.put(k, x)
		line = append(line, k)
	}
	// The others are up to date, or it is not known how far they are.
	for i := 0; i < n; i++ {
		if i == x {
			continue
		}
		vpNoErr(s.link.MoveLeash(vpID(k), vpAddr(i)), "a leash moves")
		if i%3 > 0 {
			s.score(i, new(big.Int).SetUint64(uint64(256*(height-1+i%3))))
		}
	}
	batches := vpParam("batches", 3)
	s.score(x, new(big.Int).SetUint64(uint64(256*(height+1+100*batches))))
	for b := 0; b < batches; b++ {
		if b == 0 {
			before := s.asked()
			s.l.sync()
			vpAssert(s.target(before) == x, "only a connected lagging peer is asked")
		}
		req := s.conns[x].ids
		vpAssert(len(req) == b+1, "the download continues while the peer is lagging and progressing")
		want := len(line)
		if want > 100 {
			want = 100
		}
		vpAssert(len(req[b]) == want, "up to 100 ancestors are sent")
		for i, id := range req[b] {
			vpAssert(id == vpID(line[len(line)-1-i]), "the request carries the ancestors in order")
		}
		ids := []proto.BlockID{vpID(line[len(line)-1])}
		first := len(line)
		for i := 0; i < 100; i++ {
			line = append(line, s.next)
			ids = append(ids, vpID(s.next))
			s.next++
		}
		s.l.handleIDs(IDsPackage{Peer: vpAddr(x), IDs: ids})
		vpAssert(vpSameIDs(s.conns[x].blocks[100*b:], ids[1:]), "exactly the unknown IDs are requested, once and in order")
		for i := 99; i >= 0; i-- {
			j := first + i
			s.l.handleBlock(BlockPackage{Peer: vpAddr(x), Block: vpBlock(line[j], vpID(line[j-1]), vpBT)})
		}
		vpAssert(s.leash(x) == vpID(line[len(line)-1]), "the batch is loaded")
	}
	vpAssert(len(s.conns[x].ids) == batches, "the loader moves on from a peer that is not lagging anymore")
	before := s.requests()
	s.l.sync()
	vpAssert(s.requests() == before, "a peer that is not lagging is left alone")
	vpReach("synchronised")
}
