package loading

import (
	"errors"
	"net/netip"
	"time"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

func vpNoErr(err error, what string) {
	vpAssert(err == nil, what)
	if err != nil {
		vpAssume(false)
	}
}

func vpAddr(i int) netip.Addr { return netip.AddrFrom4([4]byte{52, byte(i >> 8), byte(i), 1}) }

// vpID is the identifier of the i-th block of the pool, of both kinds.
func vpID(i int) proto.BlockID {
	if i%3 == 2 {
		var s crypto.Signature
		s[0], s[62], s[63] = 0x55, byte(i>>8), byte(i)
		return proto.NewBlockIDFromSignature(s)
	}
	var d crypto.Digest
	d[0], d[30], d[31] = 0x77, byte(i>>8), byte(i)
	return proto.NewBlockIDFromDigest(d)
}

// vpBlock is the block of the pool with the i-th identifier.
func vpBlock(i int, parent proto.BlockID, bt uint64) *proto.Block {
	b := &proto.Block{}
	id := vpID(i)
	b.Version = proto.ProtobufBlockVersion
	b.ID = id
	if id.IsSignature() {
		b.Version = proto.NgBlockVersion
		b.BlockSignature = id.Signature()
	}
	b.Parent = parent
	b.BaseTarget = bt
	b.Timestamp = uint64(1000 + i)
	b.GeneratorPublicKey[0] = 0x11
	return b
}

var errVP = errors.New("storage failure")

// vpHR records the requests sent to a peer.
type vpHR struct {
	id     netip.Addr
	ids    [][]proto.BlockID
	blocks []proto.BlockID
}

func (h *vpHR) ID() netip.Addr                      { return h.id }
func (h *vpHR) RequestBlockIDs(ids []proto.BlockID) { h.ids = append(h.ids, ids) }
func (h *vpHR) RequestBlock(id proto.BlockID)       { h.blocks = append(h.blocks, id) }

// vpHP is a block store whose contents and failures are free.
type vpHP struct {
	addr   netip.Addr
	leash  proto.BlockID
	lcb    proto.BlockID
	known  []bool // of the blocks of the pool
	at     map[proto.BlockID]int
	moves  []proto.BlockID
	stored []*proto.Block
	last   []proto.BlockID // what LastIDs was asked for
	tail   []proto.BlockID // what LastIDs answers
	limit  int
	lcbs   int
	ops    int
	fail   int // number of the operation that fails, -1 for none
	refuse int // block of the pool that cannot be stored, -1 for none
	foul   bool
}

func (h *vpHP) op() error {
	h.ops++
	if h.ops-1 == h.fail {
		return errVP
	}
	return nil
}

func (h *vpHP) who(a netip.Addr) {
	if a != h.addr {
		h.foul = true
	}
}

func (h *vpHP) Leash(a netip.Addr) (proto.BlockID, error) {
	h.who(a)
	if err := h.op(); err != nil {
		return proto.BlockID{}, err
	}
	return h.leash, nil
}

func (h *vpHP) MoveLeash(id proto.BlockID, a netip.Addr) error {
	h.who(a)
	if err := h.op(); err != nil {
		return err
	}
	h.moves = append(h.moves, id)
	h.leash = id
	return nil
}

func (h *vpHP) LCB(a netip.Addr) (proto.BlockID, error) {
	h.who(a)
	if err := h.op(); err != nil {
		return proto.BlockID{}, err
	}
	h.lcbs++
	return h.lcb, nil
}

func (h *vpHP) HasBlock(id proto.BlockID) (bool, error) {
	if err := h.op(); err != nil {
		return false, err
	}
	i, ok := h.at[id]
	return ok && h.known[i], nil
}

func (h *vpHP) LastIDs(id proto.BlockID, n int) ([]proto.BlockID, error) {
	if err := h.op(); err != nil {
		return nil, err
	}
	h.last = append(h.last, id)
	h.limit = n
	return h.tail, nil
}

func (h *vpHP) PutBlock(b *proto.Block, a netip.Addr) error {
	h.who(a)
	if err := h.op(); err != nil {
		return err
	}
	if h.refuse >= 0 && b.BlockID() == vpID(h.refuse) {
		return errVP
	}
	h.stored = append(h.stored, b)
	h.leash = b.BlockID()
	if i, ok := h.at[b.BlockID()]; ok {
		h.known[i] = true
	}
	return nil
}

// vpRep counts the reports of a download.
type vpRep struct {
	ok, fail int
	pl       *peerLoader
	again    bool // start the next batch on success
}

func (r *vpRep) OK() {
	r.ok++
	if r.again {
		_ = r.pl.start()
	}
}
func (r *vpRep) Fail() { r.fail++ }

// vpDL is a download with its surroundings.
type vpDL struct {
	hr *vpHR
	hp *vpHP
	r  *vpRep
	pl *peerLoader
	t0 time.Time
}

func vpNewDL(pool int) *vpDL {
	d := &vpDL{hr: &vpHR{id: vpAddr(1)}, r: &vpRep{}}
	d.hp = &vpHP{addr: vpAddr(1), leash: vpID(9100), lcb: vpID(9101), known: make([]bool, pool), fail: -1, refuse: -1}
	d.hp.at = map[proto.BlockID]int{}
	for i := range d.hp.known {
		d.hp.at[vpID(i)] = i
	}
	d.hp.tail = []proto.BlockID{vpID(9100), vpID(9099)}
	d.pl = newPeerLoader(d.hr, d.hp, d.r)
	d.r.pl = d.pl
	d.t0 = time.Now()
	return d
}

func vpSameIDs(a, b []proto.BlockID) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
