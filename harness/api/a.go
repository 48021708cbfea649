package api

import (
	"encoding/json"
	"math/big"
	"strconv"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

// vpState builds a store with a fork: every peer is leashed to any block or to none, connected or not.
func vpState(n int) *vpSys {
	s := vpNewSys(n)
	a := s.put(0, 0, 1<<60, 1)
	b := s.put(a, 0, 1<<59, 2)
	s.put(a, 0, 1<<61, 3)
	s.put(b, 0, 1<<60, 1)
	for i := 0; i < n; i++ {
		k := vpInt("leash", -1, 4)
		if i == 0 {
			vpAssume(k >= 0)
		}
		if k >= 0 {
			s.move(k, i)
		}
		switch vpInt("state", 0, vpParam("states", 2)) {
		case 1:
			s.connect(i)
		case 2:
			s.connect(i)
			s.disconnect(i)
		}
	}
	return s
}

// vpExpect checks a forks report against the peers that qualify.
func (s *vpSys) vpExpect(fs []vpFork, want []bool) {
	on := make([][]int, len(s.nodes))
	n := 0
	best := -1
	for i, w := range want {
		if !w || s.leash[i] < 0 {
			continue
		}
		k := s.leash[i]
		if len(on[k]) == 0 {
			n++
		}
		on[k] = append(on[k], i)
		if best < 0 || s.nodes[k].score.Cmp(s.nodes[best].score) > 0 {
			best = k
		}
	}
	vpAssert(len(fs) == n, "the report has one entry per block of the qualifying peers")
	vpAssume(len(fs) == n)
	var last *big.Int
	for _, f := range fs {
		k := -1
		for j := range s.nodes {
			if f.HeadBlock == vpID(j).String() {
				k = j
			}
		}
		vpAssert(k >= 0 && len(on[k]) > 0, "every entry is about a block of the qualifying peers")
		vpAssume(k >= 0)
		s.vpCheckFork(f, k, best, on[k])
		on[k] = nil
		vpAssert(last == nil || last.Cmp(f.Score) >= 0, "entries are ordered by score")
		last = f.Score
	}
	if n == 0 {
		vpReach("empty")
	} else {
		vpReach("some")
	}
}

// VP_A01 requests reports about any peers.
func VP_A01() {
	n := vpParam("peers", 2)
	s := vpState(n)
	active := vpBool("active")
	want := make([]bool, n)
	query := ""
	listed := false
	add := func(a string) {
		if query != "" {
			query += ","
		} else {
			query = "peers="
		}
		query += a
	}
	form := vpInt("form", 0, 4)
	for i := 0; i < n; i++ {
		if vpBool("listed") {
			listed = true
			want[i] = true
			switch form {
			case 1:
				add("%20" + vpAddr(i).String() + "+")
			case 2:
				add(vpAddr(i).String())
				add(vpAddr(i).String())
			default:
				add(vpAddr(i).String())
			}
		}
	}
	switch form {
	case 3: // somebody unknown is listed too
		add("9.9.9.9")
		listed = true
	case 4:
		add("")
		add("%20")
	}
	path := "/forks"
	if active {
		path = "/active-forks"
	}
	w := s.get(path, query)
	for i := range want {
		if !listed {
			want[i] = true
		}
		if active && !s.conn[i] {
			want[i] = false
		}
	}
	var fs []vpFork
	vpDecode(w, &fs)
	vpAssert(fs != nil, "the answer is a list")
	s.vpExpect(fs, want)
}

// VP_A01_bad requests reports with a malformed list.
func VP_A01_bad() {
	s := vpNewSys(1)
	s.put(0, 0, 1<<60, 1)
	bad := []string{"x", "52.0.0", "52.0.0.1.1", "300.0.0.1", "52.0.0.1:80", "52.0.0.1/8", "host.name", "52.0.0.-1", "::1::", "01.2.3.4", "%00"}
	q := bad[vpInt("bad", 0, len(bad)-1)]
	switch vpInt("place", 0, 2) {
	case 0:
		q = "peers=" + q
	case 1:
		q = "peers=52.0.0.1," + q
	default:
		q = "peers=" + q + ",52.0.0.1"
	}
	path := "/forks"
	if vpBool("active") {
		path = "/active-forks"
	}
	w := s.get(path, q)
	vpAssert(w.code == 400, "a malformed list of peers is a client error")
	vpReach("bad")
}

type vpGen struct {
	Generator string `json:"generator"`
	Blocks    int    `json:"blocks"`
}

func vpGenAddr(gen int) string {
	var b proto.Block
	b.GeneratorPublicKey[0] = byte(gen)
	a, err := proto.NewAddressFromPublicKey(vpScheme, b.GeneratorPublicKey)
	vpNoErr(err, "an address is made")
	return a.String()
}

// vpGens checks the generators of the last n blocks of a chain.
func (s *vpSys) vpGens(gs []vpGen, k, n int) {
	want := make([]int, 8)
	total, kinds := 0, 0
	for ; k >= 0 && total < n; k = s.nodes[k].parent {
		if want[s.nodes[k].gen] == 0 {
			kinds++
		}
		want[s.nodes[k].gen]++
		total++
	}
	vpAssert(len(gs) == kinds, "every generator is listed once")
	last := 1 << 30
	for _, g := range gs {
		found := false
		for i := range want {
			if want[i] > 0 && g.Generator == vpGenAddr(i) {
				vpAssert(g.Blocks == want[i], "the blocks of a generator are counted")
				want[i] = 0
				found = true
				break
			}
		}
		vpAssert(found, "only generators of the blocks are listed")
		vpAssert(g.Blocks <= last, "generators are ordered by their blocks")
		last = g.Blocks
	}
}

var vpCounts = []string{"0", "1", "2", "3", "4", "5", "1000", "9223372036854775807", "-1", "-9223372036854775808", "+2", "00"}

// VP_A02 requests the fork of one peer and its generators.
func VP_A02() {
	n := vpParam("peers", 2)
	s := vpState(n)
	i := vpInt("peer", 0, n)
	unknown := i == n || s.leash[i] < 0
	path := "/fork/" + vpAddr(i).String()
	best := -1
	for j := range s.leash {
		if k := s.leash[j]; k >= 0 && (best < 0 || s.nodes[k].score.Cmp(s.nodes[best].score) > 0) {
			best = k
		}
	}
	if vpBool("generators") {
		c := vpCounts[vpInt("count", 0, len(vpCounts)-1)]
		w := s.get(path+"/generators/"+c, "")
		if unknown {
			vpAssert(w.code == 404, "an unknown peer is not found")
			vpReach("unknown")
			return
		}
		v, err := strconv.Atoi(c)
		vpNoErr(err, "a count is a number")
		if v < 0 {
			vpAssert(w.code == 200 || w.code == 400, "a negative count is answered")
			vpReach("negative")
			return
		}
		k := s.leash[i]
		if v == 0 {
			v = s.nodes[k].height - s.nodes[s.lca(k, best)].height
			if k == best {
				v = 1000
			}
		}
		var gs []vpGen
		vpDecode(w, &gs)
		vpAssert(gs != nil, "the answer is a list")
		s.vpGens(gs, k, v)
		vpReach("generators")
		return
	}
	w := s.get(path, "")
	if unknown {
		vpAssert(w.code == 404, "an unknown peer is not found")
		vpReach("unknown")
		return
	}
	var f vpFork
	vpDecode(w, &f)
	var on []int
	for j := range s.leash {
		if s.leash[j] == s.leash[i] {
			on = append(on, j)
		}
	}
	s.vpCheckFork(f, s.leash[i], best, on)
	vpReach("fork")
}

// VP_A02_bad requests with malformed or unusual addresses and counts.
func VP_A02_bad() {
	s := vpNewSys(1)
	s.put(0, 0, 1<<60, 1)
	suffix, badCount := "", false
	if vpBool("generators") {
		counts := []string{"5", "x", "1.5", "1e3", "99999999999999999999", "0x10", "--1", "%20"}
		c := vpInt("count", 0, len(counts)-1)
		suffix = "/generators/" + counts[c]
		badCount = c > 0
	}
	if vpBool("known") {
		w := s.get("/fork/52.0.0.1"+suffix, "")
		if badCount {
			vpAssert(w.code == 400, "a malformed count is a client error")
			vpReach("count")
		} else {
			vpAssert(w.code == 200, "a leashed peer is found")
		}
		return
	}
	bad := []string{"x", "52.0.0", "300.0.0.1", "52.0.0.1:80", "host.name", "::1::", "52.0.0.1%25eth0", "1.2.3.4%eth0"}
	w := s.get("/fork/"+bad[vpInt("bad", 0, len(bad)-1)]+suffix, "")
	vpAssert(w.code == 400, "a malformed address is a client error")
	vpReach("address")
}

// VP_A02_v6 requests the fork of an IPv6 peer by any spelling of its address.
func VP_A02_v6() {
	s := vpNewSys(1)
	s.put(0, 0, 1<<60, 1)
	vpNoErr(s.link.PutBlock(vpBlock(1, vpID(0), 1<<60, 1), vpV6), "a block of an IPv6 peer is stored")
	suffix := ""
	if vpBool("generators") {
		suffix = "/generators/1"
	}
	spell := []string{"fe80::1", "fe80:0:0:0:0:0:0:1", "FE80::1"}
	if j := vpInt("spell", 0, 5); j < 3 {
		w := s.get("/fork/"+spell[j]+suffix, "")
		vpAssert(w.code == 200, "a leashed IPv6 peer is found")
		vpReach("found")
	} else {
		other := []string{"fe80::2", "fe80::1%eth0", "::ffff:52.0.0.1"}
		w := s.get("/fork/"+other[j-3]+suffix, "")
		vpAssert(w.code == 200 || w.code == 404, "an unusual address is found or not found")
		vpReach("unusual")
	}
}

// VP_A02_long requests generators of a chain of more than a thousand blocks.
func VP_A02_long() {
	s := vpNewSys(2)
	n := vpParam("n", 1003)
	k := 0
	for i := 0; i < n; i++ {
		g := 1
		if i < n-1000 {
			g = 2 // these blocks are too deep
		}
		k = vpLong(s, k, g)
	}
	if vpBool("other") {
		// The other peer's chain is heavier, so that this one is not the longest anymore.
		s.put(0, 1, 1, 3)
	}
	c := []string{"0", "1000", "1001", "1100"}[vpInt("count", 0, 3)]
	w := s.get("/fork/"+vpAddr(0).String()+"/generators/"+c, "")
	var gs []vpGen
	vpDecode(w, &gs)
	vpAssert(gs != nil, "the answer is a list")
	v, err := strconv.Atoi(c)
	vpNoErr(err, "a count is a number")
	if v == 0 {
		v = 1000
		if s.leash[1] >= 0 {
			v = n
		}
	}
	s.vpGens(gs, k, v)
	vpReach("long")
}

func vpLong(s *vpSys, parent, gen int) int {
	k := len(s.nodes)
	b := vpBlock(0, vpLongID(parent), 1<<62, gen)
	b.ID = vpLongID(k)
	vpNoErr(s.link.PutBlock(b, vpAddr(0)), "a block is stored")
	p := s.nodes[parent]
	s.nodes = append(s.nodes, vpNode{parent: parent, height: p.height + 1, score: new(big.Int).Add(p.score, vpOwnScore(1<<62)), gen: gen})
	s.leash[0] = k
	return k
}

func vpLongID(i int) proto.BlockID {
	if i == 0 {
		return vpID(0)
	}
	var d [32]byte
	d[0], d[30], d[31] = 0x78, byte(i>>8), byte(i)
	return proto.NewBlockIDFromDigest(d)
}

type vpHead struct {
	Number    uint64    `json:"number"`
	ID        string    `json:"id"`
	Height    int       `json:"height"`
	Score     *big.Int  `json:"score"`
	Timestamp time.Time `json:"timestamp"`
}

type vpLeash struct {
	BlockID    string    `json:"block_id"`
	Height     int       `json:"height"`
	Score      *big.Int  `json:"score"`
	Timestamp  time.Time `json:"timestamp"`
	Generator  string    `json:"generator"`
	PeersCount int       `json:"peers_count"`
	Peers      []string  `json:"peers"`
}

type vpStatus struct {
	Short     int `json:"short_forks_count"`
	Long      int `json:"long_forks_count"`
	All       int `json:"all_peers_count"`
	Friendly  int `json:"friendly_peers_count"`
	Connected int `json:"connected_peers_count"`
}

// VP_A03 requests heads, leashes and the status.
func VP_A03() {
	n := vpParam("peers", 2)
	var s *vpSys
	fresh := vpBool("fresh")
	if fresh {
		s = vpNewSys(n)
	} else {
		s = vpState(n)
	}
	switch vpInt("what", 0, 2) {
	case 0:
		var hs []vpHead
		vpDecode(s.get("/heads", ""), &hs)
		vpAssert(hs != nil, "the answer is a list")
		// Block 3 and 4 are the tips; 3 is a fork of block 1, so it has number 2 and the first chain keeps number 1.
		want := map[int]uint64{}
		for _, k := range s.leash {
			if k == 4 {
				want[4] = 1
			}
			if k == 3 {
				want[3] = 2
			}
		}
		if fresh {
			want = nil
		}
		vpAssert(len(hs) == len(want), "exactly the active heads are listed")
		for k, num := range want {
			c := 0
			for _, h := range hs {
				if h.ID == vpID(k).String() {
					c++
					vpAssert(h.Number == num, "a head has its number")
					vpAssert(h.Height == s.nodes[k].height, "a head has its height")
					vpAssert(h.Score.Cmp(s.nodes[k].score) == 0, "a head has its score")
					vpAssert(h.Timestamp.Equal(time.UnixMilli(int64(1000+k))), "a head has its time")
				}
			}
			vpAssert(c == 1, "an active head is listed once")
		}
		vpReach("heads")
	case 1:
		s.vpLeashes()
		vpReach("leashes")
	default:
		known, friendly, connected := 0, 0, 0
		// A peer that was only heard of.
		for i := 0; i < n; i++ {
			if s.conn[i] {
				connected++
			}
		}
		ps, err := s.reg.Peers()
		vpNoErr(err, "peers are listed")
		known = len(ps)
		fps, err := s.reg.FriendlyPeers()
		vpNoErr(err, "peers are listed")
		friendly = len(fps)
		var st vpStatus
		w := s.get("/status", "")
		vpDecode(w, &st)
		var raw map[string]any
		vpNoErr(json.Unmarshal(w.body, &raw), "the answer is valid JSON")
		vpAssert(st.All == known && st.Friendly == friendly && st.Connected == connected, "the status counts peers")
		best := -1
		for _, k := range s.leash {
			if k >= 0 && (best < 0 || s.nodes[k].score.Cmp(s.nodes[best].score) > 0) {
				best = k
			}
		}
		short := map[int]bool{}
		for _, k := range s.leash {
			if k >= 0 {
				short[k] = true
			}
		}
		vpAssert(st.Short == len(short) && st.Long == 0, "the status counts forks")
		vpReach("status")
	}
}

type vpPeerInfo struct {
	Address     string    `json:"address"`
	Nonce       uint64    `json:"nonce"`
	Name        string    `json:"name"`
	Version     string    `json:"version"`
	State       int       `json:"state"`
	NextAttempt time.Time `json:"next_attempt"`
	Score       *big.Int  `json:"score"`
}

// VP_A04 requests lists of peers.
func VP_A04() {
	n := vpParam("peers", 2)
	s := vpNewSys(n)
	states := make([]int, n)
	nonces := make([]uint64, n)
	scores := make([]uint64, n)
	patch := make([]uint32, n)
	names := []string{"b", "A", "\"<\\>\u00e9"}
	for i := 0; i < n; i++ {
		states[i] = vpInt("state", 0, 5)
		switch states[i] {
		case 0: // never heard of
		case 1: // offered a version
			_, err := s.reg.SuggestVersion(vpAddr(i))
			vpNoErr(err, "a version is suggested")
		default:
			nonces[i] = vpU64("nonce")
			patch[i] = []uint32{0, 4294967295}[vpInt("patch", 0, 1)]
			app := "wavesW"
			if states[i] == 5 {
				app = "wavesT"
			}
			hs := proto.Handshake{AppName: app, NodeName: names[i], NodeNonce: nonces[i], Version: proto.NewVersion(1, 5, patch[i])}
			_, err := s.reg.SuggestVersion(vpAddr(i))
			vpNoErr(err, "a version is suggested")
			s.conns[i] = &vpConn{hs: hs}
			err = s.reg.RegisterPeer(vpAddr(i), s.conns[i], hs)
			if states[i] != 5 {
				vpNoErr(err, "a peer is registered")
			}
			if states[i] == 3 {
				scores[i] = vpU64("score")
				vpNoErr(s.reg.UpdatePeerScore(vpAddr(i), new(big.Int).SetUint64(scores[i])), "a score is announced")
			}
			if states[i] == 4 {
				s.disconnect(i)
			}
		}
	}
	what := vpInt("what", 0, 2)
	path := []string{"/peers/all", "/peers/friendly", "/connections"}[what]
	var ps []vpPeerInfo
	vpDecode(s.get(path, ""), &ps)
	vpAssert(ps != nil, "the answer is a list")
	m := 0
	for i := 0; i < n; i++ {
		st := states[i]
		in := st > 0
		if what == 1 {
			in = st >= 2 && st <= 4
		}
		if what == 2 {
			in = st == 2 || st == 3
		}
		if !in {
			continue
		}
		m++
		found := false
		for _, p := range ps {
			if p.Address[:len(vpAddr(i).String())+1] != vpAddr(i).String()+":" {
				continue
			}
			vpAssert(!found, "a peer is listed once")
			found = true
			if st == 1 {
				vpAssert(p.State == 0 && p.Version == "1.5.0", "an unknown peer is listed with its state and version")
				continue
			}
			vpAssert(vpOr(st == 5, vpAnd(p.State == 1, p.Nonce == nonces[i], p.Name == names[i])), "a peer is listed with its state, nonce and name")
			vpAssert(p.Version == proto.NewVersion(1, 5, patch[i]).String(), "a peer is listed with its version")
			if st == 5 {
				vpAssert(p.State == 2, "a hostile peer is listed as such")
			}
			if st == 3 {
				vpAssert(p.Score != nil && p.Score.Cmp(new(big.Int).SetUint64(scores[i])) == 0, "a peer is listed with its score")
			} else {
				vpAssert(p.Score == nil || p.Score.Sign() == 0, "a peer without a score is listed without one")
			}
			rec, err := s.reg.Peer(vpAddr(i))
			vpNoErr(err, "a record is read")
			vpAssert(p.NextAttempt.Equal(rec.NextAttempt), "a peer is listed with its next attempt")
		}
		vpAssert(found, "a peer is listed")
	}
	vpAssert(len(ps) == m, "nobody else is listed")
	vpReach([]string{"all", "friendly", "connections"}[what])
}

// vpLeashes requests the leashes.
func (s *vpSys) vpLeashes() {
	var ls []vpLeash
	vpDecode(s.get("/leashes", ""), &ls)
	vpAssert(ls != nil, "the answer is a list")
	on := make([][]int, len(s.nodes))
	m := 0
	for i, k := range s.leash {
		if k >= 0 {
			if len(on[k]) == 0 {
				m++
			}
			on[k] = append(on[k], i)
		}
	}
	vpAssert(len(ls) == m, "every leashed block is listed once")
	for j, l := range ls {
		if j > 0 {
			c := ls[j-1].Score.Cmp(l.Score)
			vpAssert(c > 0 || c == 0 && ls[j-1].PeersCount >= l.PeersCount, "leashes are ordered by score and number of peers")
		}
		k := -1
		for i := range s.nodes {
			if l.BlockID == vpID(i).String() {
				k = i
			}
		}
		vpAssert(k >= 0 && len(on[k]) > 0, "only leashed blocks are listed")
		vpAssume(k >= 0)
		vpAssert(l.Height == s.nodes[k].height, "a leash has the height of the block")
		vpAssert(l.Score.Cmp(s.nodes[k].score) == 0, "a leash has the score of the block")
		vpAssert(l.Timestamp.Equal(time.UnixMilli(int64(1000+k))), "a leash has the time of the block")
		vpAssert(l.Generator == vpGenAddr(s.nodes[k].gen), "a leash has the generator of the block")
		vpAssert(l.PeersCount == len(on[k]) && len(l.Peers) == len(on[k]), "the peers of a leash are counted")
		for _, i := range on[k] {
			c := 0
			for _, p := range l.Peers {
				if p == vpAddr(i).String() {
					c++
				}
			}
			vpAssert(c == 1, "every peer of a leash is listed once")
		}
		on[k] = nil
	}
}

// VP_A03_tie requests leashes at blocks of equal score.
func VP_A03_tie() {
	n := vpParam("peers", 3)
	s := vpNewSys(n)
	a := s.put(0, 0, 1<<60, 1)
	s.put(a, 0, 1<<59, 2)
	s.put(a, 0, 1<<59, 3)
	s.put(0, 0, 1<<58, 3)
	for i := 0; i < n; i++ {
		if k := vpInt("leash", 1, 5); k < 5 {
			s.move(k, i)
		}
	}
	s.vpLeashes()
	vpReach("tie")
}
