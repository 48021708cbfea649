package api

import (
	"math/big"
	"net"
	"net/http"
	"net/url"
	"strings"
	"time"
)

// vpAgain requests the same things again and again while blocks, leashes and peers change.
type vpAgain struct {
	*vpSys
	nums  []uint64 // number of the head a block is or was
	known []bool
	was   []bool // connected once
	score []*big.Int
}

func (s *vpAgain) grow(parent, i int) {
	tip := true
	for _, n := range s.nodes {
		if n.parent == parent {
			tip = false
		}
	}
	num := s.nums[parent]
	if !tip {
		num = 0
		for _, m := range s.nums {
			num = max(num, m)
		}
		num++
	}
	k := len(s.nodes)
	s.put(parent, i, 1<<(60-k), k%3) // All scores are different.
	s.nums = append(s.nums, num)
}

func (s *vpAgain) on() [][]int {
	on := make([][]int, len(s.nodes))
	for i, k := range s.leash {
		if k >= 0 {
			on[k] = append(on[k], i)
		}
	}
	return on
}

func (s *vpAgain) best() int {
	best := -1
	for _, k := range s.leash {
		if k >= 0 && (best < 0 || s.nodes[k].score.Cmp(s.nodes[best].score) > 0) {
			best = k
		}
	}
	return best
}

func (s *vpAgain) report(path, query string, want func(i int) bool) {
	var fs []vpFork
	vpDecode(s.get(path, query), &fs)
	vpAssert(fs != nil, "the answer is a list")
	w := make([]bool, len(s.leash))
	for i := range w {
		w[i] = want(i)
	}
	s.vpExpect(fs, w)
}

func (s *vpAgain) peers(path string, want func(i int) bool) {
	var ps []vpPeerInfo
	vpDecode(s.get(path, ""), &ps)
	vpAssert(ps != nil, "the answer is a list")
	n := 0
	for i := range s.known {
		if !want(i) {
			continue
		}
		n++
		c := 0
		for _, p := range ps {
			if !strings.HasPrefix(p.Address, vpAddr(i).String()+":") {
				continue
			}
			c++
			if s.was[i] {
				vpAssert(p.State == 1 && p.Name == "node" && p.Nonce == uint64(i), "a peer is listed with its state, nonce and name")
			} else {
				vpAssert(p.State == 0 && p.Name == "", "an unknown peer is listed with its state")
			}
			if s.score[i] != nil {
				vpAssert(p.Score != nil && p.Score.Cmp(s.score[i]) == 0, "a peer is listed with its score")
			}
			rec, err := s.reg.Peer(vpAddr(i))
			vpNoErr(err, "a record is read")
			vpAssert(p.NextAttempt.Equal(rec.NextAttempt), "a peer is listed with its next attempt")
		}
		vpAssert(c == 1, "a peer is listed once")
	}
	vpAssert(len(ps) == n, "nobody else is listed")
}

// ask checks the answers, q is the number of the property.
func (s *vpAgain) ask(q int) {
	switch q {
	case 1:
		all := func(i int) bool { return true }
		s.report("/forks", "", all)
		s.report("/active-forks", "", func(i int) bool { return s.conn[i] })
		s.report("/forks", "peers="+vpAddr(1).String(), func(i int) bool { return i == 1 })
		s.report("/active-forks", "peers="+vpAddr(0).String(), func(i int) bool { return i == 0 && s.conn[i] })
		s.report("/forks", "peers="+vpAddr(0).String()+","+vpAddr(1).String(), all)
	case 2:
		best := s.best()
		for i, k := range s.leash {
			path := "/fork/" + vpAddr(i).String()
			if k < 0 {
				vpAssert(s.get(path, "").code == 404, "an unknown peer is not found")
				vpAssert(s.get(path+"/generators/2", "").code == 404, "an unknown peer is not found")
				continue
			}
			var f vpFork
			vpDecode(s.get(path, ""), &f)
			s.vpCheckFork(f, k, best, s.on()[k])
			for j, c := range []string{"/generators/0", "/generators/2"} {
				v := 2
				if j == 0 {
					v = s.nodes[k].height - s.nodes[s.lca(k, best)].height
					if k == best {
						v = 1000
					}
				}
				var gs []vpGen
				vpDecode(s.get(path+c, ""), &gs)
				vpAssert(gs != nil, "the answer is a list")
				s.vpGens(gs, k, v)
			}
		}
	case 3:
		var hs []vpHead
		vpDecode(s.get("/heads", ""), &hs)
		on := s.on()
		n := 0
		for k := range s.nodes {
			tip := true
			for _, o := range s.nodes {
				tip = tip && o.parent != k
			}
			if !tip || len(on[k]) == 0 {
				continue
			}
			n++
			c := 0
			for _, h := range hs {
				if h.ID == vpID(k).String() {
					c++
					vpAssert(h.Number == s.nums[k], "a head has its number")
					vpAssert(h.Height == s.nodes[k].height && h.Score.Cmp(s.nodes[k].score) == 0, "a head has its height and score")
					vpAssert(h.Timestamp.Equal(time.UnixMilli(int64(1000+k))), "a head has its time")
				}
			}
			vpAssert(c == 1, "an active head is listed once")
		}
		vpAssert(len(hs) == n, "exactly the active heads are listed")
		s.vpLeashes()
		var st vpStatus
		vpDecode(s.get("/status", ""), &st)
		known, friends, conns, forks := 0, 0, 0, 0
		for i := range s.known {
			if s.known[i] {
				known++
			}
			if s.was[i] {
				friends++
			}
			if s.conn[i] {
				conns++
			}
		}
		for k := range on {
			if len(on[k]) > 0 {
				forks++
			}
		}
		vpAssert(st.All == known && st.Friendly == friends && st.Connected == conns, "the status counts peers")
		vpAssert(st.Short == forks && st.Long == 0, "the status counts forks")
	case 4:
		s.peers("/peers/all", func(i int) bool { return s.known[i] })
		s.peers("/peers/friendly", func(i int) bool { return s.was[i] })
		s.peers("/connections", func(i int) bool { return s.conn[i] })
	}
}

var vpAgainPaths = [][]string{
	{"/forks", "/active-forks"},
	{"/fork/52.0.0.1", "/fork/52.0.0.1/generators/2"},
	{"/heads", "/leashes", "/status"},
	{"/peers/all", "/peers/friendly", "/connections"},
}

// event is something that happens between requests.
func (s *vpAgain) event(q int) {
	i := vpInt("peer", 0, len(s.leash)-1)
	kinds := []int{0, 1, 2, 3, 4, 5, 6}
	if q == 4 {
		kinds = kinds[2:]
	} else if q == 2 {
		kinds = []int{0, 1, 6}
	}
	switch kinds[vpInt("event", 0, len(kinds)-1)] {
	case 0:
		s.grow(vpInt("parent", 0, len(s.nodes)-1), i)
	case 1:
		s.move(vpInt("to", 0, len(s.nodes)-1), i)
	case 2:
		if s.conn[i] {
			vpAssume(false)
		}
		s.connect(i)
		s.known[i], s.was[i] = true, true
	case 3:
		if !s.conn[i] {
			vpAssume(false)
		}
		s.disconnect(i)
	case 4:
		if !s.known[i] {
			vpAssume(false)
		}
		s.score[i] = new(big.Int).SetUint64(vpU64("score"))
		vpNoErr(s.reg.UpdatePeerScore(vpAddr(i), s.score[i]), "a score is announced")
	case 5:
		if s.known[i] {
			vpAssume(false)
		}
		a := vpAddr(i).As4()
		vpAssert(s.reg.AppendAddresses([]*net.TCPAddr{{IP: net.IPv4(a[0], a[1], a[2], a[3]), Port: 6868}}) == 1, "an address is added")
		s.known[i] = true
	case 6: // A request fails.
		ps := vpAgainPaths[q-1]
		path := ps[vpInt("path", 0, len(ps)-1)]
		vpReadFault(vpInt("read", 0, vpParam("reads", 1)))
		w := &vpRW{h: http.Header{}}
		r := &http.Request{Method: "GET", URL: &url.URL{Path: "/api" + path}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, RequestURI: "/api" + path}
		s.a.srv.Handler.ServeHTTP(w, r)
		vpReadFault(-1)
		if w.code != 200 {
			vpReach("failed")
		}
	}
}

// VP_again requests everything about one property before and after each of n events.
func VP_again() {
	q := vpParam("q", 1)
	n := vpParam("peers", 2)
	s := &vpAgain{vpSys: vpNewSys(n), nums: []uint64{1}, known: make([]bool, n), was: make([]bool, n), score: make([]*big.Int, n)}
	s.grow(0, 0)
	if vpBool("fork") {
		s.grow(0, 1)
	}
	if vpBool("connected") {
		s.connect(0)
		s.known[0], s.was[0] = true, true
	}
	s.ask(q)
	for j := 0; j < vpParam("n", 2); j++ {
		s.event(q)
		s.ask(q)
	}
	vpReach("end")
}
