package api

import (
	"math/big"
	"strconv"
	"strings"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

// The harness of this file is about answers much longer than those the others can go through entirely: a page, a
// byte, a buffer or a limit that no small answer reaches.

// vpCrowd is a store of a trunk of 20 blocks and a branch of one to eight blocks for each of w peers, in all states.
type vpCrowd struct {
	*vpSys
	ids   map[string]int // blocks by ID
	names map[string]int // peers by address
	tips  []int
	state []int // 0 never registered, 1 connected, 2 disconnected, 3 hostile
}

func vpNewCrowd(w int) *vpCrowd {
	s := &vpCrowd{vpSys: vpNewSys(w), ids: map[string]int{}, names: map[string]int{}, state: make([]int, w)}
	trunk := []int{0}
	for i := 0; i < 20; i++ {
		trunk = append(trunk, s.put(trunk[i], 0, 1<<50, 1))
	}
	for i := 0; i < w; i++ {
		k := trunk[(i*5)%20]
		for j := 0; j <= i%8; j++ {
			k = s.put(k, i, uint64(1<<50)-uint64(i)<<30, i%30)
		}
		s.tips = append(s.tips, k)
		s.names[vpAddr(i).String()] = i
	}
	for i := 0; i < w; i++ {
		switch {
		case i%10 == 7:
			s.move(trunk[i%20], i)
		case i%4 == 2:
			s.move(s.tips[(i*5)%w], i)
		}
		s.state[i] = i * 7 / 3 % 4
		app := "wavesW"
		if s.state[i] == 3 {
			app = "wavesT"
		}
		if s.state[i] == 0 {
			continue
		}
		_, err := s.reg.SuggestVersion(vpAddr(i))
		vpNoErr(err, "a version is suggested")
		hs := proto.Handshake{AppName: app, NodeName: "node " + strconv.Itoa(i*11%w), NodeNonce: uint64(i), Version: proto.NewVersion(1, 5, uint32(i))}
		s.conns[i] = &vpConn{hs: hs}
		err = s.reg.RegisterPeer(vpAddr(i), s.conns[i], hs)
		if s.state[i] != 3 {
			vpNoErr(err, "a peer is registered")
			vpNoErr(s.reg.UpdatePeerScore(vpAddr(i), big.NewInt(int64(77000+i))), "a score is announced")
			s.conn[i] = true
		}
		if s.state[i] == 2 {
			s.disconnect(i)
		}
	}
	for k := range s.nodes {
		s.ids[vpID(k).String()] = k
	}
	return s
}

// report checks a forks report about the peers of a selection.
func (s *vpCrowd) report(fs []vpFork, sel func(i int) bool) {
	on := map[int]int{}
	for i, k := range s.leash {
		if sel(i) {
			on[k]++
		}
	}
	vpAssert(len(fs) == len(on), "the report has one entry per block of the qualifying peers")
	best := -1
	var last *vpFork
	seen := map[int]bool{}
	who := map[string]bool{}
	long := 0
	for j := range fs {
		f := &fs[j]
		k, ok := s.ids[f.HeadBlock]
		vpAssert(ok && on[k] > 0 && !seen[k], "every entry is about a block of the qualifying peers")
		if !ok {
			return
		}
		seen[k] = true
		if j == 0 {
			best = k
		}
		n := s.nodes[k]
		l := s.lca(k, best)
		vpAssert(f.HeadHeight == n.height && f.Score.Cmp(n.score) == 0 && f.HeadTimestamp.Equal(time.UnixMilli(int64(1000+k))) && f.HeadGenerator == vpGenAddr(n.gen),
			"the entry has the height, score, time and generator of the block")
		vpAssert(f.PeersCount == on[k] && len(f.Peers) == on[k], "the entry counts its peers")
		for _, a := range f.Peers {
			i, ok := s.names[a]
			vpAssert(ok && s.leash[i] == k && sel(i) && !who[a], "the entry lists each of its peers once")
			who[a] = true
		}
		vpAssert(s.ids[f.LastCommonBlock] == l, "the entry has the last common block with the longest")
		vpAssert(f.Length == n.height-s.nodes[l].height, "the entry has the length since the last common block")
		vpAssert(f.Longest == (j == 0), "the entry is marked longest if and only if it is")
		if last != nil {
			c := last.Score.Cmp(f.Score)
			vpAssert(c > 0 || c == 0 && last.PeersCount >= f.PeersCount, "entries are ordered by score, then by peers")
		}
		last = f
		if f.Length > 5 {
			long++
		}
	}
	s.long(long, len(fs))
}

var vpLongForks, vpAllForks int

func (s *vpCrowd) long(l, n int) { vpLongForks, vpAllForks = l, n }

// VP_crowd_forks requests reports about all, connected, or many listed peers, and the status.
func VP_crowd_forks() {
	w := vpParam("w", 140)
	s := vpNewCrowd(w)
	all := func(i int) bool { return true }
	most := func(i int) bool { return i%5 != 3 }
	few := func(i int) bool { return i >= w-2 }
	connected := func(i int) bool { return s.conn[i] }
	list := func(sel func(i int) bool) string {
		q := ""
		for i := 0; i < w; i++ {
			if sel(i) {
				if q != "" {
					q += ","
				}
				q += vpAddr(i).String()
			}
		}
		return "peers=" + q
	}
	var fs []vpFork
	switch vpInt("what", 0, 4) {
	case 0:
		vpDecode(s.get("/forks", ""), &fs)
		s.report(fs, all)
		var st vpStatus
		vpDecode(s.get("/status", ""), &st)
		known, friendly, conns := 0, 0, 0
		for i := range s.state {
			if s.state[i] != 0 {
				known++
			}
			if s.state[i] == 1 || s.state[i] == 2 {
				friendly++
			}
			if s.state[i] == 1 {
				conns++
			}
		}
		vpAssert(st.All == known && st.Friendly == friendly && st.Connected == conns, "the status counts peers")
		vpAssert(st.Long == vpLongForks && st.Short == vpAllForks-vpLongForks, "the status counts forks")
	case 1:
		vpDecode(s.get("/forks", list(most)), &fs)
		s.report(fs, most)
	case 2:
		vpDecode(s.get("/forks", list(few)), &fs)
		s.report(fs, few)
	case 3:
		vpDecode(s.get("/active-forks", ""), &fs)
		s.report(fs, connected)
	case 4:
		vpDecode(s.get("/active-forks", list(most)), &fs)
		s.report(fs, func(i int) bool { return most(i) && connected(i) })
	}
	vpReach("report")
}

// VP_crowd_fork requests the forks of single peers and their generators.
func VP_crowd_fork() {
	w := vpParam("w", 140)
	s := vpNewCrowd(w)
	best := -1
	on := map[int]int{}
	for _, k := range s.leash {
		on[k]++
		if best < 0 || s.nodes[k].score.Cmp(s.nodes[best].score) > 0 {
			best = k
		}
	}
	for i := vpInt("from", 0, 3); i < w; i += vpParam("step", 20) {
		k := s.leash[i]
		var f vpFork
		vpDecode(s.get("/fork/"+vpAddr(i).String(), ""), &f)
		l := s.lca(k, best)
		vpAssert(s.ids[f.HeadBlock] == k && f.HeadHeight == s.nodes[k].height && f.Score.Cmp(s.nodes[k].score) == 0, "the entry is about the block of the peer")
		vpAssert(f.PeersCount == on[k] && len(f.Peers) == on[k], "the entry counts its peers")
		vpAssert(s.ids[f.LastCommonBlock] == l && f.Length == s.nodes[k].height-s.nodes[l].height && f.Longest == (k == best), "the entry is measured against the longest")
		var gs []vpGen
		vpDecode(s.get("/fork/"+vpAddr(i).String()+"/generators/25", ""), &gs)
		want := map[string]int{}
		for j, c := k, 0; j >= 0 && c < 25; j, c = s.nodes[j].parent, c+1 {
			want[vpGenAddr(s.nodes[j].gen)]++
		}
		vpAssert(len(gs) == len(want), "every generator is listed once")
		for _, g := range gs {
			vpAssert(want[g.Generator] == g.Blocks, "the blocks of a generator are counted")
			want[g.Generator] = -1
		}
	}
	vpReach("fork")
}

// VP_crowd_lists requests heads and leashes.
func VP_crowd_lists() {
	w := vpParam("w", 140)
	s := vpNewCrowd(w)
	on := map[int]int{}
	for _, k := range s.leash {
		on[k]++
	}
	if vpBool("heads") {
		var hs []vpHead
		vpDecode(s.get("/heads", ""), &hs)
		want := map[int]uint64{}
		for i, k := range s.tips {
			if on[k] > 0 {
				want[k] = uint64(i + 2) // The trunk is number one.
			}
		}
		vpAssert(len(hs) == len(want), "exactly the active heads are listed")
		for _, h := range hs {
			k, ok := s.ids[h.ID]
			vpAssert(ok && want[k] == h.Number && h.Number > 0, "a head has its number")
			vpAssert(h.Height == s.nodes[k].height && h.Score.Cmp(s.nodes[k].score) == 0 && h.Timestamp.Equal(time.UnixMilli(int64(1000+k))), "a head has its height, score and time")
			want[k] = 0
		}
		vpReach("heads")
		return
	}
	var ls []vpLeash
	vpDecode(s.get("/leashes", ""), &ls)
	vpAssert(len(ls) == len(on), "every leashed block is listed once")
	who := map[string]bool{}
	for j, l := range ls {
		k, ok := s.ids[l.BlockID]
		vpAssert(ok, "only leashed blocks are listed")
		n := s.nodes[k]
		vpAssert(l.Height == n.height && l.Score.Cmp(n.score) == 0 && l.Timestamp.Equal(time.UnixMilli(int64(1000+k))) && l.Generator == vpGenAddr(n.gen), "a leash has the data of the block")
		vpAssert(l.PeersCount == on[k] && len(l.Peers) == on[k], "the peers of a leash are counted")
		for _, a := range l.Peers {
			i, ok := s.names[a]
			vpAssert(ok && s.leash[i] == k && !who[a], "every peer of a leash is listed once")
			who[a] = true
		}
		on[k] = -1
		if j > 0 {
			c := ls[j-1].Score.Cmp(l.Score)
			vpAssert(c > 0 || c == 0 && ls[j-1].PeersCount >= l.PeersCount, "leashes are ordered by score and number of peers")
		}
	}
	vpReach("leashes")
}

// VP_crowd_peers requests the lists of peers.
func VP_crowd_peers() {
	w := vpParam("w", 140)
	s := vpNewCrowd(w)
	what := vpInt("what", 0, 2)
	path := []string{"/peers/all", "/peers/friendly", "/connections"}[what]
	var ps []vpPeerInfo
	vpDecode(s.get(path, ""), &ps)
	want := map[int]bool{}
	for i, st := range s.state {
		if st == 1 || st == 2 && what < 2 || st == 3 && what == 0 {
			want[i] = true
		}
	}
	vpAssert(len(ps) == len(want), "nobody else is listed")
	for _, p := range ps {
		c := len(p.Address)
		for c > 0 && p.Address[c-1] != ':' {
			c--
		}
		vpAssert(c > 0, "a peer is listed with its address")
		i, ok := s.names[p.Address[:c-1]]
		vpAssert(ok && want[i], "a peer is listed once")
		want[i] = false
		vpAssert(p.Version == proto.NewVersion(1, 5, uint32(i)).String(), "a peer is listed with its version")
		if s.state[i] == 3 {
			vpAssert(p.State == 2, "a hostile peer is listed as such")
			continue
		}
		vpAssert(p.State == 1 && p.Nonce == uint64(i) && p.Name == "node "+strconv.Itoa(i*11%w), "a peer is listed with its state, nonce and name")
		vpAssert(p.Score != nil && p.Score.Cmp(big.NewInt(int64(77000+i))) == 0, "a peer is listed with its score")
	}
	for j := 1; j < len(ps); j++ {
		vpAssert(strings.ToUpper(ps[j-1].Name) <= strings.ToUpper(ps[j].Name), "peers are ordered by name")
	}
	vpReach("peers")
}
