package main

import (
	"bytes"
	"context"
	"net"
	"net/netip"
	"time"

	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// VP_M08 connects with any settings and reads our handshakes.
func VP_M08() {
	n := vpParam("n", 2)
	k := vpInt("network", 0, 2)
	scheme := proto.Scheme("WTS"[k])
	app := []string{"wavesW", "wavesT", "wavesS"}[k]
	name := string(vpBytes("name", vpInt("length", 1, 3)))
	nonce := vpU32("nonce")
	declared := proto.TCPAddr{}
	if vpBool("declared") {
		ip := vpBytes("ip", 4)
		port := vpU16("port")
		vpAssume(vpOr(ip[0] != 0, ip[1] != 0, ip[2] != 0, ip[3] != 0))
		declared = proto.NewTCPAddr(net.IP(ip), int(port))
	}
	own := proto.TCPAddr(net.TCPAddr{IP: net.IPv4(52, 99, 99, 1), Port: 6868})
	vs := []proto.Version{proto.NewVersion(1, 5, 0), proto.NewVersion(1, 4, 2)}
	reg, err := peers.NewRegistry(scheme, own, vs, vpTempDir())
	vpNoErr(err, "the registry opens")
	parent := peer.NewParent(true)
	cm := NewConnectionManager(scheme, name, nonce, declared, reg, parent)
	d := NewDistributor(scheme, nil, reg, parent)
	ctx, cancel := context.WithCancel(context.Background())
	d.Run(ctx)
	var c *vpConn
	target := ""
	vpNetDial(func(ctx context.Context, network, address string) (net.Conn, error) {
		vpAssert(network == "tcp" && address == target, "the given address is dialled")
		return c, nil
	})
	// What the model knows of peers: versions offered or presented.
	known := map[netip.Addr]bool{}
	version := map[netip.Addr]proto.Version{}
	for j := 0; j < n; j++ {
		a := vpAddr(vpInt("peer", 5, 6))
		t := &vpTarget{ap: netip.AddrPortFrom(a, 6868)}
		want, ok := version[a]
		switch {
		case !ok || !known[a] && want == vs[1]:
			want = vs[0]
		case !known[a]:
			want = vs[1]
		}
		version[a] = want
		hs := vpHello(app, t, vs[vpInt("version", 0, 1)])
		completes := true
		if vpBool("incoming") {
			c = vpNewConn(netip.AddrPortFrom(a, uint16(40000+j)), vpHelloBytes(hs))
			go func() { _ = cm.Accept(ctx, c) }()
			vpReach("in")
		} else {
			c = vpNewConn(t.ap, vpHelloBytes(hs))
			if completes = vpBool("completes"); !completes {
				c = vpNewConn(t.ap, nil)
				c.hangUp()
			}
			target = t.ap.String()
			go func() { _ = cm.Connect(ctx, proto.TCPAddr(*net.TCPAddrFromAddrPort(t.ap))) }()
			vpReach("out")
		}
		vpWait()
		var h proto.Handshake
		r := bytes.NewReader(c.out)
		_, err = h.ReadFrom(r)
		vpNoErr(err, "a handshake is sent")
		vpAssert(r.Len() == 0, "nothing but a handshake is sent")
		vpAssert(h.AppName == app, "the handshake names the network")
		vpAssert(h.NodeName == name, "the handshake carries the name")
		vpAssert(h.NodeNonce == uint64(nonce), "the handshake carries the nonce")
		vpAssert(h.Version == want, "the handshake offers the suggested version")
		vpAssert(h.Timestamp == proto.NewTimestampFromTime(time.Now()), "the handshake carries the time")
		if declared.Empty() {
			vpAssert(h.DeclaredAddr.Empty(), "no address is declared")
		} else {
			vpAssert(vpSame(proto.TCPAddr(h.DeclaredAddr), vpIP4(declared), uint64(declared.Port)), "the declared address is declared")
			vpReach("declared")
		}
		if completes {
			known[a], version[a] = true, hs.Version
			p, err := reg.Peer(a)
			vpNoErr(err, "a connected peer is recorded")
			vpAssert(p.State == peers.PeerConnected && p.Version == hs.Version && p.Name == hs.NodeName && p.Nonce == hs.NodeNonce,
				"a peer is recorded as it presented itself")
		}
		c.hangUp()
		vpWait()
		vpAssert(c.closed > 0, "a lost connection is closed")
	}
	cancel()
	d.Shutdown()
	vpReach("end")
}

func vpIP4(a proto.TCPAddr) netip.Addr {
	r, _ := netip.AddrFromSlice(a.IP)
	return r.Unmap()
}
