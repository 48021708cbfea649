package main

import (
	"context"
	"net"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/loading"
)

// VP_M03 requests termination while messages are being handled.
func VP_M03() {
	s := vpNewSys(1)
	n := vpParam("n", 1)
	ctx, cancel := context.WithCancel(context.Background())
	vpNetDial(func(ctx context.Context, network, address string) (net.Conn, error) { return nil, errVP })
	cm := NewConnectionManager(vpScheme, "node", 1, proto.TCPAddr{}, s.reg, s.parent)
	respawn := NewRespawn(s.reg, cm)
	respawn.Run(ctx)
	s.d.Run(ctx)
	loader := loading.NewLoader(s.reg, s.link, s.d.IDsCh(), s.d.BlockCh())
	loader.Run(ctx)
	s.cancel = cancel
	s.connectOnly(0)
	vpExplore(vpParam("preempt", 1))
	for j := 0; j < n; j++ {
		switch vpInt("kind", 0, 3) {
		case 0:
			s.post(0, &proto.BlockMessage{BlockBytes: vpBlockBytes(vpBlock(1, 0))})
		case 1:
			s.post(0, &proto.BlockIdsMessage{Blocks: []proto.BlockID{vpID(1)}})
		case 2:
			s.post(0, &proto.SignaturesMessage{})
		case 3:
			s.post(0, &proto.ScoreMessage{Score: []byte{9}})
		}
	}
	cancel()
	respawn.Shutdown()
	loader.Shutdown()
	s.d.Shutdown()
	vpExplore(-1)
	vpNoErr(s.reg.Close(), "the registry closes")
	s.link.Close()
	vpReach("end")
}
