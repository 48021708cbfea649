From 3dd3f1e12ef86bc8294cfb1cccffc02f943cc2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 01/33] fix: do not panic on a base target above MaxInt64

---
 chains/utils.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/chains/utils.go b/chains/utils.go
index 6d0104e..44164b7 100644
--- a/chains/utils.go
+++ b/chains/utils.go
@@ -1,7 +1,6 @@
 package chains
 
 import (
-	"math"
 	"math/big"
 )
 
@@ -12,10 +11,7 @@ func calculateScore(baseTarget uint64) *big.Int {
 	if baseTarget == 0 {
 		return res
 	}
-	if baseTarget > math.MaxInt64 {
-		panic("base target is too big")
-	}
-	bt := big.NewInt(int64(baseTarget))
+	bt := new(big.Int).SetUint64(baseTarget)
 	maxBlockScore, ok := big.NewInt(0).SetString("18446744073709551616", decimalBase)
 	if !ok {
 		return res
-- 
2.43.0


From 12fd009b407b8fc7a90228fc2aa83ca522cda1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 02/33] fix: lca goes out of range for chains parting close to
 the genesis block

---
 chains/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chains/storage.go b/chains/storage.go
index 50e3895..5a3063f 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -354,6 +354,9 @@ func (s *storage) lca(id1, id2 proto.BlockID) (proto.BlockID, error) {
 	// Finding the link closest to the genesis block which is not the common ancestor of farthest and other i.e.
 	// a link x such that x is not the common ancestor of farthest and other but x.Parents[0] is.
 	for i := len(farthest.Parents) - 1; i >= 0; i-- {
+		if i >= len(farthest.Parents) {
+			continue // After a jump the links may be too close to the genesis to have that many parents.
+		}
 		if farthest.Parents[i] != other.Parents[i] {
 			farthest, err = s.getLink(sn, farthest.Parents[i])
 			if err != nil {
-- 
2.43.0


From 2d252240923815d3f0c4b490c1dd6ac3fc986736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 03/33] fix: forks report panics if nobody is leashed

---
 chains/linkage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chains/linkage.go b/chains/linkage.go
index 102f90a..302ef3d 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -522,6 +522,9 @@ func (l *Linkage) forks(peers LookupPeers) ([]Fork, error) {
 		}
 		r = append(r, frk)
 	}
+	if len(r) == 0 {
+		return r, nil // None of the requested peers has a leash.
+	}
 	sort.Sort(byScoreAndPeersDesc(r))
 
 	longest := r[0]
-- 
2.43.0


From 01109fd8bbfd232a5281215fbe6f27b5ebec3d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 04/33] fix: leash of the highest IPv6 address is not listed

---
 chains/storage.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/chains/storage.go b/chains/storage.go
index 5a3063f..2b796ca 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -419,13 +419,7 @@ func (s *storage) leashes() ([]Leash, error) {
 	}
 	defer sn.Release()
 	r := make([]Leash, 0)
-	rng := &util.Range{
-		Start: addrKeyBytes(netip.AddrFrom4([...]byte{0x00, 0x00, 0x00, 0x00})),
-		Limit: addrKeyBytes(netip.AddrFrom16([...]byte{
-			0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
-		})),
-	}
-	it := sn.NewIterator(rng, nil)
+	it := sn.NewIterator(util.BytesPrefix([]byte{leashPrefix}), nil)
 	defer it.Release()
 	for it.First(); it.Valid(); it.Next() {
 		addr := addrKeyFromBytes(it.Key())
-- 
2.43.0


From 96bf922b78b375167badd73ce795529748492354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 05/33] fix: negative or huge count of ancestors or blocks
 panics

---
 chains/storage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chains/storage.go b/chains/storage.go
index 2b796ca..b6afaaa 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -244,7 +244,7 @@ func (s *storage) getAncestors(id proto.BlockID, count int) ([]proto.BlockID, er
 	if err != nil {
 		return nil, fmt.Errorf("failed to get ancestors: %w", err)
 	}
-	r := make([]proto.BlockID, 0, count)
+	r := make([]proto.BlockID, 0) // Not preallocated, because count is chosen by the caller and may be anything.
 	i := 0
 	for i < count {
 		l, glErr := s.getLink(sn, n)
@@ -276,7 +276,7 @@ func (s *storage) getBlocks(id proto.BlockID, count int) ([]Block, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to get blocks: %w", err)
 	}
-	r := make([]Block, 0, count)
+	r := make([]Block, 0) // Not preallocated, because count is chosen by the caller and may be anything.
 	i := 0
 	for i < count {
 		b, gbErr := s.getBlock(sn, n)
-- 
2.43.0


From 2dbe45c04830d3331b4706985d90f8986f7b45aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:56 +0000
Subject: [PATCH 06/33] fix: block with an enormous timestamp is recorded and
 crashes every later query

---
 chains/storage_entities.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chains/storage_entities.go b/chains/storage_entities.go
index f395ad2..a50037d 100644
--- a/chains/storage_entities.go
+++ b/chains/storage_entities.go
@@ -64,7 +64,13 @@ type block struct {
 	Generator []byte   `cbor:"5,keyasint"`
 }
 
+// maxTimestamp is the latest block timestamp that can be presented as JSON in any time zone, 30 December 9999.
+const maxTimestamp = 253_402_128_000_000
+
 func newBlock(scheme proto.Scheme, b *proto.Block, height uint32, parentScore *big.Int) (block, error) {
+	if b.Timestamp > maxTimestamp {
+		return block{}, fmt.Errorf("failed to create new block: timestamp %d is too large", b.Timestamp)
+	}
 	ga, err := proto.NewAddressFromPublicKey(scheme, b.GeneratorPublicKey)
 	if err != nil {
 		return block{}, fmt.Errorf("failed to create new block: %w", err)
-- 
2.43.0


From 3ad4db60febe3fcca41410b898cb380a70dfef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 07/33] fix: logging of initial statistics deadlocks with a
 concurrent writer

---
 chains/linkage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chains/linkage.go b/chains/linkage.go
index 302ef3d..58f5693 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -239,7 +239,7 @@ func (l *Linkage) LogInitialStats() {
 	}
 	zap.S().Infof("Heads count in storage: %d", len(heads))
 	for _, head := range heads {
-		b, blErr := l.Block(head.BlockID)
+		b, blErr := l.block(head.BlockID)
 		if blErr != nil {
 			zap.S().Errorf("Failed to get block: %v", blErr)
 			return
-- 
2.43.0


From 50a4a7c2c18b850687266a65422d62f92d7757f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:48 +0000
Subject: [PATCH 08/33] fix: hostile peer is registered as connected on its
 next connection

---
 peers/registry.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index e7f0b39..e5d244c 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -82,12 +82,12 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 			_ = np.Close()
 			return fmt.Errorf("failed to register peer: %w", err)
 		}
-		if p.State == PeerHostile {
-			_ = np.Close()
-			return fmt.Errorf("peer '%s' already registered as hostile", addr.String())
-		}
 		p = Peer{}
 	}
+	if p.State == PeerHostile {
+		_ = np.Close()
+		return fmt.Errorf("peer '%s' already registered as hostile", addr.String())
+	}
 
 	if np.Handshake().Version.CmpMinor(p.Version) >= 2 {
 		p.State = PeerHostile
-- 
2.43.0


From aa60e260920e35c58a9c07282420c14a3c22804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:52 +0000
Subject: [PATCH 09/33] fix: connection to itself or with an invalid declared
 address is left open

---
 peers/registry.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peers/registry.go b/peers/registry.go
index e5d244c..040e17c 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -72,6 +72,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		return fmt.Errorf("failed to register peer: not an IPv4 address: '%s'", addr.String())
 	}
 	if addr.Compare(r.declared) == 0 {
+		_ = np.Close()
 		return errors.New("failed to register peer: connection to itself")
 	}
 
@@ -138,6 +139,7 @@ func checkPort(addr netip.Addr, np peer.Peer, handshake proto.Handshake) (uint16
 	if !handshake.DeclaredAddr.Empty() {
 		ha, pErr := netip.ParseAddrPort(handshake.DeclaredAddr.String())
 		if pErr != nil {
+			_ = np.Close()
 			return 0, fmt.Errorf("failed to register peer: invalid declared address: %w", pErr)
 		}
 		port = ha.Port()
-- 
2.43.0


From 473b4a4c6612185be4725f109e63d7ca5f39f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 10/33] fix: peer with an empty application name crashes the
 detector

---
 peers/registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peers/registry.go b/peers/registry.go
index 040e17c..42bbc3e 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -97,7 +97,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		_ = np.Close()
 		return r.storage.putPeer(p)
 	}
-	if np.Handshake().AppName[len(np.Handshake().AppName)-1] != r.scheme {
+	if app := np.Handshake().AppName; len(app) == 0 || app[len(app)-1] != r.scheme {
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
 		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
-- 
2.43.0


From 06c596920ab025065d9a2cb94828ec0622879e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 11/33] fix: incompatible peer is not recorded as hostile if it
 is unknown or has a malformed name

---
 peers/registry.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/peers/registry.go b/peers/registry.go
index 42bbc3e..fe4aa79 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -7,8 +7,10 @@ import (
 	"net"
 	"net/netip"
 	"sort"
+	"strings"
 	"sync"
 	"time"
+	"unicode/utf8"
 
 	"github.com/syndtr/goleveldb/leveldb"
 	"go.uber.org/zap"
@@ -91,16 +93,20 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 	}
 
 	if np.Handshake().Version.CmpMinor(p.Version) >= 2 {
+		p.AddressPort = netip.AddrPortFrom(addr, p.AddressPort.Port()) // The peer could be absent in the storage.
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
 		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
+		p.Name = strings.ToValidUTF8(p.Name, string(utf8.RuneError)) // Storage refuses names that are not UTF-8.
 		_ = np.Close()
 		return r.storage.putPeer(p)
 	}
 	if app := np.Handshake().AppName; len(app) == 0 || app[len(app)-1] != r.scheme {
+		p.AddressPort = netip.AddrPortFrom(addr, p.AddressPort.Port()) // The peer could be absent in the storage.
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
 		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
+		p.Name = strings.ToValidUTF8(p.Name, string(utf8.RuneError)) // Storage refuses names that are not UTF-8.
 		_ = np.Close()
 		return r.storage.putPeer(p)
 	}
-- 
2.43.0


From 4ac9024d8d04df7a58636f161699322bc3e22b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 12/33] fix: peer that could not be stored stays in the list of
 connections

---
 peers/registry.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index fe4aa79..8016b4d 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -123,9 +123,12 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 	p.NextAttempt = time.Now().Round(time.Second)
 	p.p = np
 
+	if putErr := r.storage.putPeer(p); putErr != nil {
+		_ = np.Close()
+		return fmt.Errorf("failed to register peer: %w", putErr)
+	}
 	r.connections[addr] = np
-
-	return r.storage.putPeer(p)
+	return nil
 }
 
 func (r *Registry) UpdatePeerScore(addr netip.Addr, score *big.Int) error {
-- 
2.43.0


From aba86499b19b4cd15d3be232a75f88dfa24b99c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 13/33] fix: versions that differ in patch only stop the cycle
 of versions

---
 peers/registry.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peers/registry.go b/peers/registry.go
index 8016b4d..94de93d 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -6,6 +6,7 @@ import (
 	"math/big"
 	"net"
 	"net/netip"
+	"slices"
 	"sort"
 	"strings"
 	"sync"
@@ -381,7 +382,7 @@ func newVersions(vs []proto.Version) versions {
 	for i, v := range sorted {
 		sorted[i] = proto.NewVersion(v.Major(), v.Minor(), 0)
 	}
-	return versions(sorted)
+	return versions(slices.Compact(sorted)) // Versions that differ in patch only are the same for nextVersion.
 }
 
 func (vs versions) bestVersion() proto.Version {
-- 
2.43.0


From 9ee0b6d0700a8e4a740710988aa8358b6d48b523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 14/33] fix: record of an IPv4 peer is taken for the one of an
 IPv6 address

---
 peers/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peers/storage.go b/peers/storage.go
index b653beb..2e9cb2b 100644
--- a/peers/storage.go
+++ b/peers/storage.go
@@ -66,6 +66,9 @@ func (s *storage) close() error {
 }
 
 func (s *storage) peer(addr netip.Addr) (Peer, error) {
+	if !addr.Is4() {
+		return Peer{}, leveldb.ErrNotFound // Only IPv4 peers are stored, see putPeer.
+	}
 	sn, err := s.db.GetSnapshot()
 	if err != nil {
 		return Peer{}, err
-- 
2.43.0


From a241bc18a5e456087531bcfce2eb9c938ea59522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 15/33] fix: connected peer stays connected after it was
 recorded as hostile

---
 peers/registry.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/peers/registry.go b/peers/registry.go
index 94de93d..3c48998 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -100,6 +100,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
 		p.Name = strings.ToValidUTF8(p.Name, string(utf8.RuneError)) // Storage refuses names that are not UTF-8.
 		_ = np.Close()
+		r.disconnect(addr)
 		return r.storage.putPeer(p)
 	}
 	if app := np.Handshake().AppName; len(app) == 0 || app[len(app)-1] != r.scheme {
@@ -109,6 +110,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
 		p.Name = strings.ToValidUTF8(p.Name, string(utf8.RuneError)) // Storage refuses names that are not UTF-8.
 		_ = np.Close()
+		r.disconnect(addr)
 		return r.storage.putPeer(p)
 	}
 
@@ -132,6 +134,14 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 	return nil
 }
 
+// disconnect closes the active connection of the peer that turned out to be hostile, if there is one.
+func (r *Registry) disconnect(addr netip.Addr) {
+	if c, ok := r.connections[addr]; ok {
+		_ = c.Close()
+		delete(r.connections, addr)
+	}
+}
+
 func (r *Registry) UpdatePeerScore(addr netip.Addr, score *big.Int) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
@@ -200,6 +210,7 @@ func (r *Registry) MarkAsHostile(addr net.Addr) error {
 	}
 
 	delete(r.pending, a)
+	r.disconnect(a)
 
 	p, err := r.storage.peer(a)
 	if err != nil {
-- 
2.43.0


From aee1a5183bb375e0addfe8b691361d1f75bf5a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:20 +0000
Subject: [PATCH 16/33] fix: loader is stuck for ever if a received block
 cannot be stored on timeout

---
 loading/peer_loader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/loading/peer_loader.go b/loading/peer_loader.go
index febfa25..7391576 100644
--- a/loading/peer_loader.go
+++ b/loading/peer_loader.go
@@ -241,7 +241,9 @@ func (pl *peerLoader) handleFailure(_ context.Context, _ ...any) error {
 	for _, it := range pl.queue.q {
 		if it.received != nil && it.received.BlockID() == it.requested {
 			if err := pl.hp.PutBlock(it.received, pl.peer.ID()); err != nil {
-				return err
+				// The failure has to be reported anyway, otherwise nobody gets to know that loading is over.
+				zap.S().Warnf("[PL@%s] Failed to apply block '%s': %v", pl.peer.ID(), it.requested, err)
+				break
 			}
 		} else {
 			break // Stop on first not received block.
-- 
2.43.0


From 9670d90ad06a7986ae5234b46f9bc0056b5c5c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 17/33] fix: blocks of the previous batch are applied again if
 the next request fails

---
 loading/peer_loader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/loading/peer_loader.go b/loading/peer_loader.go
index 7391576..9b53ed9 100644
--- a/loading/peer_loader.go
+++ b/loading/peer_loader.go
@@ -150,6 +150,7 @@ func (pl *peerLoader) onTick(_ context.Context, args ...any) error {
 }
 
 func (pl *peerLoader) requestIDs(_ context.Context, _ ...any) error {
+	pl.queue = queue{} // Drop blocks of the previous batch, they are already applied.
 	leash, err := pl.hp.Leash(pl.peer.ID())
 	if err != nil {
 		return fmt.Errorf("failed to request IDs from '%s': %w", pl.peer.ID(), err)
@@ -164,6 +165,7 @@ func (pl *peerLoader) requestIDs(_ context.Context, _ ...any) error {
 }
 
 func (pl *peerLoader) requestIDsFromLCA(_ context.Context, _ ...any) error {
+	pl.queue = queue{} // Drop blocks of the previous batch, they are already applied.
 	lca, err := pl.hp.LCB(pl.peer.ID())
 	if err != nil {
 		return fmt.Errorf("failed to request IDs from '%s': %w", pl.peer.ID(), err)
-- 
2.43.0


From 04d83d9f1134e9ca0f928432557a4a5b72fba7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:26 +0000
Subject: [PATCH 18/33] fix: failed request of blocks is taken for success on
 any block from the peer

---
 loading/queue.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/loading/queue.go b/loading/queue.go
index 8394403..a8c8f46 100644
--- a/loading/queue.go
+++ b/loading/queue.go
@@ -36,6 +36,9 @@ func (q *queue) put(block *proto.Block) {
 }
 
 func (q *queue) ready() bool {
+	if len(q.q) == 0 {
+		return false // Nothing was requested, so there is nothing to wait for.
+	}
 	for _, it := range q.q {
 		if it.received == nil || (it.received != nil && it.received.BlockID() != it.requested) {
 			return false
-- 
2.43.0


From c7a034341c101c19ddf7091b46eb1228d04b0fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:29 +0000
Subject: [PATCH 19/33] fix: loader is stuck for ever if the score of the
 loading peer is not available

---
 loading/loader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/loading/loader.go b/loading/loader.go
index a78a79c..a4a9e69 100644
--- a/loading/loader.go
+++ b/loading/loader.go
@@ -131,11 +131,13 @@ func (l *Loader) OK() {
 		p, err := l.registry.Peer(l.pl.peer.ID())
 		if err != nil {
 			zap.S().Warnf("Failed to get connection: %v", err)
+			l.resetLoadingPeer() // Nobody will continue with this peer, let the next synchronization to start.
 			return
 		}
 		score, err := l.linkage.LeashScore(l.pl.peer.ID())
 		if err != nil {
 			zap.S().Warnf("Failed to get peers score: %v", err)
+			l.resetLoadingPeer()
 			return
 		}
 		if diff, lagging := l.isLagging(p.Score, score); lagging {
-- 
2.43.0


From fc7ce5c25aa9c5d4e12f1c0e3326fe2692f9decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:31 +0000
Subject: [PATCH 20/33] fix: loading stops if the difference of scores equals
 the one of the previous failed loading

---
 loading/loader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loading/loader.go b/loading/loader.go
index a4a9e69..319b685 100644
--- a/loading/loader.go
+++ b/loading/loader.go
@@ -155,7 +155,7 @@ func (l *Loader) Fail() {
 	if l.pl != nil && l.pl.sm.MustState() == stateDone {
 		zap.S().Debugf("[LDR] Peer '%s' failed to load history", l.pl.peer.ID())
 		l.fc.inc(l.pl.peer.ID())
-		l.pl = nil
+		l.resetLoadingPeer() // Forget the difference of scores too, the next loading may be of another peer.
 	}
 }
 
-- 
2.43.0


From 03a99af0d975e4365534454977cc22e22abfe3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 21/33] fix: all forks are reported as active if no peer is
 connected

---
 api/api.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/api/api.go b/api/api.go
index c6f42c5..6809123 100644
--- a/api/api.go
+++ b/api/api.go
@@ -308,10 +308,13 @@ func (a *API) activeForks(w http.ResponseWriter, r *http.Request) {
 		}
 		ps[conn.ID()] = struct{}{}
 	}
-	forks, err := a.linkage.Forks(ps)
-	if err != nil {
-		http.Error(w, fmt.Sprintf("Failed to complete request: %v", err), http.StatusInternalServerError)
-		return
+	forks := make([]chains.Fork, 0)
+	if len(ps) > 0 { // For the empty list of peers all forks would be returned.
+		forks, err = a.linkage.Forks(ps)
+		if err != nil {
+			http.Error(w, fmt.Sprintf("Failed to complete request: %v", err), http.StatusInternalServerError)
+			return
+		}
 	}
 	err = json.NewEncoder(w).Encode(forks)
 	if err != nil {
-- 
2.43.0


From f55e8f0157feb3564b170dd7f38824a6de31042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 22/33] fix: fork of a peer with a zone in its IPv6 address
 fails with an internal error

---
 api/api.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/api/api.go b/api/api.go
index 6809123..00e023a 100644
--- a/api/api.go
+++ b/api/api.go
@@ -326,7 +326,7 @@ func (a *API) activeForks(w http.ResponseWriter, r *http.Request) {
 // fork returns the info about fork of the given peer.
 func (a *API) fork(w http.ResponseWriter, r *http.Request) {
 	addr := chi.URLParam(r, "address")
-	peer, err := netip.ParseAddr(addr)
+	peer, err := parsePeer(addr)
 	if err != nil {
 		http.Error(w, fmt.Sprintf("Invalid peer address '%s'", addr), http.StatusBadRequest)
 		return
@@ -355,7 +355,7 @@ func (a *API) fork(w http.ResponseWriter, r *http.Request) {
 // forkGenerators returns the list of generators of the fork of the given peer.
 func (a *API) forkGenerators(w http.ResponseWriter, r *http.Request) {
 	addr := chi.URLParam(r, "address")
-	peer, err := netip.ParseAddr(addr)
+	peer, err := parsePeer(addr)
 	if err != nil {
 		http.Error(w, fmt.Sprintf("Invalid peer address '%s'", addr), http.StatusBadRequest)
 		return
@@ -409,7 +409,7 @@ func getPeers(r *http.Request) (map[netip.Addr]struct{}, error) {
 	for _, s := range ss {
 		s = strings.TrimSpace(s)
 		if len(s) > 0 {
-			p, err := netip.ParseAddr(s)
+			p, err := parsePeer(s)
 			if err != nil {
 				return nil, fmt.Errorf("invalid peer %q: %w", s, err)
 			}
@@ -418,3 +418,12 @@ func getPeers(r *http.Request) (map[netip.Addr]struct{}, error) {
 	}
 	return m, nil
 }
+
+// parsePeer parses the address of a peer. Zones of IPv6 addresses are dropped, leashes are stored without them.
+func parsePeer(s string) (netip.Addr, error) {
+	addr, err := netip.ParseAddr(s)
+	if err != nil {
+		return netip.Addr{}, err
+	}
+	return addr.WithZone(""), nil
+}
-- 
2.43.0


From 353c62d464ec2598397be57f4f53527406ffe856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 23/33] fix: storage failure while listing peers is taken for
 the end of the list

---
 peers/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peers/storage.go b/peers/storage.go
index 2e9cb2b..52ed52d 100644
--- a/peers/storage.go
+++ b/peers/storage.go
@@ -155,6 +155,9 @@ func (s *storage) peers() ([]Peer, error) {
 		}
 		r = append(r, p)
 	}
+	if itErr := it.Error(); itErr != nil {
+		return nil, fmt.Errorf("failed to collect peers: %w", itErr)
+	}
 	return r, nil
 }
 
-- 
2.43.0


From 9eae3a9d40a45123864dd792c61ca74515933b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 24/33] fix: storage failure while listing leashes or heads is
 taken for the end of the list

---
 chains/storage.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chains/storage.go b/chains/storage.go
index b6afaaa..243f606 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -429,6 +429,9 @@ func (s *storage) leashes() ([]Leash, error) {
 		}
 		r = append(r, Leash{Addr: addr, BlockID: id})
 	}
+	if itErr := it.Error(); itErr != nil {
+		return nil, fmt.Errorf("failed to get leashes: %w", itErr)
+	}
 	return r, nil
 }
 
@@ -675,5 +678,8 @@ func (s *storage) getHeads(sn *leveldb.Snapshot) ([]uint64, []uint64, error) {
 		headNums = append(headNums, num)
 		blockNums = append(blockNums, binary.BigEndian.Uint64(it.Value()))
 	}
+	if itErr := it.Error(); itErr != nil {
+		return nil, nil, itErr
+	}
 	return headNums, blockNums, nil
 }
-- 
2.43.0


From 9f7f38b55552d26c5485f3c2dd46f04ef75b2b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 25/33] fix: storage failure is reported as an unknown empty
 block by LeashScore

---
 chains/linkage.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chains/linkage.go b/chains/linkage.go
index 58f5693..67246c2 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -166,9 +166,10 @@ func (l *Linkage) LeashScore(addr netip.Addr) (*proto.Score, error) {
 
 	id, err := l.st.leash(addr)
 	if err != nil {
-		if errors.Is(err, leveldb.ErrNotFound) {
-			id = l.genesis
+		if !errors.Is(err, leveldb.ErrNotFound) {
+			return nil, fmt.Errorf("failed to get leash of '%s': %w", addr.String(), err)
 		}
+		id = l.genesis
 	}
 	bl, err := l.st.block(id)
 	if err != nil {
-- 
2.43.0


From 5c13b91c1fab65fd35f8dcce4b405df149c7169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 26/33] fix: distributor never shuts down if a message is being
 passed to the loader that is already down

---
 distributor.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/distributor.go b/distributor.go
index 2807b88..7588098 100644
--- a/distributor.go
+++ b/distributor.go
@@ -210,7 +210,10 @@ func (d *Distributor) handleBlock(block *proto.Block, addr proto.TCPAddr) error
 		return fmt.Errorf("failed to append block: %w", err)
 	}
 	zap.S().Debugf("[DTR] Block '%s' from '%s' was appended", block.BlockID().String(), ap.Addr().String())
-	d.blockCh <- loading.BlockPackage{Peer: ap.Addr(), Block: block}
+	select {
+	case d.blockCh <- loading.BlockPackage{Peer: ap.Addr(), Block: block}:
+	case <-d.ctx.Done(): // Nobody reads blocks on shutdown.
+	}
 	return nil
 }
 
@@ -263,7 +266,7 @@ func (d *Distributor) handleSignaturesMessage(peer peer.Peer, signatures []crypt
 		ids[i] = proto.NewBlockIDFromSignature(s)
 	}
 	zap.S().Debugf("[DTR] Signatures received from '%s'", ap.Addr().String())
-	d.idsCh <- loading.IDsPackage{Peer: ap.Addr(), IDs: ids}
+	d.sendIDs(loading.IDsPackage{Peer: ap.Addr(), IDs: ids})
 }
 
 func (d *Distributor) handleBlockIDsMessage(peer peer.Peer, ids []proto.BlockID) {
@@ -278,7 +281,14 @@ func (d *Distributor) handleBlockIDsMessage(peer peer.Peer, ids []proto.BlockID)
 	}
 	zap.S().Debugf("[DTR] Block IDs [%s..%s] received from %s",
 		ids[0].ShortString(), ids[len(ids)-1].ShortString(), ap.Addr().String())
-	d.idsCh <- loading.IDsPackage{Peer: ap.Addr(), IDs: ids}
+	d.sendIDs(loading.IDsPackage{Peer: ap.Addr(), IDs: ids})
+}
+
+func (d *Distributor) sendIDs(pkg loading.IDsPackage) {
+	select {
+	case d.idsCh <- pkg:
+	case <-d.ctx.Done(): // Nobody reads IDs on shutdown.
+	}
 }
 
 func (d *Distributor) handleMicroBlockInvMessage(peer peer.Peer, msg *proto.MicroBlockInvMessage) {
-- 
2.43.0


From 3cfc2418033b9fbb2e293916d35f865bb5ae7ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 27/33] fix: dialling stops forever after a failure to read
 addresses from the storage

---
 respawn.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/respawn.go b/respawn.go
index 0a9aaef..256de36 100644
--- a/respawn.go
+++ b/respawn.go
@@ -65,7 +65,6 @@ func (r *Respawn) handleEvents() error {
 
 			if err != nil {
 				zap.S().Warnf("Failed to take available addresses: %v", err)
-				continue
 			}
 			r.establishConnections(addresses)
 			r.timer.Reset(respawnInterval)
-- 
2.43.0


From a71a163b0df7857f9b1262287e39828fda04925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 28/33] fix: address stays connected or pending forever if the
 storage fails on its unregistering

---
 peers/registry.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index 3c48998..d8cab1a 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -183,6 +183,10 @@ func (r *Registry) UnregisterPeer(addr netip.Addr) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
+	// The connection is gone whatever happens to the storage.
+	delete(r.pending, addr)
+	delete(r.connections, addr)
+
 	p, err := r.storage.peer(addr)
 	if err != nil {
 		if errors.Is(err, leveldb.ErrNotFound) {
@@ -191,9 +195,6 @@ func (r *Registry) UnregisterPeer(addr netip.Addr) error {
 		return fmt.Errorf("failed to unregister peer '%s': %w", addr.String(), err)
 	}
 
-	delete(r.pending, addr)
-	delete(r.connections, addr)
-
 	p.NextAttempt = time.Now().Add(delay).Round(time.Second)
 	p.p = nil
 
-- 
2.43.0


From c53c2c7dab92d7bf1fe45a92fca0e9c0f0ec160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 29/33] fix: refused incoming connection is never closed

---
 connection_manager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection_manager.go b/connection_manager.go
index fdca406..ff2ee19 100644
--- a/connection_manager.go
+++ b/connection_manager.go
@@ -72,10 +72,12 @@ func (h *ConnectionManager) Accept(ctx context.Context, conn net.Conn) error {
 
 	ap, err := netip.ParseAddrPort(conn.RemoteAddr().String())
 	if err != nil {
+		_ = conn.Close()
 		return fmt.Errorf("failed to handle incoming connection: %w", err)
 	}
 	ver, err := h.vp.SuggestVersion(ap.Addr())
 	if err != nil {
+		_ = conn.Close()
 		return err
 	}
 	params := incoming.PeerParams{
-- 
2.43.0


From 50d2391ddc17028b4c0899080553328e242c843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 30/33] fix: shutdown crashes or races with the start of the
 network server

---
 listener.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/listener.go b/listener.go
index 377ff37..fc8256d 100644
--- a/listener.go
+++ b/listener.go
@@ -18,7 +18,6 @@ type Listener struct {
 	declared proto.TCPAddr
 
 	cm *ConnectionManager
-	nl net.Listener
 }
 
 func NewListener(bind, declared proto.TCPAddr, cm *ConnectionManager) Service {
@@ -49,10 +48,6 @@ func (l *Listener) Run(ctx context.Context) {
 }
 
 func (l *Listener) Shutdown() {
-	if err := l.nl.Close(); err != nil {
-		zap.S().Errorf("Failed to close listener on %s: %v", l.bind, err)
-		return
-	}
 	if err := l.wait(); err != nil {
 		zap.S().Warnf("Failed to shutdown Listener: %v", err)
 	}
@@ -66,14 +61,15 @@ func (l *Listener) run() error {
 	if err != nil {
 		return err
 	}
-	l.nl = nl
+	defer func() { _ = nl.Close() }()
+	context.AfterFunc(l.ctx, func() { _ = nl.Close() }) // Interrupts Accept on termination.
 
 	for {
 		select {
 		case <-l.ctx.Done():
 			return nil
 		default:
-			conn, acErr := l.nl.Accept()
+			conn, acErr := nl.Accept()
 			if acErr != nil {
 				zap.S().Errorf("Failed to accept connection: %v", acErr)
 				continue
-- 
2.43.0


From 7d7c1bfacb8586e8c216b24d8f25a19485332b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 31/33] fix: IPv6 network address crashes the start and an
 invalid declared address is ignored

---
 parameters.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/parameters.go b/parameters.go
index 0bb480c..ae2764f 100644
--- a/parameters.go
+++ b/parameters.go
@@ -79,6 +79,14 @@ func newParameters() (*parameters, error) {
 	if err != nil {
 		return nil, fmt.Errorf("invalid parameters: %w", err)
 	}
+	nb, err := parseAddress(na)
+	if err != nil {
+		return nil, fmt.Errorf("invalid parameters: invalid network address: %w", err)
+	}
+	da, err := parseAddress(*flagDeclaredAddress)
+	if err != nil {
+		return nil, fmt.Errorf("invalid parameters: invalid declared address: %w", err)
+	}
 	nm, err := checkName(*flagName)
 	if err != nil {
 		return nil, fmt.Errorf("invalid parameters: %w", err)
@@ -90,8 +98,8 @@ func newParameters() (*parameters, error) {
 		genesis:         bs.Genesis,
 		seedPeers:       sps,
 		apiBind:         aa,
-		netBind:         parseAddress(na),
-		declaredAddress: parseAddress(*flagDeclaredAddress),
+		netBind:         nb,
+		declaredAddress: da,
 		name:            nm,
 		nonce:           rand2.Uint32(), //nolint:gosec // No need for crypto random here.
 		versions:        vss,
@@ -210,12 +218,17 @@ func checkName(str string) (string, error) {
 	return str, nil
 }
 
-func parseAddress(addr string) proto.TCPAddr {
+func parseAddress(addr string) (proto.TCPAddr, error) {
+	if addr == "" {
+		return proto.TCPAddr{}, nil
+	}
 	ap, err := netip.ParseAddrPort(addr)
 	if err != nil {
-		return proto.TCPAddr{}
+		return proto.TCPAddr{}, err
+	}
+	ip := ap.Addr().Unmap()
+	if !ip.Is4() {
+		return proto.TCPAddr{}, fmt.Errorf("not an IPv4 address: '%s'", addr)
 	}
-	ip4 := ap.Addr().As4()
-	ip := net.IPv4(ip4[0], ip4[1], ip4[2], ip4[3])
-	return proto.NewTCPAddr(ip, int(ap.Port()))
+	return proto.NewTCPAddr(net.IP(ip.AsSlice()), int(ap.Port())), nil
 }
-- 
2.43.0


From 00b87122fac6275036e27dcaf99970d1674e495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:57 +0000
Subject: [PATCH 32/33] fix: second connection of a peer displaces the first
 one, and its failure unregisters the other

---
 distributor.go    |  2 +-
 peers/registry.go | 11 ++++++++++-
 respawn.go        |  2 +-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/distributor.go b/distributor.go
index 7588098..29097dd 100644
--- a/distributor.go
+++ b/distributor.go
@@ -135,7 +135,7 @@ func (d *Distributor) handleInternalError(peer peer.Peer, ie *peer.InternalErr)
 	if clErr := peer.Close(); clErr != nil {
 		zap.S().Warnf("Failed to close peer '%s' connection: %v", ap.Addr().String(), clErr)
 	}
-	if urErr := d.registry.UnregisterPeer(ap.Addr()); urErr != nil {
+	if urErr := d.registry.UnregisterPeer(ap.Addr(), peer); urErr != nil {
 		zap.S().Warnf("Failed to unregister peer '%s': %v", ap.Addr().String(), urErr)
 	}
 }
diff --git a/peers/registry.go b/peers/registry.go
index d8cab1a..1e1feef 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -118,6 +118,10 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 	if err != nil {
 		return err
 	}
+	if c, ok := r.connections[addr]; ok && c != np {
+		_ = np.Close()
+		return fmt.Errorf("failed to register peer: '%s' is already connected", addr.String())
+	}
 	p.AddressPort = netip.AddrPortFrom(addr, port)
 	p.Nonce = handshake.NodeNonce
 	p.Name = handshake.NodeName
@@ -179,12 +183,17 @@ func checkPort(addr netip.Addr, np peer.Peer, handshake proto.Handshake) (uint16
 	return port, nil
 }
 
-func (r *Registry) UnregisterPeer(addr netip.Addr) error {
+// UnregisterPeer handles the failure of the connection np to the peer, np is nil if it was not even established.
+// The failure doesn't affect another active connection to the same peer.
+func (r *Registry) UnregisterPeer(addr netip.Addr, np peer.Peer) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
 	// The connection is gone whatever happens to the storage.
 	delete(r.pending, addr)
+	if c, ok := r.connections[addr]; ok && c != np {
+		return nil
+	}
 	delete(r.connections, addr)
 
 	p, err := r.storage.peer(addr)
diff --git a/respawn.go b/respawn.go
index 256de36..d12dd0d 100644
--- a/respawn.go
+++ b/respawn.go
@@ -78,7 +78,7 @@ func (r *Respawn) establishConnections(addresses []netip.AddrPort) {
 			addr := proto.NewTCPAddrFromString(ap.String())
 			if cErr := r.cm.Connect(r.ctx, addr); cErr != nil {
 				zap.S().Debugf("[RSP] Failed to establish outbound connection: %v", cErr)
-				if urErr := r.reg.UnregisterPeer(ap.Addr()); urErr != nil {
+				if urErr := r.reg.UnregisterPeer(ap.Addr(), nil); urErr != nil {
 					zap.S().Warnf("Failed to unregister peer on connection failure: %v", urErr)
 					return
 				}
-- 
2.43.0


From 4320b7cd7dc503048631d3d60ae4195259e64667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:30 +0000
Subject: [PATCH 33/33] fix: block store stays open and locked if its
 initialisation fails

---
 chains/linkage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chains/linkage.go b/chains/linkage.go
index 67246c2..e05dc80 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -52,6 +52,7 @@ func NewLinkage(path string, scheme proto.Scheme, genesis proto.Block) (*Linkage
 		return nil, fmt.Errorf("failed to initialize Linkage: %w", err)
 	}
 	if iniErr := st.initialize(genesis); iniErr != nil {
+		_ = st.close() // Nobody else can close it.
 		return nil, fmt.Errorf("failed to initialize Linkage: %w", iniErr)
 	}
 	return &Linkage{
-- 
2.43.0

