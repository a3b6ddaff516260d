From 94eb7f1118515d973f9ff457dd6c18d3bff618e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:21 +0000
Subject: [PATCH 01/47] fix: encode index, offset and length of request and
 cancel messages in their own fields

All three values were written over the first four payload bytes, so every
request on the wire asked for piece <blockLength>, offset 0, length 0.
---
 pkg/util/peer_message.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index 4cdf1de..4ef2a24 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -186,9 +186,9 @@ func createHaveMessage(index uint32) *PeerMessage {
 
 func createCancelMessage(index, offset, blockLength uint32) *PeerMessage {
 	payload := make([]byte, 12)
-	binary.BigEndian.PutUint32(payload, index)
-	binary.BigEndian.PutUint32(payload, offset)
-	binary.BigEndian.PutUint32(payload, blockLength)
+	binary.BigEndian.PutUint32(payload[:4], index)
+	binary.BigEndian.PutUint32(payload[4:8], offset)
+	binary.BigEndian.PutUint32(payload[8:12], blockLength)
 
 	msg := &PeerMessage{
 		len:         13,
@@ -204,9 +204,9 @@ func createCancelMessage(index, offset, blockLength uint32) *PeerMessage {
 
 func CreatePieceMessage(index, offset, blockLength uint32) *PeerMessage {
 	payload := make([]byte, 12)
-	binary.BigEndian.PutUint32(payload, index)
-	binary.BigEndian.PutUint32(payload, offset)
-	binary.BigEndian.PutUint32(payload, blockLength)
+	binary.BigEndian.PutUint32(payload[:4], index)
+	binary.BigEndian.PutUint32(payload[4:8], offset)
+	binary.BigEndian.PutUint32(payload[8:12], blockLength)
 
 	msg := PeerMessage{
 		len:         13,
-- 
2.43.0


From a181b7a455e622f4f68d48b1c0cff3bb719d6a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:01 +0000
Subject: [PATCH 02/47] fix: do not panic on truncated peer messages

A have, request, cancel or piece message with a payload shorter than its
fixed fields crashed the process with a slice bounds panic.
---
 pkg/util/peer_message.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index 4ef2a24..400404d 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -24,6 +24,10 @@ const (
 	// KeepaliveMessageType has only length without type.
 	// This is fake type which is never actually used.
 	KeepaliveMessageType MessageType = 99
+
+	// MalformedMessageType marks received messages whose payload is too
+	// short for the type they claim to be. It is never sent.
+	MalformedMessageType MessageType = 100
 )
 
 type PeerMessage struct {
@@ -61,6 +65,10 @@ func NewPeerMessage(data []byte) *PeerMessage {
 		payload: data[1:],
 	}
 	data = msg.payload
+	if len(data) < minPayloadLen(msg.Type) {
+		msg.Type = MalformedMessageType
+		return msg
+	}
 
 	// set additional message data for these message types
 	switch msg.Type {
@@ -80,6 +88,20 @@ func NewPeerMessage(data []byte) *PeerMessage {
 	return msg
 }
 
+// minPayloadLen returns how many payload bytes message of given type has to have.
+func minPayloadLen(t MessageType) int {
+	switch t {
+	case HaveMessageType:
+		return 4
+	case RequestMessageType, CancelMessageType:
+		return 12
+	case PieceMessageType:
+		return 8
+	default:
+		return 0
+	}
+}
+
 func (m PeerMessage) Send(w io.Writer) (int, error) {
 	// TODO: cache buffer object in a pool
 	buf := &bytes.Buffer{}
-- 
2.43.0


From 55cd7ddf35813e363a38115ed1a222b025234466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:02 +0000
Subject: [PATCH 03/47] fix: reject pieces with an index outside of the torrent

A peer sending a piece message with a too large index crashed the process.
---
 pkg/torrent/torrent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 6d13ff5..f149d1b 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -166,6 +166,10 @@ func (t *Torrent) initDownloadDir(root string) error {
 }
 
 func (t *Torrent) CheckPiece(data []byte, index int) bool {
+	if index < 0 || index >= len(t.Pieces) {
+		return false
+	}
+
 	hasher := sha1.New()
 	hasher.Write(data)
 	hash := hasher.Sum(nil)
-- 
2.43.0


From d3ca3aae1b34d92f52d60e02d7b8a562b9f2bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:27 +0000
Subject: [PATCH 04/47] fix: ignore have messages with an index outside of the
 torrent

Bitset is extended to hold any index, so one 9 byte message could make the
client allocate 512 MB.
---
 pkg/peer/peer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index fa27faf..2f244ca 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -335,7 +335,10 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 		p.Bitset = message.Bitfield()
 	case util.HaveMessageType:
 		p.logger.Debug("Peer sent have message", zap.Int("peerId", p.Id))
-		p.Bitset.Set(uint(message.Index()))
+		// bitset grows to hold the index, do not let the peer choose our memory usage
+		if idx := uint(message.Index()); idx < p.Bitset.Len() {
+			p.Bitset.Set(idx)
+		}
 	case util.InterestedMessageType:
 		p.logger.Debug("Peer sent interested message", zap.Int("peerId", p.Id))
 		p.PeerStatus.Interested = true
-- 
2.43.0


From dcc75044f426328609971212f7b503f7c3a8f3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:29 +0000
Subject: [PATCH 05/47] fix: do not write checked piece data at an offset
 chosen by the peer

CheckPiece accepts only data of the whole piece but the offset from the
message was still used when writing, so a peer could place valid data over
other pieces.
---
 pkg/peer/peer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 2f244ca..4d3ee67 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -394,7 +394,8 @@ func (p *Peer) SendInterested() error {
 }
 
 func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
-	if !p.pieceChecker.CheckPiece(message.Data(), int(message.Index())) {
+	// hash check covers whole piece, so checked data starts at the beginning of it
+	if message.Offset() != 0 || !p.pieceChecker.CheckPiece(message.Data(), int(message.Index())) {
 		p.logger.Warn("Discarding corrupted piece. Sha1 check failed.",
 			zap.Uint32("index", message.Index()))
 		return
-- 
2.43.0


From 7f241c95ced3e861bd81dd6fe6dd32450606cd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:30 +0000
Subject: [PATCH 06/47] fix: limit the size of messages read from a peer

Length prefix sent by the peer was allocated up front, up to 4 GB.
---
 pkg/gotitnet/connection.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index 2c31b3c..6127883 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -16,6 +16,9 @@ const (
 	DialTimeout    = time.Second * 2
 )
 
+// maxPeerMessageSize is the biggest peer message we are willing to read.
+const maxPeerMessageSize = 1 << 20
+
 type TimeoutConn struct {
 	// Underlying TCP/UDP connection.
 	c net.Conn
@@ -47,6 +50,9 @@ func (c *TimeoutConn) ReadPeerMessage() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if size > maxPeerMessageSize {
+		return nil, fmt.Errorf("peer message size %d too big", size)
+	}
 
 	return c.readExactly(size)
 }
-- 
2.43.0


From 86ca791327769ffab1bc72f6a6128848e8d6efc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:32 +0000
Subject: [PATCH 07/47] fix: remember that interested message was sent

ClientStatus.Interested was never set, so no piece was ever requested.
---
 pkg/peer/peer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 4d3ee67..520aaf3 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -389,8 +389,12 @@ func (p *Peer) SendUnchoke() error {
 }
 
 func (p *Peer) SendInterested() error {
-	_, err := p.sendMessage(util.CreateInterestedMessage())
-	return err
+	if _, err := p.sendMessage(util.CreateInterestedMessage()); err != nil {
+		return err
+	}
+
+	p.ClientStatus.Interested = true
+	return nil
 }
 
 func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
-- 
2.43.0


From 489d06f0e4d86e7386eb6b221ef9e2b12bd7178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:33 +0000
Subject: [PATCH 08/47] fix: take the first piece of every peer from the pieces
 source

New peers started with requesting piece 0, no matter if the peer has it or
if it was already requested from another peer.
---
 pkg/peer/peer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 520aaf3..706ee62 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -282,7 +282,8 @@ func (p *Peer) Run(ctx context.Context) {
 }
 
 func (p *Peer) nextRequestMessage() *util.PeerMessage {
-	if p.blockIdx >= p.blockNum {
+	// blockIdx is 0 only until the first piece is taken from the source
+	if p.blockIdx == 0 || p.blockIdx >= p.blockNum {
 		// when finished with piece download check if we have failed
 		// piece requests
 		if req := p.piecesQueue.FailedPieceMessage(); req != nil {
-- 
2.43.0


From 2711f253c97c0c1d630e0c41c4d82a1b2569d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:50 +0000
Subject: [PATCH 09/47] fix: request next piece when the requested one is
 received

Peer kept waiting after its first answered request. On read timeout that
request was queued as failed again although it was already stored, and a
request answered with corrupted data was never retried otherwise.
---
 pkg/peer/peer.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 706ee62..9e3270e 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -277,7 +277,15 @@ func (p *Peer) Run(ctx context.Context) {
 		}
 		b.Reset()
 
-		p.handlePeerMessage(util.NewPeerMessage(response))
+		message := util.NewPeerMessage(response)
+		stored := p.handlePeerMessage(message)
+		if sentPieceMsg && message.Type == util.PieceMessageType &&
+			message.Index() == requestMsg.Index() && message.Offset() == requestMsg.Offset() {
+			if !stored {
+				p.piecesQueue.RequestFailed(requestMsg)
+			}
+			sentPieceMsg = false
+		}
 	}
 }
 
@@ -323,11 +331,13 @@ func (p *Peer) updateLastMsgSent() {
 	p.lastMsgSent = time.Now()
 }
 
-func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
+// handlePeerMessage updates the state with received message. It returns true if
+// message was a piece which is passed on for writing.
+func (p *Peer) handlePeerMessage(message *util.PeerMessage) bool {
 	// if keepalive wait 2 minutes and try again
 	if message.Type == util.KeepaliveMessageType {
 		p.logger.Debug("Peer sent keepalive")
-		return
+		return false
 	}
 
 	switch message.Type {
@@ -358,7 +368,7 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 		p.logger.Debug("Peer sent request message", zap.Int("peerId", p.Id))
 	case util.PieceMessageType:
 		p.logger.Debug("Peer sent piece message", zap.Int("peerId", p.Id))
-		p.handlePieceMessage(message)
+		return p.handlePieceMessage(message)
 	case util.CancelMessageType:
 		p.logger.Debug("Peer sent cancel message")
 	default:
@@ -366,6 +376,8 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 			zap.Int("peerId", p.Id),
 			zap.Int("msgCode", int(message.Type)))
 	}
+
+	return false
 }
 
 func (p *Peer) sendMessage(msg *util.PeerMessage) (int, error) {
@@ -398,16 +410,17 @@ func (p *Peer) SendInterested() error {
 	return nil
 }
 
-func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
+func (p *Peer) handlePieceMessage(message *util.PeerMessage) bool {
 	// hash check covers whole piece, so checked data starts at the beginning of it
 	if message.Offset() != 0 || !p.pieceChecker.CheckPiece(message.Data(), int(message.Index())) {
 		p.logger.Warn("Discarding corrupted piece. Sha1 check failed.",
 			zap.Uint32("index", message.Index()))
-		return
+		return false
 	}
 
 	p.writeCh <- message
 	p.Bitset.Set(uint(message.Index()))
+	return true
 }
 
 func createHandshake(hash []byte) []byte {
-- 
2.43.0


From 574dbb89a04250b7c5e63c3f411dc91471d97de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:52 +0000
Subject: [PATCH 10/47] fix: do not lose requests of peers that stop

Requests in flight and not yet requested blocks of a claimed piece were
forgotten when the peer stopped, and failed requests could be retried only
by peers from the same announce response.
---
 pkg/download/manager.go | 12 +++++++-----
 pkg/peer/peer.go        | 19 +++++++++++++++++++
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 2bf5576..d568329 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -31,16 +31,19 @@ type Manager struct {
 	poolMu   sync.Mutex
 	peerPool map[string]*peer.Peer
 
+	piecesQueue *torrent.PiecesQueue
+
 	cancelCtx context.CancelFunc
 	wg        *sync.WaitGroup
 }
 
-func NewMng(torrent *torrent.Torrent, logger *zap.Logger, peerNum, listenPort int) *Manager {
-	s := stats.NewStats(uint64(torrent.Length))
+func NewMng(t *torrent.Torrent, logger *zap.Logger, peerNum, listenPort int) *Manager {
+	s := stats.NewStats(uint64(t.Length))
 	pp := stats.NewProgressPrinter(s)
 	return &Manager{
 		logger:          logger,
-		torrent:         torrent,
+		torrent:         t,
+		piecesQueue:     torrent.NewPiecesQueue(),
 		peerPool:        make(map[string]*peer.Peer, 100),
 		peerNum:         peerNum,
 		listenPort:      listenPort,
@@ -107,9 +110,8 @@ func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util
 }
 
 func (m *Manager) initPeers(ctx context.Context, ips []netip.AddrPort, pieceCh chan *util.PeerMessage) {
-	pq := torrent.NewPiecesQueue()
 	for _, ip := range ips {
-		p := peer.NewPeer(ip, m.torrent, pq, pieceCh, m.logger)
+		p := peer.NewPeer(ip, m.torrent, m.piecesQueue, pieceCh, m.logger)
 		if m.AddPeer(p) {
 			m.startPeerDownload(ctx, p)
 		}
diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 9e3270e..8ece07b 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -213,6 +213,14 @@ func (p *Peer) Run(ctx context.Context) {
 	var requestMsg *util.PeerMessage
 	sentPieceMsg := false
 
+	// let other peers download what this one did not
+	defer func() {
+		if sentPieceMsg {
+			p.piecesQueue.RequestFailed(requestMsg)
+		}
+		p.releaseBlocks()
+	}()
+
 	for {
 		// check if canceled
 		if err := ctx.Err(); err != nil {
@@ -311,6 +319,17 @@ func (p *Peer) nextRequestMessage() *util.PeerMessage {
 	return p.createPieceMessage()
 }
 
+// releaseBlocks queues all blocks of the current piece that were not requested yet.
+func (p *Peer) releaseBlocks() {
+	if p.blockIdx == 0 {
+		return
+	}
+
+	for p.blockIdx < p.blockNum {
+		p.piecesQueue.RequestFailed(p.createPieceMessage())
+	}
+}
+
 func (p *Peer) Close() error {
 	return p.conn.Close()
 }
-- 
2.43.0


From 704054d9d135a3ddd76466f7eb85051578784e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:18 +0000
Subject: [PATCH 11/47] fix: do not read peer messages from the middle of a cut
 off one

After a timeout in the middle of a message the rest of it was read as the
length prefix of the next message.
---
 pkg/gotitnet/connection.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index 6127883..338245e 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -25,6 +25,9 @@ type TimeoutConn struct {
 	// Timeout used when reading or writing on
 	// this connection.
 	timeout time.Duration
+	// Set when reading of peer message failed after some of its bytes
+	// were already consumed. Message boundaries are lost from there on.
+	broken error
 }
 
 func NewTimeoutConn(network, address string, timeout time.Duration) (*TimeoutConn, error) {
@@ -43,6 +46,9 @@ func NewTimeoutConn(network, address string, timeout time.Duration) (*TimeoutCon
 // ReadPeerMessage reads whole peer message from socket.
 // Read deadline is set to timeoutConn.timeout
 func (c *TimeoutConn) ReadPeerMessage() ([]byte, error) {
+	if c.broken != nil {
+		return nil, c.broken
+	}
 	if err := c.setReadDeadline(); err != nil {
 		return nil, err
 	}
@@ -51,10 +57,16 @@ func (c *TimeoutConn) ReadPeerMessage() ([]byte, error) {
 		return nil, err
 	}
 	if size > maxPeerMessageSize {
-		return nil, fmt.Errorf("peer message size %d too big", size)
+		c.broken = fmt.Errorf("peer message size %d too big", size)
+		return nil, c.broken
 	}
 
-	return c.readExactly(size)
+	body, err := c.readExactly(size)
+	if err != nil {
+		c.broken = fmt.Errorf("peer message cut off: %w", err)
+		return nil, c.broken
+	}
+	return body, nil
 }
 
 // readPeerMessageSize returns next peer message size by reading first 4
@@ -115,7 +127,10 @@ func (c *TimeoutConn) Close() error {
 
 func (c *TimeoutConn) readExactly(len int) ([]byte, error) {
 	buf := make([]byte, len)
-	if _, err := io.ReadFull(c.c, buf); err != nil {
+	if n, err := io.ReadFull(c.c, buf); err != nil {
+		if n > 0 {
+			c.broken = err
+		}
 		return nil, err
 	}
 	return buf, nil
-- 
2.43.0


From 553473efa723f8959e04c54394948c1b83f452a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:51 +0000
Subject: [PATCH 12/47] fix: close peer connection when handshake fails

Every failed handshake leaked its connection, and closing a peer that could
not be reached crashed with nil pointer dereference on shutdown.
---
 pkg/peer/peer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 8ece07b..8ff3cca 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -137,15 +137,18 @@ func (p *Peer) Announce(torrent *torrent.Torrent) error {
 	}
 
 	if _, err := p.send(createHandshake(torrent.Hash)); err != nil {
+		p.disconnect()
 		return fmt.Errorf("peer handshake: %w", err)
 	}
 
 	response, err := p.conn.ReadPeerHandshake()
 	if err != nil {
+		p.disconnect()
 		return err
 	}
 
 	if valid := isHandshakeValid(response, torrent.Hash, ClientId); !valid {
+		p.disconnect()
 		return errors.New("peer handshake invalid")
 	}
 
@@ -330,7 +333,16 @@ func (p *Peer) releaseBlocks() {
 	}
 }
 
+// disconnect drops connection on which handshake failed.
+func (p *Peer) disconnect() {
+	_ = p.conn.Close()
+	p.conn = nil
+}
+
 func (p *Peer) Close() error {
+	if p.conn == nil {
+		return nil
+	}
 	return p.conn.Close()
 }
 
-- 
2.43.0


From 168983439f2cce641b1d74675ebddc2ddb8b1bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:53 +0000
Subject: [PATCH 13/47] fix: stop the peer when its connection is lost

Peer kept sending and reading on closed connection until the end of the
download.
---
 pkg/gotitnet/connection.go |  5 +++--
 pkg/peer/peer.go           | 14 ++++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index 338245e..6039ce6 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -63,7 +63,7 @@ func (c *TimeoutConn) ReadPeerMessage() ([]byte, error) {
 
 	body, err := c.readExactly(size)
 	if err != nil {
-		c.broken = fmt.Errorf("peer message cut off: %w", err)
+		c.broken = fmt.Errorf("peer message cut off: %v", err)
 		return nil, c.broken
 	}
 	return body, nil
@@ -129,7 +129,8 @@ func (c *TimeoutConn) readExactly(len int) ([]byte, error) {
 	buf := make([]byte, len)
 	if n, err := io.ReadFull(c.c, buf); err != nil {
 		if n > 0 {
-			c.broken = err
+			c.broken = fmt.Errorf("read cut off: %v", err)
+			return nil, c.broken
 		}
 		return nil, err
 	}
diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 8ff3cca..37a6716 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"math/rand"
+	"net"
 	"net/netip"
 	"time"
 
@@ -185,6 +186,9 @@ func (p *Peer) unchoke(ctx context.Context) error {
 
 		message, err := p.conn.ReadPeerMessage()
 		if err != nil {
+			if !isTimeout(err) {
+				return err
+			}
 			d := b.Duration()
 			p.logger.Warn("peer: error reading peer message. retrying",
 				zap.Duration("backoff", d),
@@ -202,6 +206,12 @@ func (p *Peer) unchoke(ctx context.Context) error {
 	}
 }
 
+// isTimeout tells if connection can still be used after the error.
+func isTimeout(err error) bool {
+	var netErr net.Error
+	return errors.As(err, &netErr) && netErr.Timeout()
+}
+
 func wait(ctx context.Context, sleepDuration time.Duration) error {
 	select {
 	case <-ctx.Done():
@@ -280,6 +290,10 @@ func (p *Peer) Run(ctx context.Context) {
 				p.piecesQueue.RequestFailed(requestMsg)
 				sentPieceMsg = false
 			}
+			if !isTimeout(err) {
+				p.logger.Debug("peer: connection lost", zap.Error(err))
+				return
+			}
 			d := b.Duration()
 			if err := wait(ctx, d); err != nil {
 				return
-- 
2.43.0


From c9c1b47c3c20d73d031c713b130c79545e9d6cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:38 +0000
Subject: [PATCH 14/47] fix: close pieces channel only after all peers stopped

Channel was closed as soon as the context was canceled, so peers still
handling a piece panicked with send on closed channel, and pieces waiting in
the channel were lost because nothing waited for the writer.
---
 pkg/download/manager.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index d568329..ef0372b 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -62,11 +62,18 @@ func (m *Manager) Download(ctx context.Context) error {
 	m.initStatisticsPrinting(ctx)
 	m.getIps(ctx, pieceCh)
 
-	go m.torrent.WritePiece(pieceCh, m.torrentStatus)
+	written := make(chan struct{})
+	go func() {
+		m.torrent.WritePiece(pieceCh, m.torrentStatus)
+		close(written)
+	}()
 
-	m.waitPeers()
 	<-ctx.Done()
+	// trackers start peers and peers send pieces, wait for all of them
+	// before closing the channel
+	m.waitPeers()
 	close(pieceCh)
+	<-written
 	return nil // TODO: propagate errors
 }
 
@@ -76,7 +83,11 @@ func (m *Manager) getIps(ctx context.Context, pieceCh chan *util.PeerMessage) {
 	m.logger.Info("trackers", zap.Any("urls", m.torrent.Trackers))
 
 	for url := range m.torrent.Trackers {
-		go m.runTracker(ctx, url, pieceCh)
+		m.wg.Add(1)
+		go func() {
+			defer m.wg.Done()
+			m.runTracker(ctx, url, pieceCh)
+		}()
 	}
 }
 
-- 
2.43.0


From 6196ac24fe0fc75118322e2fead2b20a469bfb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:39 +0000
Subject: [PATCH 15/47] fix: guard all uses of the peer pool with its mutex

Stop read the pool before locking and closed connections while peers were
still connecting, and a tracker response arriving after Stop crashed with
assignment to nil map.
---
 pkg/download/manager.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index ef0372b..4fb84f6 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -55,7 +55,10 @@ func NewMng(t *torrent.Torrent, logger *zap.Logger, peerNum, listenPort int) *Ma
 }
 
 func (m *Manager) Download(ctx context.Context) error {
-	ctx, m.cancelCtx = context.WithCancel(ctx)
+	ctx, cancel := context.WithCancel(ctx)
+	m.poolMu.Lock()
+	m.cancelCtx = cancel
+	m.poolMu.Unlock()
 
 	pieceCh := make(chan *util.PeerMessage, 1024)
 
@@ -205,14 +208,22 @@ func (m *Manager) initStatisticsPrinting(ctx context.Context) {
 }
 
 func (m *Manager) Stop() {
-	if m.peerPool == nil {
-		return
+	m.poolMu.Lock()
+	cancel := m.cancelCtx
+	m.poolMu.Unlock()
+	if cancel != nil {
+		cancel()
 	}
-	m.cancelCtx()
+	// peers use their connections until they are finished
+	m.waitPeers()
 
 	m.poolMu.Lock()
 	defer m.poolMu.Unlock()
 
+	if m.peerPool == nil {
+		return
+	}
+
 	for _, p := range m.peerPool {
 		if err := p.Close(); err != nil {
 			m.logger.Error("closing peer", zap.Error(err))
@@ -230,7 +241,8 @@ func (m *Manager) AddPeer(peer *peer.Peer) bool {
 	m.poolMu.Lock()
 	defer m.poolMu.Unlock()
 
-	if m.peerPool[peer.AddrPort.String()] != nil {
+	// nil after Stop
+	if m.peerPool == nil || m.peerPool[peer.AddrPort.String()] != nil {
 		return false
 	}
 
-- 
2.43.0


From fbfb97354c83332c24b67c4c6402008ecd8832b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:07 +0000
Subject: [PATCH 16/47] fix: remove finished peers from the pool

Peers that failed or stopped stayed in the pool forever, so they were never
contacted again and were still counted as connected.
---
 pkg/download/manager.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 4fb84f6..3935597 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -183,13 +183,17 @@ func (m *Manager) startPeerDownload(ctx context.Context, peer *peer.Peer) {
 		m.logger.Error("error announcing to peer",
 			zap.Stringer("ip", peer.AddrPort),
 			zap.Error(err))
-		m.torrentStatus.RemovePeer()
+		m.removePeer(peer)
 		return
 	}
 
 	m.wg.Add(1)
 	go func() {
 		peer.Run(ctx)
+		if err := peer.Close(); err != nil {
+			m.logger.Error("closing peer", zap.Error(err))
+		}
+		m.removePeer(peer)
 		m.wg.Done()
 	}()
 }
@@ -251,6 +255,15 @@ func (m *Manager) AddPeer(peer *peer.Peer) bool {
 	return true
 }
 
+// removePeer makes room for another peer when this one is finished.
+func (m *Manager) removePeer(peer *peer.Peer) {
+	m.poolMu.Lock()
+	defer m.poolMu.Unlock()
+
+	delete(m.peerPool, peer.AddrPort.String())
+	m.torrentStatus.RemovePeer()
+}
+
 func (m *Manager) UpdateStatus(downloaded, uploaded uint64) {
 	m.torrentStatus.AddDownload(downloaded)
 	m.torrentStatus.AddUpload(uploaded)
-- 
2.43.0


From 93b11814b23989cf3d54a5b59c36946329cbc06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 17/47] fix: respect the maximum number of peers

Value of the num-peer flag was not used.
---
 pkg/download/manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 3935597..47dcb8a 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -249,6 +249,9 @@ func (m *Manager) AddPeer(peer *peer.Peer) bool {
 	if m.peerPool == nil || m.peerPool[peer.AddrPort.String()] != nil {
 		return false
 	}
+	if len(m.peerPool) >= m.peerNum {
+		return false
+	}
 
 	m.peerPool[peer.AddrPort.String()] = peer
 	m.torrentStatus.AddPeer()
-- 
2.43.0


From 83bbe2e7d7d8635dfe6ab9961f5193fcfff98d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:50 +0000
Subject: [PATCH 18/47] fix: keep waiting between announces when tracker sends
 no usable interval

Response without interval, or with one that overflows, made the client
announce in a busy loop.
---
 pkg/tracker/http_tracker.go | 4 +++-
 pkg/tracker/tracker.go      | 3 +++
 pkg/tracker/udp_tracker.go  | 4 +++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 0715fcb..c184f1f 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -119,7 +119,9 @@ func (t *httpTracker) readPeers(res []byte) ([]netip.AddrPort, error) {
 	if announceResponse.Failure != "" {
 		return nil, fmt.Errorf("tracker failure: %s", announceResponse.Failure)
 	}
-	t.interval = time.Duration(announceResponse.Interval) * time.Second
+	if announceResponse.Interval > 0 {
+		t.interval = time.Duration(min(announceResponse.Interval, maxInterval)) * time.Second
+	}
 
 	if announceResponse.Peers != nil {
 		p := t.parseBencodePeers(announceResponse.Peers)
diff --git a/pkg/tracker/tracker.go b/pkg/tracker/tracker.go
index 993fa45..1e39b54 100644
--- a/pkg/tracker/tracker.go
+++ b/pkg/tracker/tracker.go
@@ -12,6 +12,9 @@ import (
 	"github.com/anivanovic/gotit"
 )
 
+// maxInterval is the longest time between two announces in seconds.
+const maxInterval = 24 * 60 * 60
+
 type waitInterval struct {
 	interval time.Duration
 }
diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index ed84ae7..9f0b174 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -169,7 +169,9 @@ func (t *udpTracker) readAnnounce(response []byte, transactionId uint32) ([]neti
 		return nil, err
 	}
 
-	t.interval = time.Duration(binary.BigEndian.Uint32(response[8:12])) * time.Second
+	if interval := binary.BigEndian.Uint32(response[8:12]); interval > 0 {
+		t.interval = time.Duration(min(interval, maxInterval)) * time.Second
+	}
 	leechers := binary.BigEndian.Uint32(response[12:16])
 	seeders := binary.BigEndian.Uint32(response[16:20])
 
-- 
2.43.0


From cfed6386c0c0c6f4618789ea4da85dfd0ed85372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:52 +0000
Subject: [PATCH 19/47] fix: use action code 3 for udp tracker errors

BEP15 assigns 2 to scrape, so error messages of trackers were reported as
unrecognized responses.
---
 pkg/tracker/udp_tracker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index 9f0b174..47ba79c 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -23,6 +23,7 @@ const protocolId uint64 = 0x41727101980
 const (
 	connect = iota
 	announce
+	scrape
 	conError
 )
 
-- 
2.43.0


From b165af8d0e85c5e4468bf485e63a016a0cebcab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:53 +0000
Subject: [PATCH 20/47] fix: send info hash and 16 bit port in udp announce

binary.Write does not support strings, so the hash was left out and the rest
of the request moved by 20 bytes.
---
 pkg/tracker/udp_tracker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index 47ba79c..68a1826 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -137,7 +137,7 @@ func createAnnounce(connId uint64, transactionId uint32, torrentHash string, dat
 	binary.Write(request, binary.BigEndian, connId)
 	binary.Write(request, binary.BigEndian, uint32(announce))
 	binary.Write(request, binary.BigEndian, transactionId)
-	binary.Write(request, binary.BigEndian, torrentHash)
+	binary.Write(request, binary.BigEndian, []byte(torrentHash))
 	binary.Write(request, binary.BigEndian, peer.ClientId)
 	binary.Write(request, binary.BigEndian, data.Downloaded)
 	binary.Write(request, binary.BigEndian, data.Left)
@@ -146,7 +146,7 @@ func createAnnounce(connId uint64, transactionId uint32, torrentHash string, dat
 	binary.Write(request, binary.BigEndian, uint32(0))
 	binary.Write(request, binary.BigEndian, rand.Int31())
 	binary.Write(request, binary.BigEndian, int32(-1))
-	binary.Write(request, binary.BigEndian, int32(data.Port))
+	binary.Write(request, binary.BigEndian, uint16(data.Port))
 	return request.Bytes()
 }
 
-- 
2.43.0


From 5b36e59ad62fcea66c532ed9aa331f9e9b3e2a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:55 +0000
Subject: [PATCH 21/47] fix: do not panic on truncated udp tracker responses

---
 pkg/tracker/udp_tracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index 68a1826..e3835f0 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -115,6 +115,9 @@ func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
 }
 
 func (t *udpTracker) parseTrackerResponse(response []byte, transactionId uint32) error {
+	if len(response) < 8 {
+		return errors.New("udp tracker response size less then 8")
+	}
 	actionCode := int(binary.BigEndian.Uint32(response[:4]))
 	var err error
 
-- 
2.43.0


From f7d39b7194f81defd705e97880c6229a4d0c7222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:57 +0000
Subject: [PATCH 22/47] fix: read udp tracker responses as datagrams

Udp socket never returns EOF, so reading all data always ended with timeout
and every announce failed. Errors shorter then 16 bytes failed the same way.
---
 pkg/gotitnet/connection.go | 16 ++++++++++++++++
 pkg/tracker/udp_tracker.go |  8 +++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index 6039ce6..d94f222 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -19,6 +19,8 @@ const (
 // maxPeerMessageSize is the biggest peer message we are willing to read.
 const maxPeerMessageSize = 1 << 20
 
+const maxDatagramSize = 1 << 16
+
 type TimeoutConn struct {
 	// Underlying TCP/UDP connection.
 	c net.Conn
@@ -112,6 +114,20 @@ func (c *TimeoutConn) ReadAll() ([]byte, error) {
 	return io.ReadAll(c.c)
 }
 
+// ReadDatagram reads single datagram from udp socket.
+// Read deadline is set to timeoutConn.timeout
+func (c *TimeoutConn) ReadDatagram() ([]byte, error) {
+	if err := c.setReadDeadline(); err != nil {
+		return nil, err
+	}
+	buf := make([]byte, maxDatagramSize)
+	n, err := c.c.Read(buf)
+	if err != nil {
+		return nil, err
+	}
+	return buf[:n], nil
+}
+
 // ReadUdpHandshake reads udp tracker handshake from socket.
 // Read deadline is set to timeoutConn.timeout
 func (c *TimeoutConn) ReadUdpHandshake() ([]byte, error) {
diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index e3835f0..eb17033 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -79,9 +79,11 @@ func (t *udpTracker) Announce(ctx context.Context, torrentHash string, data *got
 	transactionId := createTransactionId()
 	// TODO propagate download stats
 	request := createAnnounce(connId, transactionId, torrentHash, data)
-	t.conn.Write(request)
+	if _, err := t.conn.Write(request); err != nil {
+		return nil, err
+	}
 	t.log.Info("Announce sent to tracker", zap.String("ip", t.Url()))
-	response, err := t.conn.ReadAll()
+	response, err := t.conn.ReadDatagram()
 	if err != nil {
 		return nil, err
 	}
@@ -103,7 +105,7 @@ func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
 	}
 	t.log.Info("Sent handshake to tracker")
 
-	response, err := t.conn.ReadUdpHandshake()
+	response, err := t.conn.ReadDatagram()
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From c8e7f85d96fde459e3e875434f889fb75c829034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:33 +0000
Subject: [PATCH 23/47] fix: accept only the udp tracker response that was
 asked for

Connect response to an announce returned the peers of the previous announce,
and announce response to a connect was followed by an announce with old
connection id. Peers were also returned together with an error.
---
 pkg/tracker/udp_tracker.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index eb17033..8988ad3 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -88,8 +88,10 @@ func (t *udpTracker) Announce(ctx context.Context, torrentHash string, data *got
 		return nil, err
 	}
 
-	err = t.parseTrackerResponse(response, transactionId)
-	return t.ips, err
+	if err := t.parseTrackerResponse(response, announce, transactionId); err != nil {
+		return nil, err
+	}
+	return t.ips, nil
 }
 
 func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
@@ -109,18 +111,21 @@ func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	if err := t.parseTrackerResponse(response, transactionId); err != nil {
+	if err := t.parseTrackerResponse(response, connect, transactionId); err != nil {
 		return 0, err
 	}
 
 	return t.connectionId, nil
 }
 
-func (t *udpTracker) parseTrackerResponse(response []byte, transactionId uint32) error {
+func (t *udpTracker) parseTrackerResponse(response []byte, expected int, transactionId uint32) error {
 	if len(response) < 8 {
 		return errors.New("udp tracker response size less then 8")
 	}
 	actionCode := int(binary.BigEndian.Uint32(response[:4]))
+	if actionCode != expected && actionCode != conError {
+		return fmt.Errorf("unexpected udp tracker response action code: %d", actionCode)
+	}
 	var err error
 
 	switch actionCode {
-- 
2.43.0


From ab19fbc97f047f7d6974a4c625d9358f8a004559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:34 +0000
Subject: [PATCH 24/47] fix: read compact peers from http trackers

Compact response is the one we ask for, but it could not be decoded because
the same value was also expected to be a list.
---
 gotit.go                    | 15 ++++++++++-----
 pkg/tracker/http_tracker.go | 22 ++++++++++++++++++++--
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/gotit.go b/gotit.go
index 1e60291..18d3696 100644
--- a/gotit.go
+++ b/gotit.go
@@ -22,11 +22,16 @@ type (
 	}
 
 	AnnounceResponse struct {
-		Failure      string         `ben:"failure reason,optional"`
-		Interval     int            `ben:"interval,optional"`
-		Peers        []AnnouncePeer `ben:"peers,optional"`
-		PeersCompact []byte         `ben:"peers,optional"`
-		PeersIpv6    []byte         `ben:"peers6,optional"`
+		Failure      string `ben:"failure reason,optional"`
+		Interval     int    `ben:"interval,optional"`
+		PeersCompact []byte `ben:"peers,optional"`
+		PeersIpv6    []byte `ben:"peers6,optional"`
+	}
+
+	// AnnouncePeers is the part of announce response in which tracker sends
+	// peers as list of dictionaries.
+	AnnouncePeers struct {
+		Peers []AnnouncePeer `ben:"peers"`
 	}
 
 	AnnouncePeer struct {
diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index c184f1f..6f0e912 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -123,8 +123,12 @@ func (t *httpTracker) readPeers(res []byte) ([]netip.AddrPort, error) {
 		t.interval = time.Duration(min(announceResponse.Interval, maxInterval)) * time.Second
 	}
 
-	if announceResponse.Peers != nil {
-		p := t.parseBencodePeers(announceResponse.Peers)
+	if hasPeersList(res) {
+		var list gotit.AnnouncePeers
+		if err := bencode.Unmarshal(res, &list); err != nil {
+			return nil, err
+		}
+		p := t.parseBencodePeers(list.Peers)
 		return p, nil
 	}
 	if announceResponse.PeersCompact != nil {
@@ -138,6 +142,20 @@ func (t *httpTracker) readPeers(res []byte) ([]netip.AddrPort, error) {
 	return nil, errors.New("successful tracker response without ")
 }
 
+// hasPeersList tells if tracker ignored the request for compact response.
+func hasPeersList(res []byte) bool {
+	ben, err := bencode.Parse(res)
+	if err != nil {
+		return false
+	}
+	dict, ok := ben.(*bencode.DictElement)
+	if !ok {
+		return false
+	}
+	_, ok = dict.Value("peers").(*bencode.ListElement)
+	return ok
+}
+
 func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.AddrPort {
 	ips := make([]netip.AddrPort, len(peers))
 	for i, p := range peers {
-- 
2.43.0


From ec278fbe9baf4a22eaaf0fc7ff296499fe2f0d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:36 +0000
Subject: [PATCH 25/47] fix: skip invalid peers sent by http tracker

Entries that could not be parsed were returned as zero addresses.
---
 pkg/tracker/http_tracker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 6f0e912..5effa90 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -157,8 +157,8 @@ func hasPeersList(res []byte) bool {
 }
 
 func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.AddrPort {
-	ips := make([]netip.AddrPort, len(peers))
-	for i, p := range peers {
+	ips := make([]netip.AddrPort, 0, len(peers))
+	for _, p := range peers {
 		t.logger.Debug("got ip", zap.String("ip", p.Ip))
 		ip, err := netip.ParseAddr(p.Ip)
 		if err != nil {
@@ -186,7 +186,7 @@ func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.Addr
 			t.logger.Warn("invalid ip address", zap.String("ip", p.Ip))
 			continue
 		}
-		ips[i] = ipAddr
+		ips = append(ips, ipAddr)
 	}
 
 	return ips
-- 
2.43.0


From 90354e1ff87d492f720506e05f6fd9aab76c95e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:38 +0000
Subject: [PATCH 26/47] fix: announce to http trackers that have a query in
 their url

Info hash became part of the last parameter of the url.
---
 pkg/tracker/http_tracker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 5effa90..233576a 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -10,6 +10,7 @@ import (
 	"net/netip"
 	"net/url"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/anivanovic/gotit"
@@ -62,7 +63,11 @@ func (t *httpTracker) Close() error { return nil }
 
 func (t *httpTracker) Announce(ctx context.Context, torrentHash string, data *gotit.AnnounceData) ([]netip.AddrPort, error) {
 	q := t.buildQuery(torrentHash, data)
-	r, err := http.NewRequestWithContext(ctx, http.MethodGet, fmt.Sprintf("%s?%s", t.addr, q.Encode()), nil)
+	sep := "?"
+	if strings.Contains(t.addr, "?") {
+		sep = "&"
+	}
+	r, err := http.NewRequestWithContext(ctx, http.MethodGet, fmt.Sprintf("%s%s%s", t.addr, sep, q.Encode()), nil)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ef2161726d325c262da13596a3be7dec785ee843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:39 +0000
Subject: [PATCH 27/47] fix: close tracker connections and count active
 trackers

---
 pkg/download/manager.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 47dcb8a..ee05075 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -99,6 +99,13 @@ func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util
 	if err != nil {
 		return err
 	}
+	m.torrentStatus.AddTracker()
+	defer func() {
+		m.torrentStatus.RemoveTracker()
+		if err := tracker.Close(); err != nil {
+			m.logger.Error("closing tracker", zap.Error(err))
+		}
+	}()
 
 	for {
 		m.logger.Info("Sending announce to tracker", zap.String("url", url))
-- 
2.43.0


From f14e0c373469dd6886eab5ae9403a74691f76973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:21 +0000
Subject: [PATCH 28/47] fix: limit the size of http tracker responses

---
 pkg/tracker/http_tracker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 233576a..65eb467 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -30,6 +30,9 @@ const (
 	completedEvent tEvent = "completed"
 )
 
+// maxResponseSize is the biggest announce response we are willing to read.
+const maxResponseSize = 4 << 20
+
 type httpTracker struct {
 	c         *http.Client
 	addr      string
@@ -84,7 +87,7 @@ func (t *httpTracker) Announce(ctx context.Context, torrentHash string, data *go
 		}
 	}()
 
-	body, err := io.ReadAll(res.Body)
+	body, err := io.ReadAll(io.LimitReader(res.Body, maxResponseSize))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d3b5466651feb9f05d0c031418d9ee523275ca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:23 +0000
Subject: [PATCH 29/47] fix: do not wait forever for http trackers that do not
 respond

---
 pkg/tracker/tracker.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/tracker/tracker.go b/pkg/tracker/tracker.go
index 1e39b54..fe513e7 100644
--- a/pkg/tracker/tracker.go
+++ b/pkg/tracker/tracker.go
@@ -12,6 +12,8 @@ import (
 	"github.com/anivanovic/gotit"
 )
 
+const httpTimeout = 30 * time.Second
+
 // maxInterval is the longest time between two announces in seconds.
 const maxInterval = 24 * 60 * 60
 
@@ -38,7 +40,7 @@ func New(addr string, logger *zap.Logger) (gotit.Tracker, error) {
 	case "udp":
 		return newUdpTracker(parsedAddr, logger)
 	case "http", "https":
-		return newHttpTracker(addr, http.DefaultClient, logger), nil
+		return newHttpTracker(addr, &http.Client{Timeout: httpTimeout}, logger), nil
 	default:
 		return nil, fmt.Errorf("unsupported tracker protocol %s", parsedAddr.Scheme)
 	}
-- 
2.43.0


From 117236cb123252f767c47dfbbfc8e8920433fc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:25 +0000
Subject: [PATCH 30/47] fix: return error when unmarshaled bencode is not a
 dictionary

Any torrent file or tracker response with another element crashed the
process.
---
 pkg/bencode/tag_parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/bencode/tag_parser.go b/pkg/bencode/tag_parser.go
index 412f82b..7b6a6c3 100644
--- a/pkg/bencode/tag_parser.go
+++ b/pkg/bencode/tag_parser.go
@@ -15,6 +15,7 @@ import (
 
 var (
 	ErrWrongTarget = errors.New("bencode: pointer to struct expected as target")
+	ErrNotDict     = errors.New("bencode: dictionary expected")
 )
 
 type TypeError struct {
@@ -71,7 +72,7 @@ func processTarget(target interface{}, bencode Bencode) error {
 
 		dict, ok := bencode.(*DictElement)
 		if !ok {
-			panic("bencode internal: bencode element not *DictElement")
+			return ErrNotDict
 		}
 		value := dict.Value(tagName)
 		if value == nil && !optional {
-- 
2.43.0


From 20826a56f5acde1e5699fc869a3c1b93ae2b24fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:27 +0000
Subject: [PATCH 31/47] fix: reject too big numbers and missing digits in
 bencode

Overflowed string length moved the parser backwards, which ended in a panic
or in an endless loop. Values close to the maximum were decoded wrong.
---
 pkg/bencode/parse.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/bencode/parse.go b/pkg/bencode/parse.go
index f6a6ec3..31f45e2 100644
--- a/pkg/bencode/parse.go
+++ b/pkg/bencode/parse.go
@@ -2,6 +2,7 @@ package bencode
 
 import (
 	"errors"
+	"math"
 	"unsafe"
 )
 
@@ -9,6 +10,7 @@ var (
 	ErrElementEnd   = errors.New("element not ended with 'e'")
 	ErrColonMissing = errors.New("missing ':' in string element")
 	ErrStringLength = errors.New("string length invalid")
+	ErrNumber       = errors.New("number missing or too big")
 )
 
 func Parse(data []byte) (Bencode, error) {
@@ -90,14 +92,20 @@ func (s scanner) isDigit() bool {
 }
 
 func (s *scanner) number() (int, error) {
+	if !s.isDigit() {
+		return 0, ErrNumber
+	}
+
 	n := 0
 	for s.isDigit() {
 		d := int(s.peek() - '0')
-		n += d
+		if n > (math.MaxInt-d)/10 {
+			return 0, ErrNumber
+		}
 		n *= 10
+		n += d
 		s.advance()
 	}
-	n /= 10
 
 	s.position()
 	return n, nil
@@ -127,11 +135,11 @@ func (s *scanner) readString() (string, error) {
 	if !s.match(':') {
 		return "", ErrColonMissing
 	}
-	s.current += length
 	// we need to check if we are trying to read beyond string length.
-	if s.current > len(s.bencode) {
+	if length > len(s.bencode)-s.current {
 		return "", ErrStringLength
 	}
+	s.current += length
 
 	strElement := b2s(s.read())
 	s.position()
-- 
2.43.0


From 400b4bdd302eebc6a5f191587e4fd55b2668e5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:29 +0000
Subject: [PATCH 32/47] fix: parse negative integers

They are valid bencode and Encode writes them.
---
 pkg/bencode/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/bencode/parse.go b/pkg/bencode/parse.go
index 31f45e2..bc9e859 100644
--- a/pkg/bencode/parse.go
+++ b/pkg/bencode/parse.go
@@ -115,10 +115,14 @@ func (s *scanner) readInt() (IntElement, error) {
 	s.advance()
 	s.position()
 
+	negative := s.match('-')
 	n, err := s.number()
 	if err != nil {
 		return 0, err
 	}
+	if negative {
+		n = -n
+	}
 
 	if !s.match('e') {
 		return 0, ErrElementEnd
-- 
2.43.0


From b12a41141f315fb2d376f423ba28af51a468391d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:31 +0000
Subject: [PATCH 33/47] fix: limit nesting of parsed bencode

Few megabytes of nested lists overflowed the stack, which can not be
recovered from.
---
 pkg/bencode/parse.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/bencode/parse.go b/pkg/bencode/parse.go
index bc9e859..0eb4d1b 100644
--- a/pkg/bencode/parse.go
+++ b/pkg/bencode/parse.go
@@ -10,6 +10,7 @@ var (
 	ErrElementEnd   = errors.New("element not ended with 'e'")
 	ErrColonMissing = errors.New("missing ':' in string element")
 	ErrStringLength = errors.New("string length invalid")
+	ErrNesting      = errors.New("elements nested too deep")
 	ErrNumber       = errors.New("number missing or too big")
 )
 
@@ -22,8 +23,13 @@ type scanner struct {
 	start   int
 	current int
 	bencode []byte
+	depth   int
 }
 
+// maxDepth limits nesting of lists and dictionaries, so that stack of the
+// parser is limited.
+const maxDepth = 1000
+
 func newScanner(data []byte) *scanner {
 	return &scanner{
 		start:   0,
@@ -40,6 +46,12 @@ func (s *scanner) Parse() (Bencode, error) {
 }
 
 func (s *scanner) Next() (Bencode, error) {
+	if s.depth >= maxDepth {
+		return nil, ErrNesting
+	}
+	s.depth++
+	defer func() { s.depth-- }()
+
 	switch s.peek() {
 	case 'l':
 		return s.readList()
-- 
2.43.0


From 4c4762a02b9e9310d9e6947646571fe1772feab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:34 +0000
Subject: [PATCH 34/47] fix: encode dictionaries with sorted keys

Keys were written in random order. Bencode requires them sorted, so that the
same dictionary has always the same encoding and hash.
---
 pkg/bencode/elements.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/bencode/elements.go b/pkg/bencode/elements.go
index d271592..3d1f9a4 100644
--- a/pkg/bencode/elements.go
+++ b/pkg/bencode/elements.go
@@ -1,6 +1,7 @@
 package bencode
 
 import (
+	"sort"
 	"strconv"
 )
 
@@ -72,7 +73,8 @@ func (bencode DictElement) String() string {
 
 func (bencode DictElement) Encode() string {
 	encoded := "d"
-	for k, v := range bencode.value {
+	for _, k := range sortedKeys(bencode.value) {
+		v := bencode.value[k]
 		if v == nil {
 			continue
 		}
@@ -97,7 +99,8 @@ func prettyPrint(bencode Bencode, tabs string) string {
 		tabs = addTab(tabs)
 		data := "{" + newLine(tabs)
 
-		for k, v := range value.value {
+		for _, k := range sortedKeys(value.value) {
+			v := value.value[k]
 			if v == nil {
 				continue
 			}
@@ -129,6 +132,15 @@ func prettyPrint(bencode Bencode, tabs string) string {
 	}
 }
 
+func sortedKeys(dict map[string]Bencode) []string {
+	keys := make([]string, 0, len(dict))
+	for k := range dict {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func addTab(tabs string) string {
 	return tabs + "\t"
 }
-- 
2.43.0


From 7f3336d685007883049e4ba8c902b50872e10f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:05 +0000
Subject: [PATCH 35/47] fix: mark last piece of the torrent as downloaded

Last piece is usually shorter then the others, so torrent was never done.
---
 pkg/torrent/torrent.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index f149d1b..1483c8c 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -190,7 +190,9 @@ func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Sta
 			continue
 		}
 
-		if int(msg.Offset())+len(msg.Data()) == t.PieceLength {
+		// last piece ends with the torrent
+		if int(msg.Offset())+len(msg.Data()) == t.PieceLength ||
+			piecePoss+len(msg.Data()) == t.Length {
 			t.SetDownloaded(uint(msg.Index()))
 		}
 	}
-- 
2.43.0


From 6780ae427177526d0efc2a6ea734772cc6f0f73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:07 +0000
Subject: [PATCH 36/47] fix: count only written data as downloaded

---
 pkg/torrent/torrent.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 1483c8c..3221aae 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -180,8 +180,6 @@ func (t *Torrent) CheckPiece(data []byte, index int) bool {
 func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Stats) {
 	for msg := range piecesCh {
 		piecePoss := int(msg.Index())*t.PieceLength + int(msg.Offset())
-		stats.AddDownload(uint64(len(msg.Data())))
-
 		if err := t.writePieceData(msg.Data(), piecePoss); err != nil {
 			t.logger.Error("Failed to write piece",
 				zap.Int("index", int(msg.Index())),
@@ -189,6 +187,7 @@ func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Sta
 				zap.Error(err))
 			continue
 		}
+		stats.AddDownload(uint64(len(msg.Data())))
 
 		// last piece ends with the torrent
 		if int(msg.Offset())+len(msg.Data()) == t.PieceLength ||
-- 
2.43.0


From a809ad9f6f83255adc412d3282cec25cae12b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:08 +0000
Subject: [PATCH 37/47] fix: create torrent files at their whole path inside of
 download directory

Only the first element of the path was used, so files from sub directories
overwrote each other. Names with .. elements were created anywhere on the
disk, and empty path crashed the process.
---
 pkg/torrent/torrent.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 3221aae..3901bee 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"crypto/sha1"
 	"errors"
+	"fmt"
 	"math"
 	"os"
 	"path/filepath"
@@ -140,6 +141,9 @@ func (t *Torrent) Done() bool {
 }
 
 func (t *Torrent) initDownloadDir(root string) error {
+	if !filepath.IsLocal(t.Name) {
+		return fmt.Errorf("invalid torrent name %q", t.Name)
+	}
 	path := filepath.Join(root, t.Name)
 	var filePaths []string
 	if t.IsDirectory {
@@ -148,13 +152,20 @@ func (t *Torrent) initDownloadDir(root string) error {
 		}
 
 		for _, tf := range t.TorrentFiles {
-			filePaths = append(filePaths, filepath.Join(path, tf.Path[0]))
+			filePath := filepath.Join(tf.Path...)
+			if !filepath.IsLocal(filePath) {
+				return fmt.Errorf("invalid torrent file path %q", tf.Path)
+			}
+			filePaths = append(filePaths, filepath.Join(path, filePath))
 		}
 	} else {
 		filePaths = append(filePaths, path)
 	}
 
 	for _, path := range filePaths {
+		if err := os.MkdirAll(filepath.Dir(path), os.ModePerm); err != nil {
+			return err
+		}
 		f, err := os.Create(path)
 		if err != nil {
 			return err
@@ -233,7 +244,7 @@ func (t *Torrent) writePieceData(data []byte, piecePoss int) error {
 		}
 
 		t.logger.Debug("Writing to file",
-			zap.String("file", t.TorrentFiles[fileIdx].Path[0]),
+			zap.String("file", t.TorrentFiles[fileIdx].FilePath()),
 			zap.Int("position", piecePoss),
 			zap.Int("bytes", toWrite))
 
-- 
2.43.0


From 87a923ed17519d86641cf4e08a5532fa307bf74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:54 +0000
Subject: [PATCH 38/47] fix: reject torrents with inconsistent lengths

Zero piece length and negative lengths crashed the process, and pieces
without a hash were requested but could never be checked.
---
 pkg/torrent/torrent.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 3901bee..cb93b64 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -66,6 +66,9 @@ func New(metainfo *bencode.Metainfo, downloadDir string, logger *zap.Logger) (*T
 	t.CreationDate = metainfo.CreationDate
 	t.Comment = metainfo.Comment
 	t.PieceLength = int(metainfo.Info.PieceLength)
+	if t.PieceLength <= 0 {
+		return nil, errors.New("invalid piece length")
+	}
 	pieces, err := NewPieces([]byte(metainfo.Info.Pieces))
 	if err != nil {
 		return nil, err
@@ -95,12 +98,18 @@ func New(metainfo *bencode.Metainfo, downloadDir string, logger *zap.Logger) (*T
 
 		var completeLength = 0
 		for _, file := range files {
+			if file.Length < 0 || file.Length > math.MaxInt-completeLength {
+				return nil, errors.New("invalid file length")
+			}
 			completeLength += file.Length
 		}
 		t.TorrentFiles = metainfo.Info.Files
 		t.Length = completeLength
 	}
 	t.PiecesNum = int(math.Ceil(float64(t.Length) / float64(t.PieceLength)))
+	if t.Length < 0 || t.PiecesNum != len(t.Pieces) {
+		return nil, errors.New("number of pieces does not match torrent length")
+	}
 	t.requested = bitset.New(uint(t.PiecesNum))
 	t.downloaded = bitset.New(uint(t.PiecesNum))
 
-- 
2.43.0


From 06d0783e4eb79ffb8776f63c28bfa20728bce8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 39/47] fix: close torrent files

---
 pkg/cmd/download.go    | 3 +++
 pkg/torrent/torrent.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/pkg/cmd/download.go b/pkg/cmd/download.go
index 9516b0e..9c311b6 100644
--- a/pkg/cmd/download.go
+++ b/pkg/cmd/download.go
@@ -63,6 +63,8 @@ func runDownload(ctx context.Context, l *zap.Logger, args []string, f *flags) er
 		return err
 	}
 
+	defer file.Close()
+
 	data, err := io.ReadAll(file)
 	if err != nil {
 		return err
@@ -77,6 +79,7 @@ func runDownload(ctx context.Context, l *zap.Logger, args []string, f *flags) er
 	if err != nil {
 		return err
 	}
+	defer t.Close()
 	mng := download.NewMng(t, l, f.peerNum, f.listenPort)
 	defer mng.Stop()
 
diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index cb93b64..0f2e85b 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -114,6 +114,7 @@ func New(metainfo *bencode.Metainfo, downloadDir string, logger *zap.Logger) (*T
 	t.downloaded = bitset.New(uint(t.PiecesNum))
 
 	if err := t.initDownloadDir(downloadDir); err != nil {
+		_ = t.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 896bb414d5d44e93cab5aedd686ec11cacfeba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:57 +0000
Subject: [PATCH 40/47] fix: do not report more then the whole torrent as
 downloaded

When blocks are received twice left size went below zero, which is announced
as a huge number, and progress bar over 100 percent crashed the process.
---
 pkg/stats/stats.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pkg/stats/stats.go b/pkg/stats/stats.go
index 8a599b8..9e2645e 100644
--- a/pkg/stats/stats.go
+++ b/pkg/stats/stats.go
@@ -14,7 +14,6 @@ type Stats struct {
 
 	download   uint64
 	upload     uint64
-	left       uint64
 	peerNum    uint64
 	trackerNum uint64
 }
@@ -25,7 +24,6 @@ func NewStats(torrentSize uint64) *Stats {
 		torrentSize: torrentSize,
 		download:    0,
 		upload:      0,
-		left:        torrentSize,
 		peerNum:     0,
 		trackerNum:  0,
 	}
@@ -33,7 +31,6 @@ func NewStats(torrentSize uint64) *Stats {
 
 func (ts *Stats) AddDownload(size uint64) {
 	atomic.AddUint64(&ts.download, size)
-	atomic.AddUint64(&ts.left, -size)
 }
 
 func (ts *Stats) AddUpload(size uint64) {
@@ -49,7 +46,8 @@ func (ts *Stats) Upload() uint64 {
 }
 
 func (ts *Stats) Left() uint64 {
-	return atomic.LoadUint64(&ts.left)
+	// blocks received more then once are counted every time
+	return ts.torrentSize - min(ts.Download(), ts.torrentSize)
 }
 
 func (ts *Stats) Speed() float64 {
@@ -86,5 +84,5 @@ func (ts *Stats) PercentCompleted() int {
 		return 0
 	}
 
-	return int(math.Round((float64(ts.Download()) / float64(ts.torrentSize)) * 100.0))
+	return min(int(math.Round((float64(ts.Download())/float64(ts.torrentSize))*100.0)), 100)
 }
-- 
2.43.0


From a7155fb97a2650acc7f9cf21ae10506334f34201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:59 +0000
Subject: [PATCH 41/47] fix: use logging and config flags

They were read while commands were created, before command line was parsed.
---
 pkg/cmd/app.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/pkg/cmd/app.go b/pkg/cmd/app.go
index 72cdb93..efd8876 100644
--- a/pkg/cmd/app.go
+++ b/pkg/cmd/app.go
@@ -95,22 +95,23 @@ func initConfig(cfgPath string) error {
 func (a App) NewCmdRun(
 	fn func(ctx context.Context, appCtx AppContext, args []string) error,
 ) func(cmd *cobra.Command, args []string) {
-	ctx := context.Background()
-	ctx, stop := signal.NotifyContext(ctx, syscall.SIGTERM, syscall.SIGINT)
-
-	if err := initConfig(a.appCfg.CfgPath); err != nil {
-		fmt.Println("could not resolve configuration", err)
-		os.Exit(1)
-	}
-
-	logCfg := a.appCfg.Log
-	l, err := logger.NewCommandLine(logCfg.Level, logCfg.Format)
-	if err != nil {
-		_, _ = fmt.Fprint(os.Stderr, "")
-	}
-	appCtx := AppContext{log: l, printer: printer.NewConsole()}
 	return func(_ *cobra.Command, args []string) {
+		ctx := context.Background()
+		ctx, stop := signal.NotifyContext(ctx, syscall.SIGTERM, syscall.SIGINT)
 		defer stop()
+
+		if err := initConfig(a.appCfg.CfgPath); err != nil {
+			fmt.Println("could not resolve configuration", err)
+			os.Exit(1)
+		}
+
+		logCfg := a.appCfg.Log
+		l, err := logger.NewCommandLine(logCfg.Level, logCfg.Format)
+		if err != nil {
+			_, _ = fmt.Fprintln(os.Stderr, err)
+			os.Exit(1)
+		}
+		appCtx := AppContext{log: l, printer: printer.NewConsole()}
 		if err := fn(ctx, appCtx, args); err != nil {
 			appCtx.printer.Fatal(1, "error with the app")
 		}
-- 
2.43.0


From 1aa1403f5851132db6c0b6bdf65c40670e7ed457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:01 +0000
Subject: [PATCH 42/47] fix: print metadata in bencode command

---
 pkg/cmd/bencode.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/cmd/bencode.go b/pkg/cmd/bencode.go
index c69a26d..0e2cf2e 100644
--- a/pkg/cmd/bencode.go
+++ b/pkg/cmd/bencode.go
@@ -39,8 +39,7 @@ func run(_ context.Context, appContext AppContext, args []string) error {
 		appContext.log.Fatal("parse torrent file", zap.Error(err))
 	}
 
-	//appContext.printer.Info("Metainfo file:", file)
-	//appContext.printer.Info(torrentMetadata)
+	appContext.printer.Info(torrentMetadata.String())
 
 	// TODO: return errors instead
 	return nil
-- 
2.43.0


From ebc2b6c412683cd4677da12fa3469db079f152dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:47 +0000
Subject: [PATCH 43/47] fix: requeue pending request when peer chokes us

---
 pkg/peer/peer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 37a6716..b3851ab 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -251,6 +251,11 @@ func (p *Peer) Run(ctx context.Context) {
 		}
 
 		if p.ClientStatus.Choked {
+			// peer drops all our requests when it chokes us
+			if sentPieceMsg {
+				p.piecesQueue.RequestFailed(requestMsg)
+				sentPieceMsg = false
+			}
 			if err := p.unchoke(ctx); err != nil {
 				p.logger.Warn("peer: failed to unchoke peer", zap.Error(err))
 				return
-- 
2.43.0


From cb384e464e9c39a80ff49c2be2edef31d70090f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:21 +0000
Subject: [PATCH 44/47] fix: count pieces with integer arithmetic

The float division rounds for lengths above 2^53, so a torrent whose
list of hashes is too short was accepted.
---
 pkg/torrent/torrent.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 0f2e85b..ded9751 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -106,7 +106,10 @@ func New(metainfo *bencode.Metainfo, downloadDir string, logger *zap.Logger) (*T
 		t.TorrentFiles = metainfo.Info.Files
 		t.Length = completeLength
 	}
-	t.PiecesNum = int(math.Ceil(float64(t.Length) / float64(t.PieceLength)))
+	t.PiecesNum = t.Length / t.PieceLength
+	if t.Length%t.PieceLength != 0 {
+		t.PiecesNum++
+	}
 	if t.Length < 0 || t.PiecesNum != len(t.Pieces) {
 		return nil, errors.New("number of pieces does not match torrent length")
 	}
-- 
2.43.0


From a756d52c8e2ecb49fe9dc1f3554796a096d9b4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:18 +0000
Subject: [PATCH 45/47] fix: reject lists and dictionaries for string fields

---
 pkg/bencode/tag_parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/bencode/tag_parser.go b/pkg/bencode/tag_parser.go
index 7b6a6c3..5624953 100644
--- a/pkg/bencode/tag_parser.go
+++ b/pkg/bencode/tag_parser.go
@@ -103,6 +103,14 @@ func setField(f reflect.Value, value Bencode, fieldName string) error {
 
 	switch ftype.Kind() {
 	case reflect.String:
+		switch value.(type) {
+		case *ListElement, *DictElement:
+			return &TypeError{
+				ElementName: fieldName,
+				FieldType:   f.Type().String(),
+				BencodeType: reflect.TypeOf(value).String(),
+			}
+		}
 		f.SetString(value.String())
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		vali, err := strconv.ParseInt(value.String(), 0, ftype.Bits())
-- 
2.43.0


From 2c9b9369ba765a7cdf829a6e1b498af3b470929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:11 +0000
Subject: [PATCH 46/47] fix: stop the peer when writing to its connection fails
 for good

Peer that could not be written to was retried until the end of the
download, keeping its place in the pool.
---
 pkg/peer/peer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index b3851ab..1083d65 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -174,6 +174,9 @@ func (p *Peer) unchoke(ctx context.Context) error {
 		}
 
 		if err := p.SendInterested(); err != nil {
+			if !isTimeout(err) {
+				return err
+			}
 			d := b.Duration()
 			p.logger.Warn("peer: failed to send interested message. retrying",
 				zap.Duration("backoff", d),
@@ -275,6 +278,10 @@ func (p *Peer) Run(ctx context.Context) {
 
 			if _, err := p.sendMessage(requestMsg); err != nil {
 				p.piecesQueue.RequestFailed(requestMsg)
+				if !isTimeout(err) {
+					p.logger.Debug("peer: connection lost", zap.Error(err))
+					return
+				}
 				d := b.Duration()
 				p.logger.Warn("Error requesting piece. Retrying",
 					zap.Duration("backoff", d),
-- 
2.43.0


From f3797ea0da57b002d184257e8cbdb1d07bbae915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:11 +0000
Subject: [PATCH 47/47] fix: do not take a partly written message for a timeout

Messages sent after it would be read by the peer from the middle of it.
---
 pkg/gotitnet/connection.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index d94f222..7504307 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -95,14 +95,23 @@ func (c *TimeoutConn) WriteMsg(msg *util.PeerMessage) (int, error) {
 	if err := c.setWriteDeadline(); err != nil {
 		return 0, err
 	}
-	return msg.Send(c.c)
+	return cutOff(msg.Send(c.c))
 }
 
 func (c *TimeoutConn) Write(data []byte) (int, error) {
 	if err := c.setWriteDeadline(); err != nil {
 		return 0, err
 	}
-	return c.c.Write(data)
+	return cutOff(c.c.Write(data))
+}
+
+// cutOff does not let a message that was written only in part look like a
+// timeout after which the connection can still be used.
+func cutOff(n int, err error) (int, error) {
+	if err != nil && n > 0 {
+		err = fmt.Errorf("write cut off: %v", err)
+	}
+	return n, err
 }
 
 // ReadAll reads from socket until error is thrown or EOF.
-- 
2.43.0

