PEERHDR = '''package peer

import (
	"context"
	"crypto/sha1"
	"encoding/binary"
	"io"
	"net"
	"net/netip"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

var _ = binary.BigEndian
var _ = io.EOF
var _ = time.Second
var _ = context.Background
var _ = util.NewPeerMessage

// zzPair connects a peer of a torrent with two pieces to a remote side run by the test.
func zzPair(t *testing.T) (*Peer, net.Conn, *torrent.PiecesQueue, chan *util.PeerMessage) {
	t.Helper()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = int64(torrent.BlockLength)
	m.Info.Length = 2 * int64(torrent.BlockLength)
	h := sha1.Sum(make([]byte, torrent.BlockLength))
	m.Info.Pieces = string(h[:]) + string(h[:])
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { tr.Close() })
	q := torrent.NewPiecesQueue()
	ch := make(chan *util.PeerMessage, 16)
	p := NewPeer(netip.MustParseAddrPort(l.Addr().String()), tr, q, ch, zap.NewNop())
	got := make(chan net.Conn, 1)
	go func() {
		c, err := l.Accept()
		if err != nil {
			got <- nil
			return
		}
		b := make([]byte, 68)
		io.ReadFull(c, b)
		c.Write(b)
		got <- c
	}()
	if err := p.Announce(tr); err != nil {
		t.Fatal(err)
	}
	c := <-got
	if c == nil {
		t.Fatal("no connection")
	}
	return p, c, q, ch
}

func zzMsg(typ byte, payload ...byte) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(len(payload)+1))
	return append(append(b, typ), payload...)
}

// zzRead reads the messages the client sends, as type and payload.
func zzRead(c net.Conn, d time.Duration) (byte, []byte, bool) {
	c.SetReadDeadline(time.Now().Add(d))
	b := make([]byte, 4)
	if _, err := io.ReadFull(c, b); err != nil {
		return 0, nil, false
	}
	n := binary.BigEndian.Uint32(b)
	if n == 0 {
		return 99, nil, true
	}
	m := make([]byte, n)
	if _, err := io.ReadFull(c, m); err != nil {
		return 0, nil, false
	}
	return m[0], m[1:], true
}
'''
SEEDS = [
dict(id="B01", property="C02", pkg="pkg/gotitnet",
 needs="a peer that sends a keep-alive (peers do after two idle minutes)",
 breaks="an empty message body is no longer recognised as keep-alive; reading its type byte panics",
 edits=[("pkg/util/peer_message.go","""	if len(data) == 0 {
		return KeepalivePeerMessage""","""	if data == nil {
		return KeepalivePeerMessage""")],
 test='''package gotitnet

import (
	"net"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/util"
)

func TestZZDemo(t *testing.T) {
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	c := &TimeoutConn{c: a, timeout: 5 * time.Second}
	go b.Write(make([]byte, 4))
	m, err := c.ReadPeerMessage()
	if err != nil {
		t.Fatal(err)
	}
	if util.NewPeerMessage(m).Type != util.KeepaliveMessageType {
		t.Fatal("not a keep-alive")
	}
}
'''),
dict(id="B02", property="C10", pkg="pkg/peer",
 needs="sending the request fails because the connection is lost, or the download is cancelled during the back-off that follows a timeout",
 breaks="the claimed piece is put back only after the back-off, so a lost connection or cancellation in that window loses it for every other peer",
 edits=[("pkg/peer/peer.go",'''				p.piecesQueue.RequestFailed(requestMsg)
				if !isTimeout(err) {
					p.logger.Debug("peer: connection lost", zap.Error(err))
					return
				}
				d := b.Duration()
				p.logger.Warn("Error requesting piece. Retrying",
					zap.Duration("backoff", d),
					zap.Error(err))
				if err := wait(ctx, d); err != nil {
					return
				}
				continue
''','''				if !isTimeout(err) {
					p.logger.Debug("peer: connection lost", zap.Error(err))
					return
				}
				d := b.Duration()
				p.logger.Warn("Error requesting piece. Retrying",
					zap.Duration("backoff", d),
					zap.Error(err))
				if err := wait(ctx, d); err != nil {
					return
				}
				p.piecesQueue.RequestFailed(requestMsg)
				continue
''')],
 test=PEERHDR+'''
func TestZZDemo(t *testing.T) {
	p, c, q, _ := zzPair(t)
	defer c.Close()
	p.Bitset.Set(0).Set(1)
	p.ClientStatus.Choked = false
	p.ClientStatus.Interested = true
	p.conn.Close() // every send fails from here on
	ctx, cancel := context.WithCancel(context.Background())
	go func() {
		time.Sleep(20 * time.Millisecond)
		cancel()
	}()
	p.Run(ctx)
	if m := q.FailedPieceMessage(); m == nil {
		t.Fatal("claimed piece was lost")
	}
}
'''),
dict(id="B03", property="C13", pkg="pkg/peer",
 needs="a peer that answers interested with a message other than unchoke (a bitfield or have, as most peers do)",
 breaks="a block is requested while the peer still chokes the client",
 edits=[("pkg/peer/peer.go",'''		if !p.ClientStatus.Choked && p.ClientStatus.Interested && !sentPieceMsg {''','''		if p.ClientStatus.Valid && p.ClientStatus.Interested && !sentPieceMsg {''')],
 test=PEERHDR+'''
func TestZZDemo(t *testing.T) {
	p, c, _, _ := zzPair(t)
	defer c.Close()
	p.Bitset.Set(0).Set(1)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	done := make(chan struct{})
	go func() { p.Run(ctx); close(done) }()
	defer func() { cancel(); c.Close(); <-done }()
	c.Write(zzMsg(4, 0, 0, 0, 1)) // have, no unchoke
	for {
		typ, _, ok := zzRead(c, 1500*time.Millisecond)
		if !ok {
			break
		}
		if typ == 6 {
			t.Fatal("request sent while choked")
		}
	}
}
'''),
dict(id="B04", property="C15", pkg="pkg/gotitnet",
 needs="a message of 64 KiB or more (every piece message of this client, none of the tests)",
 breaks="only the low half of the length prefix is used, so the message is cut and the following read starts in its middle",
 edits=[("pkg/gotitnet/connection.go",'''	return int(binary.BigEndian.Uint32(buf)), nil''','''	return int(binary.BigEndian.Uint16(buf[2:])), nil''')],
 test='''package gotitnet

import (
	"encoding/binary"
	"net"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	c := &TimeoutConn{c: a, timeout: 5 * time.Second}
	n := 131072 + 9
	go func() {
		h := make([]byte, 4)
		binary.BigEndian.PutUint32(h, uint32(n))
		b.Write(append(h, make([]byte, n)...))
	}()
	m, err := c.ReadPeerMessage()
	if err != nil || len(m) != n {
		t.Fatalf("read %d bytes of %d: %v", len(m), n, err)
	}
}
'''),
]
