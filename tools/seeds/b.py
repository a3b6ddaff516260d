TORHDR = '''package torrent

import (
	"crypto/sha1"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/util"
	"github.com/bits-and-blooms/bitset"
	"go.uber.org/zap"
)

var _ = sha1.New
var _ = os.Open
var _ = filepath.Join
var _ sync.Mutex
var _ = stats.NewStats
var _ = util.NewPeerMessage
var _ = bitset.New

func zzTorrent(t *testing.T, dir string, pieces int) *Torrent {
	t.Helper()
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = int64(BlockLength)
	m.Info.Length = int64(pieces) * int64(BlockLength)
	h := sha1.Sum(make([]byte, BlockLength))
	all := make([]byte, 0, 20*pieces)
	for i := 0; i < pieces; i++ {
		all = append(all, h[:]...)
	}
	m.Info.Pieces = string(all)
	tr, err := New(m, dir, zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { tr.Close() })
	return tr
}

func zzPiece(index uint32, offset uint32, data []byte) *util.PeerMessage {
	b := []byte{7, byte(index >> 24), byte(index >> 16), byte(index >> 8), byte(index),
		byte(offset >> 24), byte(offset >> 16), byte(offset >> 8), byte(offset)}
	return util.NewPeerMessage(append(b, data...))
}
'''
SEEDS = [
dict(id="B05", property="C07", pkg="pkg/torrent",
 needs="a torrent of more than 4 GiB and a piece beyond that mark",
 breaks="the position is computed in 32 bits, so pieces beyond 4 GiB overwrite earlier ones",
 edits=[("pkg/torrent/torrent.go","piecePoss := int(msg.Index())*t.PieceLength + int(msg.Offset())","piecePoss := int(msg.Index()*uint32(t.PieceLength) + msg.Offset())")],
 test=TORHDR+'''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	tr := zzTorrent(t, dir, 33000)
	ch := make(chan *util.PeerMessage, 1)
	data := make([]byte, BlockLength)
	data[0] = 'x'
	ch <- zzPiece(32999, 0, data)
	close(ch)
	tr.WritePiece(ch, stats.NewStats(1))
	f, err := os.Open(filepath.Join(dir, "x"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	b := make([]byte, 1)
	if _, err := f.ReadAt(b, 32999*int64(BlockLength)); err != nil || b[0] != 'x' {
		t.Fatal("piece is not at its place", err)
	}
}
'''),
dict(id="B06", property="C01", pkg="pkg/torrent",
 needs="a peer that appends bytes to an otherwise valid block",
 breaks="only the first block's worth of the received data is hashed, so trailing unverified bytes are accepted and written over the next piece",
 edits=[("pkg/torrent/torrent.go","	hasher.Write(data)\n","	hasher.Write(data[:min(len(data), int(BlockLength))])\n")],
 test=TORHDR+'''
func TestZZDemo(t *testing.T) {
	tr := zzTorrent(t, t.TempDir(), 2)
	data := make([]byte, BlockLength)
	if !tr.CheckPiece(data, 0) {
		t.Fatal("valid data refused")
	}
	if tr.CheckPiece(append(data, "junk"...), 0) {
		t.Fatal("data with unverified bytes accepted")
	}
}
'''),
dict(id="B07", property="C09", pkg="pkg/torrent",
 needs="two peers selecting a piece at the same time",
 breaks="the candidate is found under the lock but claimed in a second critical section, so two peers can be handed the same piece",
 edits=[("pkg/torrent/torrent.go",'''	t.requestedMu.Lock()
	defer t.requestedMu.Unlock()

	for i, exists := t.requested.NextClear(0); exists; i, exists = t.requested.NextClear(i + 1) {
		if !have.Test(i) {
			continue
		}

		t.requested.Set(i)
		return i, true
	}
''','''	t.requestedMu.Lock()
	free := t.requested.Complement()
	t.requestedMu.Unlock()

	for i, exists := free.NextSet(0); exists; i, exists = free.NextSet(i + 1) {
		if !have.Test(i) {
			continue
		}

		t.requestedMu.Lock()
		t.requested.Set(i)
		t.requestedMu.Unlock()
		return i, true
	}
''')],
 test=TORHDR+'''
func TestZZDemo(t *testing.T) {
	const pieces, peers = 4, 8
	have := bitset.New(pieces).Complement()
	dir := t.TempDir()
	for round := 0; round < 3000; round++ {
		tr := zzTorrent(t, dir, pieces)
		start := make(chan struct{})
		got := make(chan uint, pieces*peers)
		var wg sync.WaitGroup
		for g := 0; g < peers; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for {
					i, ok := tr.Next(have)
					if !ok {
						return
					}
					got <- i
				}
			}()
		}
		close(start)
		wg.Wait()
		tr.Close()
		if len(got) != pieces {
			t.Fatalf("%d pieces of %d handed out", len(got), pieces)
		}
	}
}
'''),
dict(id="B08", property="C08", pkg="pkg/torrent",
 needs="a write that fails (disk full, file closed)",
 breaks="a piece whose write failed is still marked as downloaded, so the download can report completion with a hole in the file",
 edits=[("pkg/torrent/torrent.go",'''				zap.Int("offset", int(msg.Offset())),
				zap.Error(err))
			continue
		}
''','''				zap.Int("offset", int(msg.Offset())),
				zap.Error(err))
		}
''')],
 test=TORHDR+'''
func TestZZDemo(t *testing.T) {
	tr := zzTorrent(t, t.TempDir(), 1)
	tr.OsFiles[0].Close()
	ch := make(chan *util.PeerMessage, 1)
	ch <- zzPiece(0, 0, make([]byte, BlockLength))
	close(ch)
	s := stats.NewStats(uint64(BlockLength))
	tr.WritePiece(ch, s)
	if s.Download() != 0 || tr.Done() {
		t.Fatal("progress recorded although the write failed")
	}
}
'''),
dict(id="B09", property="C11", pkg="pkg/torrent",
 needs="two peers taking the last queued request at the same time",
 breaks="the emptiness test happens before the lock is taken",
 edits=[("pkg/torrent/pieces_queue.go",'''	pq.failedMu.Lock()
	defer pq.failedMu.Unlock()

	if len(pq.failedMessages) == 0 {
		return nil
	}
''','''	if len(pq.failedMessages) == 0 {
		return nil
	}

	pq.failedMu.Lock()
	defer pq.failedMu.Unlock()
''')],
 test=TORHDR+'''
func TestZZDemo(t *testing.T) {
	pq := NewPiecesQueue()
	msg := util.CreatePieceMessage(0, 0, 1)
	for round := 0; round < 30000; round++ {
		pq.RequestFailed(msg)
		var wg sync.WaitGroup
		start := make(chan struct{})
		got := make(chan bool, 4)
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if recover() != nil {
						got <- true
						got <- true
					}
				}()
				<-start
				if pq.FailedPieceMessage() != nil {
					got <- true
				}
			}()
		}
		close(start)
		wg.Wait()
		if len(got) != 1 {
			t.Fatalf("queue of one handed out %d", len(got))
		}
	}
}
'''),
dict(id="B10", property="C16", pkg="pkg/gotitnet",
 needs="a connection whose timeout is below a second (those to trackers) and a remote side that does not read",
 breaks="timeouts below a second are taken for no timeout, so writing to a UDP tracker has no deadline",
 edits=[("pkg/gotitnet/connection.go",'''	return c.c.SetWriteDeadline(time.Now().Add(c.timeout))''','''	if int(c.timeout.Seconds()) == 0 {
		return nil
	}
	return c.c.SetWriteDeadline(time.Now().Add(c.timeout))''')],
 test='''package gotitnet

import (
	"net"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/util"
)

func TestZZDemo(t *testing.T) {
	a, b := net.Pipe() // nobody reads from b
	defer a.Close()
	defer b.Close()
	c := &TimeoutConn{c: a, timeout: 100 * time.Millisecond}
	done := make(chan error, 1)
	go func() {
		_, err := c.WriteMsg(util.CreateInterestedMessage())
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("written to nobody")
		}
	case <-time.After(3 * time.Second):
		t.Fatal("write without time limit")
	}
}
'''),
dict(id="B11", property="C17", pkg="pkg/tracker",
 needs="cancellation while the client waits between two announces",
 breaks="the wait between two announces no longer ends when the download is cancelled",
 edits=[("pkg/tracker/tracker.go",'''	select {
	case <-time.After(t.interval):
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}
''','''	time.Sleep(t.interval)
	return ctx.Err()
''')],
 test='''package tracker

import (
	"context"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	done := make(chan error, 1)
	go func() { done <- waitInterval{interval: time.Minute}.WaitInterval(ctx) }()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(3 * time.Second):
		t.Fatal("cancellation does not end the wait")
	}
}
'''),
dict(id="B12", property="C19", pkg="pkg/tracker",
 needs="a UDP tracker and a client whose uploaded and left counters differ",
 breaks="uploaded and left change places in the UDP announce",
 edits=[("pkg/tracker/udp_tracker.go",'''	binary.Write(request, binary.BigEndian, data.Left)
	binary.Write(request, binary.BigEndian, data.Uploaded)
''','''	binary.Write(request, binary.BigEndian, data.Uploaded)
	binary.Write(request, binary.BigEndian, data.Left)
''')],
 test='''package tracker

import (
	"encoding/binary"
	"testing"

	"github.com/anivanovic/gotit"
)

func TestZZDemo(t *testing.T) {
	b := createAnnounce(1, 2, "01234567890123456789", &gotit.AnnounceData{Downloaded: 5, Uploaded: 6, Left: 7, Port: 8})
	if len(b) != 98 || binary.BigEndian.Uint64(b[64:72]) != 7 || binary.BigEndian.Uint64(b[72:80]) != 6 {
		t.Fatalf("announce is % x", b)
	}
}
'''),
dict(id="B13", property="C20", pkg="pkg/tracker",
 needs="a late or forged announce datagram with another transaction id",
 breaks="the interval of a refused announce answer is adopted before its transaction id is checked",
 edits=[("pkg/tracker/udp_tracker.go",'''	if err := checkResponseTransactionId(response, transactionId); err != nil {
		return nil, err
	}

	if interval := binary.BigEndian.Uint32(response[8:12]); interval > 0 {
		t.interval = time.Duration(min(interval, maxInterval)) * time.Second
	}
''','''	if interval := binary.BigEndian.Uint32(response[8:12]); interval > 0 {
		t.interval = time.Duration(min(interval, maxInterval)) * time.Second
	}
	if err := checkResponseTransactionId(response, transactionId); err != nil {
		return nil, err
	}
''')],
 test='''package tracker

import (
	"testing"
	"time"

	"go.uber.org/zap"
)

func TestZZDemo(t *testing.T) {
	u := &udpTracker{log: zap.NewNop(), waitInterval: waitInterval{time.Minute}}
	b := make([]byte, 20)
	b[3] = 1
	b[7] = 9
	b[10] = 200
	if err := u.parseTrackerResponse(b, announce, 8); err == nil {
		t.Fatal("answer of another transaction accepted")
	}
	if u.interval != time.Minute {
		t.Fatal("interval of a refused answer adopted")
	}
}
'''),
dict(id="B14", property="C23", pkg="pkg/tracker",
 needs="a tracker that lists a peer with port 0",
 breaks="entries with port 0 are skipped by leaving an invalid placeholder in the result",
 edits=[("pkg/tracker/http_tracker.go",'''		if !addrPort.IsValid() {
			fmt.Println("invalid addr port compact", addrPort.String())''','''		if !addrPort.IsValid() || port == 0 {
			fmt.Println("invalid addr port compact", addrPort.String())''')],
 test='''package tracker

import "testing"

func TestZZDemo(t *testing.T) {
	ps := parseCompactPeers([]byte{1, 2, 3, 4, 0, 0, 5, 6, 7, 8, 0, 9})
	if len(ps) != 2 {
		t.Fatalf("%d entries", len(ps))
	}
	for _, p := range ps {
		if !p.IsValid() {
			t.Fatal("placeholder entry")
		}
	}
}
'''),
dict(id="B15", property="C25", pkg="pkg/bencode",
 needs="a string with a character outside ASCII",
 breaks="the length of an encoded string is its number of characters, not of bytes",
 edits=[("pkg/bencode/elements.go",'''	return strconv.Itoa(len(bencode)) + ":" + bencode.String()''','''	return strconv.Itoa(len([]rune(bencode))) + ":" + bencode.String()''')],
 test='''package bencode

import "testing"

func TestZZDemo(t *testing.T) {
	if s := String("\\u00e9").Encode(); s != "2:\\u00e9" {
		t.Fatal(s)
	}
}
'''),
dict(id="B16", property="C26", pkg="pkg/bencode",
 needs="a list with an element of the wrong type inside an otherwise valid torrent",
 breaks="ill-typed list elements are skipped and leave a zero value",
 edits=[("pkg/bencode/tag_parser.go",'''			if err := setField(listTarget, v, fieldName); err != nil {
				return err
			}
''','''			var typeErr *TypeError
			if err := setField(listTarget, v, fieldName); err != nil && !errors.As(err, &typeErr) {
				return err
			}
''')],
 test='''package bencode

import "testing"

func TestZZDemo(t *testing.T) {
	var v struct {
		L []int `ben:"l"`
	}
	if err := Unmarshal([]byte("d1:lli1ei2eee"), &v); err != nil || len(v.L) != 2 {
		t.Fatal("valid input", err)
	}
	if err := Unmarshal([]byte("d1:lli1e1:xee"), &v); err == nil {
		t.Fatal("ill-typed element accepted")
	}
}
'''),
dict(id="B17", property="C27", pkg="pkg/stats",
 needs="two peers ending at the same time",
 breaks="removing a peer loads and stores in two steps, so concurrent removals are lost and the number of peers never returns to zero",
 edits=[("pkg/stats/stats.go",'''	atomic.AddUint64(&ts.peerNum, ^uint64(0))''','''	if n := ts.PeerNum(); n > 0 {
		atomic.StoreUint64(&ts.peerNum, n-1)
	}''')],
 test='''package stats

import (
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	s := NewStats(1)
	const n, per = 8, 20000
	for i := 0; i < n*per; i++ {
		s.AddPeer()
	}
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				s.RemovePeer()
			}
		}()
	}
	wg.Wait()
	if s.PeerNum() != 0 {
		t.Fatalf("%d peers left", s.PeerNum())
	}
}
'''),
dict(id="B18", property="C30", pkg="pkg/tracker",
 needs="a tracker that answers with an error status",
 breaks="the response body is closed only for successful answers",
 edits=[("pkg/tracker/http_tracker.go",'''	defer func() {
		if err := res.Body.Close(); err != nil {
			t.logger.Warn("error closing announce response",
				zap.Error(err),
				zap.String("tracker addr", t.addr))
		}
	}()

	body, err''','''	body, err'''),("pkg/tracker/http_tracker.go",'''	return t.readPeers(body)
}
''','''	defer func() {
		if err := res.Body.Close(); err != nil {
			t.logger.Warn("error closing announce response",
				zap.Error(err),
				zap.String("tracker addr", t.addr))
		}
	}()
	return t.readPeers(body)
}
''')],
 test='''package tracker

import (
	"context"
	"io"
	"net/http"
	"strings"
	"testing"

	"github.com/anivanovic/gotit"
	"go.uber.org/zap"
)

type zzBody struct {
	io.Reader
	closed *bool
}

func (b zzBody) Close() error { *b.closed = true; return nil }

type zzTransport struct{ closed *bool }

func (z zzTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 500, Request: r, Body: zzBody{strings.NewReader("no"), z.closed}}, nil
}

func TestZZDemo(t *testing.T) {
	closed := false
	h := newHttpTracker("http://localhost/announce", &http.Client{Transport: zzTransport{&closed}}, zap.NewNop())
	if _, err := h.Announce(context.Background(), "h", &gotit.AnnounceData{}); err == nil {
		t.Fatal("error status accepted")
	}
	if !closed {
		t.Fatal("body is not closed")
	}
}
'''),
dict(id="B19", property="C24", pkg="pkg/bencode",
 needs="a torrent whose info dictionary does not have its keys in order, or repeats one",
 breaks="the raw bytes of a dictionary are its re-encoding, so the info-hash of such torrents is wrong",
 edits=[("pkg/bencode/elements.go",'''func (bencode DictElement) Raw() []byte {
	return bencode.raw
}''','''func (bencode DictElement) Raw() []byte {
	return []byte(bencode.Encode())
}''')],
 test='''package bencode

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	info := "d6:pieces0:4:name1:x12:piece lengthi1ee"
	var m Metainfo
	if err := Unmarshal([]byte("d8:announce1:a4:info"+info+"e"), &m); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(m.InfoDictRaw, []byte(info)) {
		t.Fatalf("info bytes are %q", m.InfoDictRaw)
	}
}
'''),
dict(id="B20", property="C12", pkg="pkg/peer",
 needs="a remote party that answers with another spelling of the protocol string",
 breaks="the protocol string is compared without regard to case",
 edits=[("pkg/peer/peer.go",'''		protocolSignature == string(bittorrentProto[:]) &&''','''		bytes.EqualFold([]byte(protocolSignature), bittorrentProto[:]) &&''')],
 test='''package peer

import "testing"

func TestZZDemo(t *testing.T) {
	hash := []byte("01234567890123456789")
	h := createHandshake(hash)
	if !isHandshakeValid(h, hash, ClientId) {
		t.Fatal("valid handshake refused")
	}
	h[1] = 'b'
	if isHandshakeValid(h, hash, ClientId) {
		t.Fatal("wrong protocol string accepted")
	}
}
'''),
dict(id="B21", property="C21", pkg="pkg/download",
 needs="a UDP tracker that does not answer for one whole announce round",
 breaks="a timed-out announce is taken for a cancellation and ends the tracker's loop for good",
 edits=[("pkg/download/manager.go",'''			if errors.Is(err, context.Canceled) {
				return nil''','''			if errors.Is(err, context.Canceled) || errors.Is(err, os.ErrDeadlineExceeded) {
				return nil'''),("pkg/download/manager.go",'''	"errors"
''','''	"errors"
	"os"
''')],
 test='''package download

import (
	"context"
	"crypto/sha1"
	"net"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func TestZZDemo(t *testing.T) {
	c, err := net.ListenPacket("udp", "127.0.0.1:0") // never answers
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = int64(torrent.BlockLength)
	m.Info.Length = int64(torrent.BlockLength)
	h := sha1.Sum(make([]byte, torrent.BlockLength))
	m.Info.Pieces = string(h[:])
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	mng := NewMng(tr, zap.NewNop(), 1, 1)
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() {
		mng.runTracker(ctx, "udp://"+c.LocalAddr().String(), make(chan *util.PeerMessage))
		close(done)
	}()
	select {
	case <-done:
		t.Fatal("tracker given up")
	case <-time.After(25 * time.Second):
	}
	cancel()
	<-done
}
'''),
dict(id="B22", property="C22", pkg="pkg/download",
 needs="a tracker that answers one whole announce round with errors",
 breaks="after a failed round the next one starts at once, without waiting for the interval",
 edits=[("pkg/download/manager.go",'''				zap.String("url", url),
				zap.Error(err))
		} else {
			m.logger.Sugar().With("url", url).Infof("tracker sent %d peers", len(ips))
			m.initPeers(ctx, ips, pieceCh)
		}
''','''				zap.String("url", url),
				zap.Error(err))
			continue
		}
		m.logger.Sugar().With("url", url).Infof("tracker sent %d peers", len(ips))
		m.initPeers(ctx, ips, pieceCh)
''')],
 test='''package download

import (
	"context"
	"crypto/sha1"
	"net/http"
	"net/http/httptest"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func TestZZDemo(t *testing.T) {
	var n atomic.Int32
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n.Add(1)
		w.WriteHeader(500)
	}))
	defer s.Close()
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = int64(torrent.BlockLength)
	m.Info.Length = int64(torrent.BlockLength)
	h := sha1.Sum(make([]byte, torrent.BlockLength))
	m.Info.Pieces = string(h[:])
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	mng := NewMng(tr, zap.NewNop(), 1, 1)
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() {
		mng.runTracker(ctx, s.URL, make(chan *util.PeerMessage))
		close(done)
	}()
	deadline := time.Now().Add(40 * time.Second)
	for n.Load() < 5 && time.Now().Before(deadline) {
		time.Sleep(50 * time.Millisecond)
	}
	time.Sleep(5 * time.Second)
	got := n.Load()
	cancel()
	<-done
	if got != 5 {
		t.Fatalf("%d announces in the first round", got)
	}
}
'''),
dict(id="B23", property="C03", pkg="pkg/bencode",
 needs="a list that ends with the input, without its closing delimiter",
 breaks="at the end of the input a list is no longer left, so decoding a truncated list panics or never ends",
 edits=[("pkg/bencode/parse.go",'''	for s.peek() != 'e' && !s.IsFinished() {
		s.position()
''','''	for s.bencode[s.current] != 'e' {
		s.position()
''')],
 test='''package bencode

import "testing"

func TestZZDemo(t *testing.T) {
	if _, err := Parse([]byte("l1:a")); err == nil {
		t.Fatal("truncated list accepted")
	}
}
'''),
dict(id="B24", property="C28", pkg="pkg/cmd",
 needs="a torrent file that cannot be decoded",
 breaks="a decoding failure is reported as success",
 edits=[("pkg/cmd/download.go",'''	if err := bencode.Unmarshal(data, &torrentMetadata); err != nil {
		return err
	}
''','''	if err = bencode.Unmarshal(data, &torrentMetadata); err != nil {
		l.Error("decoding torrent file", zap.Error(err))
	}
	if torrentMetadata.Info.Name == "" {
		return nil
	}
''')],
 test='''package cmd

import (
	"context"
	"os"
	"path/filepath"
	"testing"

	"go.uber.org/zap"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	f := filepath.Join(dir, "x.torrent")
	if err := os.WriteFile(f, []byte("i1e"), 0o600); err != nil {
		t.Fatal(err)
	}
	if err := runDownload(context.Background(), zap.NewNop(), []string{f}, &flags{output: dir}); err == nil {
		t.Fatal("no error")
	}
}
'''),
]
