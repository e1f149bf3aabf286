//go:build go1.22

package fifoch

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/pool"

	z "github.com/renthraysk/xtorm/zzverif"
)

var errSend = errors.New("send failed")
var errClose = errors.New("close failed")
var errNew = errors.New("no connection")

// world is what the pool is given: a connector and its connections, which record how they are used.
type world struct {
	mu    sync.Mutex
	bad   string
	conns []*fconn
	log   []string
	newF  func() bool          // whether New fails
	sendF func(c *fconn) error // what Send of a connection does
	made  int

	closeF func(c *fconn) error // what Close of a connection does and returns
}

type fconn struct {
	w      *world
	id     int
	busy   int
	closed int
	failed bool
	sends  int
	unit   string
}

func (w *world) note(f string, a ...any) {
	w.log = append(w.log, fmt.Sprintf(f, a...))
}

func (w *world) fail(f string, a ...any) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(f, a...) + "; history: " + strings.Join(w.log[max(0, len(w.log)-40):], ", ")
	}
}

func (w *world) New(ctx context.Context) (netx.Conn, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.newF != nil && w.newF() {
		w.note("New fails")
		return nil, errNew
	}
	c := &fconn{w: w, id: len(w.conns)}
	w.conns = append(w.conns, c)
	w.made++
	w.note("New gives #%d", c.id)
	return c, nil
}

func (c *fconn) IsSecure() bool { return false }

func (c *fconn) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	w := c.w
	w.mu.Lock()
	if c.closed > 0 {
		w.fail("connection #%d is used after it was closed", c.id)
	}
	if c.failed {
		w.fail("connection #%d is used after its send failed", c.id)
	}
	if c.busy > 0 {
		w.fail("connection #%d is used by two sends at once", c.id)
	}
	c.busy++
	c.sends++
	c.unit = string(b)
	w.note("send on #%d", c.id)
	f := w.sendF
	w.mu.Unlock()
	var err error
	if f != nil {
		err = f(c)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	c.busy--
	if err != nil {
		c.failed = true
		w.note("send on #%d fails", c.id)
		return []netx.Response{c.id, "partial"}, err
	}
	w.note("send on #%d succeeds", c.id)
	return []netx.Response{c.id}, nil
}

func (c *fconn) Close() error {
	c.w.mu.Lock()
	c.closed++
	c.w.note("close #%d", c.id)
	if c.closed > 1 {
		c.w.fail("connection #%d is closed twice", c.id)
	}
	if c.busy > 0 {
		c.w.fail("connection #%d is closed while it is used", c.id)
	}
	f := c.w.closeF
	c.w.mu.Unlock()
	if f != nil {
		return f(c)
	}
	return nil
}

func (w *world) open() (n int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, c := range w.conns {
		if c.closed == 0 {
			n++
		}
	}
	return
}

// cut runs f with a limit on its time, and reports panics.
func (w *world) cut(what string, f func()) bool {
	done := make(chan bool, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				w.mu.Lock()
				w.fail("%s panics: %v", what, r)
				w.mu.Unlock()
			}
			done <- true
		}()
		f()
	}()
	select {
	case <-done:
		return true
	case <-time.After(20 * time.Second):
		if w.mu.TryLock() {
			w.fail("%s does not return", what)
			w.mu.Unlock()
		} else {
			w.bad = what + " does not return"
		}
		return false
	}
}

// history runs a random history of sends and closes; operations may happen while a connection is in use.
func history(r *rand.Rand, size int) string {
	w := &world{}
	p := New(w, size)
	closed, shut := false, false // Close was called, and one returned nil
	inflight, depth := 0, 0
	var op func()
	failNext := false
	w.newF = func() bool { return r.Intn(8) == 0 }
	w.closeF = func(c *fconn) error {
		if r.Intn(5) == 0 {
			w.note("close of #%d reports an error", c.id)
			return errClose
		}
		return nil
	}
	cancelled, cancel := context.WithCancel(context.Background())
	cancel()
	doClose := func(ctx context.Context, name string) {
		w.note("Close(%s)", name)
		err := p.Close(ctx)
		w.note("Close returns %v", err)
		closed = true
		if err != nil && ctx.Err() == nil {
			w.fail("Close fails with %v", err)
		}
		if err == nil {
			shut = true
			if n := w.open(); n != inflight {
				w.fail("after Close %d connections are open, %d of them in use", n, inflight)
			}
		}
	}
	doSend := func(ctx context.Context, name string) {
		was := closed
		idle, made, nc := w.open()-inflight, w.made, len(w.conns)
		var used *fconn
		var werr error
		nested := r.Intn(4) == 0 && depth < 3
		failNext = r.Intn(3) == 0
		unit := fmt.Sprintf("unit %d", r.Int63())
		var sum int
		for _, c := range w.conns {
			sum += c.sends
		}
		w.sendF = func(c *fconn) error {
			used = c
			fail := failNext
			if fail {
				werr = errSend
			}
			inflight++
			depth++
			if nested {
				for n := 1 + r.Intn(3); n > 0; n-- {
					op()
				}
			}
			depth--
			inflight--
			if fail {
				return werr
			}
			return nil
		}
		w.note("Send(%s)", name)
		res, err := p.Send(ctx, []byte(unit))
		w.note("Send returns %v", err)
		if was {
			if err != pool.ErrPoolClosed {
				w.fail("Send of a closed pool returns %v", err)
			}
			if used != nil || w.made != made {
				w.fail("Send of a closed pool opens or uses a connection")
			}
			return
		}
		if used == nil {
			switch {
			case err == nil:
				w.fail("Send succeeds without sending")
			case err == errNew, ctx.Err() != nil && err == ctx.Err():
			default:
				w.fail("Send fails with %v without sending", err)
			}
			if w.open()-inflight != idle {
				w.fail("Send that fails with %v without sending leaves %d idle connections, before there were %d", err, w.open()-inflight, idle)
			}
			return
		}
		if used.unit != unit {
			w.fail("Send passes %q to the connection, not %q", used.unit, unit)
		}
		if idle > 0 && used.id >= nc {
			w.fail("Send opens a connection although %d are idle", idle)
		}
		if err != werr {
			w.fail("Send returns %v, the connection returned %v", err, werr)
		}
		if len(res) == 0 || res[0] != used.id || (werr == nil) != (len(res) == 1) {
			w.fail("Send returns %v, not what connection #%d answered", res, used.id)
		}
		now := w.open() - inflight
		switch {
		case werr != nil && used.closed == 0:
			w.fail("connection #%d is not closed although its send failed", used.id)
		case werr == nil && closed && used.closed == 0 && shut:
			w.fail("connection #%d is not closed although the pool is", used.id)
		case werr == nil && !closed && used.closed > 0 && now < size:
			w.fail("healthy connection #%d is closed although the pool of size %d keeps only %d", used.id, size, now)
		case now > size:
			w.fail("a pool of size %d keeps %d connections", size, now)
		}
	}
	op = func() {
		if w.bad != "" {
			return
		}
		switch k := r.Intn(40); {
		case k == 0:
			doClose(context.Background(), "")
		case k == 1:
			doClose(cancelled, "cancelled")
		case k == 2:
			doSend(cancelled, "cancelled")
		default:
			doSend(context.Background(), "")
		}
	}
	w.cut(fmt.Sprintf("a history of a pool of size %d", size), func() {
		for n := 0; n < 40 && w.bad == ""; n++ {
			op()
		}
		if w.bad == "" {
			for i := 0; i < 3 && !shut; i++ {
				doClose(context.Background(), "")
			}
			doClose(context.Background(), "")
		}
		if w.bad == "" && w.open() != 0 {
			w.fail("%d connections are still open after Close", w.open())
		}
	})
	return w.bad
}

// storm runs sends of several goroutines and closes the pool meanwhile.
func storm(r *rand.Rand, size int) string {
	w := &world{}
	p := New(w, size)
	spin := r.Intn(60)
	var rm sync.Mutex
	rnd := func(n int) int { rm.Lock(); defer rm.Unlock(); return r.Intn(n) }
	w.sendF = func(c *fconn) error {
		for i := rnd(3); i > 0; i-- {
			runtime.Gosched()
		}
		if rnd(10) == 0 {
			return errSend
		}
		return nil
	}
	w.cut(fmt.Sprintf("a pool of size %d used and closed by several goroutines", size), func() {
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						w.mu.Lock()
						w.fail("Send panics: %v", r)
						w.mu.Unlock()
					}
				}()
				for i := 0; i < 200; i++ {
					_, err := p.Send(context.Background(), []byte("unit"))
					if err == pool.ErrPoolClosed {
						return
					}
				}
			}()
		}
		for i := 0; i < spin; i++ {
			runtime.Gosched()
		}
		for i := 0; i < 2; i++ {
			if err := p.Close(context.Background()); err != nil {
				w.mu.Lock()
				w.fail("Close fails with %v", err)
				w.mu.Unlock()
			}
		}
		if _, err := p.Send(context.Background(), nil); err != pool.ErrPoolClosed {
			w.mu.Lock()
			w.fail("Send after Close returns %v", err)
			w.mu.Unlock()
		}
		wg.Wait()
		if n := w.open(); n != 0 && w.bad == "" {
			w.fail("%d connections are still open after Close and after all sends returned", n)
		}
	})
	return w.bad
}

// duel: one or two goroutines that do little else than send, against Close.
func duel(r *rand.Rand, size int) string {
	var open, made int64
	q := &quick{open: &open, made: &made}
	p := New(q, size)
	senders := 1 + r.Intn(2)
	var wg sync.WaitGroup
	start := make(chan bool)
	var crash atomic.Value
	for g := 0; g < senders; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					crash.Store(fmt.Sprint(r))
				}
			}()
			<-start
			for i := 0; i < 5000; i++ {
				if _, err := p.Send(context.Background(), nil); err != nil {
					return
				}
			}
		}()
	}
	wait := r.Intn(2000)
	close(start)
	for i := 0; i < wait; i++ {
		atomic.LoadInt64(&made)
	}
	err := p.Close(context.Background())
	wg.Wait()
	if c := crash.Load(); c != nil {
		return fmt.Sprintf("a pool of size %d, %d goroutines sending while it is closed: a send panics: %v", size, senders, c)
	}
	if err != nil {
		return fmt.Sprintf("Close fails with %v", err)
	}
	if n := atomic.LoadInt64(&open); n != 0 {
		return fmt.Sprintf("a pool of size %d, %d goroutines sending while it is closed: %d of %d connections are still open after Close and all sends returned", size, senders, n, made)
	}
	return ""
}

type quick struct{ open, made *int64 }

func (q *quick) New(ctx context.Context) (netx.Conn, error) {
	atomic.AddInt64(q.open, 1)
	atomic.AddInt64(q.made, 1)
	return &qconn{q}, nil
}

type qconn struct{ q *quick }

func (c *qconn) IsSecure() bool { return false }
func (c *qconn) Close() error   { atomic.AddInt64(c.q.open, -1); return nil }
func (c *qconn) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	return nil, nil
}

func TestC20(t *testing.T) {
	r := rand.New(rand.NewSource(int64(z.Rand().Uint64())))
	for i := 0; i < 20000; i++ {
		if s := history(r, r.Intn(4)); s != "" {
			z.Fail(t, "%s", s)
		}
	}
	for i := 0; i < 30000; i++ {
		var s string
		w := &world{}
		if !w.cut("a pool used and closed by several goroutines", func() { s = duel(r, r.Intn(4)) }) {
			s = w.bad
		}
		if s != "" {
			z.Fail(t, "%s", s)
		}
	}
	for i := 0; i < 3000; i++ {
		if s := storm(r, r.Intn(4)); s != "" {
			z.Fail(t, "%s", s)
		}
	}
}
