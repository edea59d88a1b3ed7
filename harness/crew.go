package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Bren2010/katie/db"
)

// slowStore delays reads at random.
type slowStore struct {
	db.TransparencyStore
	r *lockedRand
}

type lockedRand struct {
	mu   sync.Mutex
	r    *Rand
	rate float64
}

func (l *lockedRand) delay() {
	l.mu.Lock()
	hit, long, d := l.r.P(l.rate), l.r.P(0.2), l.r.Intn(1500)
	l.mu.Unlock()
	if !hit {
		return
	} else if long {
		time.Sleep(time.Duration(d) * time.Microsecond)
	} else {
		runtime.Gosched()
	}
}

func (s slowStore) GetTreeHead() ([]byte, []byte, error) {
	s.r.delay()
	defer s.r.delay()
	return s.TransparencyStore.GetTreeHead()
}
func (s slowStore) BatchGetIndex(labels [][]byte) ([][]byte, error) {
	s.r.delay()
	return s.TransparencyStore.BatchGetIndex(labels)
}
func (s slowStore) GetVersion(label []byte, ver uint32) ([]byte, error) {
	s.r.delay()
	return s.TransparencyStore.GetVersion(label, ver)
}
func (s slowStore) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	s.r.delay()
	return s.TransparencyStore.BatchGet(keys)
}
func (s slowStore) Clone() db.TransparencyStore {
	return slowStore{s.TransparencyStore.Clone(), s.r}
}
func (s slowStore) LogStore() db.LogStore { return slowLog{s.TransparencyStore.LogStore(), s.r} }
func (s slowStore) PrefixStore() db.PrefixStore {
	return slowPrefix{s.TransparencyStore.PrefixStore(), s.r}
}

type slowLog struct {
	db.LogStore
	r *lockedRand
}

func (s slowLog) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	s.r.delay()
	return s.LogStore.BatchGet(keys)
}

type slowPrefix struct {
	db.PrefixStore
	r *lockedRand
}

func (s slowPrefix) BatchGet(keys []string) (map[string][]byte, error) {
	s.r.delay()
	return s.PrefixStore.BatchGet(keys)
}

// crew runs goroutines and collects their failures.
type crew struct {
	wg   sync.WaitGroup
	mu   sync.Mutex
	fail string
	stop atomic.Bool
}

func (c *crew) spawn(f func()) {
	c.wg.Add(1)
	go func() {
		defer c.wg.Done()
		defer func() {
			if e := recover(); e != nil {
				c.stop.Store(true)
				c.mu.Lock()
				defer c.mu.Unlock()
				if c.fail != "" {
					return
				}
				if f, ok := e.(caseFailed); ok {
					c.fail = f.msg
				} else {
					c.fail = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
				}
			}
		}()
		f()
	}()
}

func (c *crew) wait(k *Case) {
	c.wg.Wait()
	if c.fail != "" {
		k.Fail("%s", c.fail)
	}
}
