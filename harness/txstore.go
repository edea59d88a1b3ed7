package main

import (
	"bytes"
	"errors"
	"fmt"
	"sync"

	"github.com/Bren2010/katie/db"
)

// txStore is a database with the semantics of the LevelDB store: changes are
// visible to this handle at once, and are made durable or dropped by Commit.
// Operations can be made to fail.
type txStore struct {
	mu    sync.Mutex
	kv    map[string][]byte // committed
	batch map[string][]byte

	onRead   func(key string) error
	onWrite  func(key string) error
	onCommit func() error
}

func newTxStore() *txStore {
	return &txStore{kv: make(map[string][]byte), batch: make(map[string][]byte)}
}

func (s *txStore) get(key string) ([]byte, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.onRead != nil {
		if err := s.onRead(key); err != nil {
			return nil, err
		}
	}
	if v, ok := s.batch[key]; ok {
		return bytes.Clone(v), nil
	}
	return bytes.Clone(s.kv[key]), nil
}

func (s *txStore) put(key string, v []byte) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.onWrite != nil {
		if err := s.onWrite(key); err != nil {
			return err
		}
	}
	s.batch[key] = bytes.Clone(v)
	return nil
}

func (s *txStore) Commit() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	batch := s.batch
	s.batch = make(map[string][]byte)
	if s.onCommit != nil {
		if err := s.onCommit(); err != nil {
			return err
		}
	}
	for k, v := range batch {
		if v == nil {
			delete(s.kv, k)
		} else {
			s.kv[k] = v
		}
	}
	return nil
}

func (s *txStore) Clone() db.TransparencyStore { return &txClone{s} }

func (s *txStore) GetTreeHead() ([]byte, []byte, error) {
	head, err := s.get("head")
	if err != nil || head == nil {
		return nil, nil, err
	}
	aud, err := s.get("aud")
	return head, aud, err
}
func (s *txStore) PutTreeHead(raw []byte) error        { return s.put("head", raw) }
func (s *txStore) PutAuditorTreeHead(raw []byte) error { return s.put("aud", raw) }

func (s *txStore) BatchGetIndex(labels [][]byte) ([][]byte, error) {
	out := make([][]byte, len(labels))
	for i, l := range labels {
		v, err := s.get(fmt.Sprintf("i%x", l))
		if err != nil {
			return nil, err
		}
		out[i] = v
	}
	return out, nil
}
func (s *txStore) PutIndex(label, index []byte) error {
	if index == nil {
		return errors.New("nil value")
	}
	return s.put(fmt.Sprintf("i%x", label), index)
}
func (s *txStore) DeleteIndex(label []byte) error { return s.put(fmt.Sprintf("i%x", label), nil) }
func (s *txStore) GetVersion(label []byte, ver uint32) ([]byte, error) {
	return s.get(fmt.Sprintf("v%x:%d", label, ver))
}
func (s *txStore) PutVersion(label []byte, ver uint32, data []byte) error {
	if data == nil {
		return errors.New("nil value")
	}
	return s.put(fmt.Sprintf("v%x:%d", label, ver), data)
}
func (s *txStore) DeleteVersion(label []byte, ver uint32) error {
	return s.put(fmt.Sprintf("v%x:%d", label, ver), nil)
}
func (s *txStore) BatchGet(keys []uint64) (map[uint64][]byte, error) { return s.batchGet("t", keys) }
func (s *txStore) batchGet(p string, keys []uint64) (map[uint64][]byte, error) {
	out := make(map[uint64][]byte)
	for _, k := range keys {
		v, err := s.get(fmt.Sprintf("%s%d", p, k))
		if err != nil {
			return nil, err
		} else if v != nil {
			out[k] = v
		}
	}
	return out, nil
}
func (s *txStore) Put(key uint64, data []byte) error { return s.put(fmt.Sprintf("t%d", key), data) }
func (s *txStore) Delete(key uint64) error           { return s.put(fmt.Sprintf("t%d", key), nil) }
func (s *txStore) LogStore() db.LogStore             { return txLog{s} }
func (s *txStore) PrefixStore() db.PrefixStore       { return txPrefix{s} }

type txLog struct{ s *txStore }

func (l txLog) BatchGet(keys []uint64) (map[uint64][]byte, error) { return l.s.batchGet("l", keys) }
func (l txLog) Put(key uint64, v []byte) error                    { return l.s.put(fmt.Sprintf("l%d", key), v) }
func (l txLog) Delete(key uint64) error                           { return l.s.put(fmt.Sprintf("l%d", key), nil) }

type txPrefix struct{ s *txStore }

func (p txPrefix) BatchGet(keys []string) (map[string][]byte, error) {
	out := make(map[string][]byte)
	for _, k := range keys {
		v, err := p.s.get("p" + k)
		if err != nil {
			return nil, err
		} else if v != nil {
			out[k] = v
		}
	}
	return out, nil
}
func (p txPrefix) Put(key string, v []byte) error { return p.s.put("p"+key, v) }
func (p txPrefix) Delete(key string) error        { return p.s.put("p"+key, nil) }

// txClone is a read-only clone; it refuses writes like the LevelDB store does.
type txClone struct{ *txStore }

func (c *txClone) Commit() error                                { panic("connection is readonly") }
func (c *txClone) PutTreeHead([]byte) error                     { panic("connection is readonly") }
func (c *txClone) PutAuditorTreeHead([]byte) error              { panic("connection is readonly") }
func (c *txClone) PutIndex(label, index []byte) error           { panic("connection is readonly") }
func (c *txClone) DeleteIndex(label []byte) error               { panic("connection is readonly") }
func (c *txClone) PutVersion([]byte, uint32, []byte) error      { panic("connection is readonly") }
func (c *txClone) DeleteVersion(label []byte, ver uint32) error { panic("connection is readonly") }
func (c *txClone) Put(key uint64, data []byte) error            { panic("connection is readonly") }
func (c *txClone) Delete(key uint64) error                      { panic("connection is readonly") }
func (c *txClone) Clone() db.TransparencyStore                  { return c }
