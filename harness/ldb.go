package main

import (
	"os"
	"path/filepath"
	"reflect"
	"unsafe"

	"github.com/Bren2010/katie/db"
	"github.com/syndtr/goleveldb/leveldb"
)

// openLDB opens a LevelDB database. The returned function closes it, which the
// interface of katie has no operation for; it is only used to limit what a
// check leaks and is a no-op if the connection can't be found.
func openLDB(dir string) (db.TransparencyStore, func(), error) {
	s, err := db.NewLDBTransparencyStore(dir)
	if err != nil {
		return nil, nil, err
	}
	conn := findLDB(reflect.ValueOf(s), 0)
	return s, func() {
		if conn != nil {
			conn.Close()
		}
	}, nil
}

func findLDB(v reflect.Value, depth int) *leveldb.DB {
	if depth > 6 || !v.IsValid() {
		return nil
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		} else if v.Type() == reflect.TypeFor[*leveldb.DB]() {
			return (*leveldb.DB)(unsafe.Pointer(v.Pointer()))
		}
		return findLDB(v.Elem(), depth+1)
	case reflect.Interface:
		return findLDB(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if c := findLDB(v.Field(i), depth+1); c != nil {
				return c
			}
		}
	}
	return nil
}

// dirFiles reads all files of a directory.
func dirFiles(dir string) map[string][]byte {
	out := make(map[string][]byte)
	for _, e := range must(os.ReadDir(dir)) {
		raw, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if os.IsNotExist(err) {
			continue // removed in the meantime
		}
		check(err)
		out[e.Name()] = raw
	}
	return out
}

func writeFiles(dir string, files map[string][]byte) {
	check(os.MkdirAll(dir, 0755))
	for name, raw := range files {
		check(os.WriteFile(filepath.Join(dir, name), raw, 0644))
	}
}

func removeDir(dir string) {
	if len(dir) < 6 {
		panic("harness: refusing to remove " + dir)
	}
	os.RemoveAll(dir)
}

// over is this world as of its first n entries over another database.
func (w *World) over(store db.TransparencyStore, n uint64) *World {
	out := *w
	out.store = store
	out.hist = append([]Entry(nil), w.hist[:n]...)
	out.cur = make(map[string][]Ver)
	if n > 0 {
		for l, v := range w.hist[n-1].Labels {
			out.cur[l] = v
		}
	}
	out.audSize = min(out.audSize, n)
	return &out
}
