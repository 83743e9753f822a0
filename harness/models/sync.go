package models

import (
	"sync"
	"time"
)

type syncEntry struct {
	k, v any
}

type syncMap struct {
	m  *sync.Map
	mu sync.Mutex
	e  []syncEntry
}

var syncMaps []*syncMap
var syncMapsMu sync.Mutex

func syncMapOf(m *sync.Map) *syncMap {
	syncMapsMu.Lock()
	defer syncMapsMu.Unlock()
	for _, x := range syncMaps {
		if x.m == m {
			return x
		}
	}
	x := &syncMap{m: m}
	syncMaps = append(syncMaps, x)
	return x
}

func (x *syncMap) find(k any) int {
	for i := range x.e {
		if x.e[i].k == k {
			return i
		}
	}
	return -1
}

func SyncMapLoad(m *sync.Map, k any) (any, bool) {
	x := syncMapOf(m)
	x.mu.Lock()
	defer x.mu.Unlock()
	if i := x.find(k); i >= 0 {
		return x.e[i].v, true
	}
	return nil, false
}

func SyncMapSwap(m *sync.Map, k, v any) (any, bool) {
	x := syncMapOf(m)
	x.mu.Lock()
	defer x.mu.Unlock()
	if i := x.find(k); i >= 0 {
		old := x.e[i].v
		x.e[i].v = v
		return old, true
	}
	x.e = append(x.e, syncEntry{k, v})
	return nil, false
}

func SyncMapStore(m *sync.Map, k, v any) { SyncMapSwap(m, k, v) }

func SyncMapLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	x := syncMapOf(m)
	x.mu.Lock()
	defer x.mu.Unlock()
	if i := x.find(k); i >= 0 {
		return x.e[i].v, true
	}
	x.e = append(x.e, syncEntry{k, v})
	return v, false
}

func SyncMapLoadAndDelete(m *sync.Map, k any) (any, bool) {
	x := syncMapOf(m)
	x.mu.Lock()
	defer x.mu.Unlock()
	if i := x.find(k); i >= 0 {
		v := x.e[i].v
		x.e = append(append([]syncEntry{}, x.e[:i]...), x.e[i+1:]...)
		return v, true
	}
	return nil, false
}

func SyncMapDelete(m *sync.Map, k any) { SyncMapLoadAndDelete(m, k) }

func SyncMapClear(m *sync.Map) {
	x := syncMapOf(m)
	x.mu.Lock()
	defer x.mu.Unlock()
	x.e = nil
}

func SyncMapRange(m *sync.Map, f func(k, v any) bool) {
	x := syncMapOf(m)
	x.mu.Lock()
	es := append([]syncEntry{}, x.e...)
	x.mu.Unlock()
	for _, e := range es {
		if !f(e.k, e.v) {
			return
		}
	}
}

// Time stands still.
func TimeNow() time.Time                  { return time.Time{} }
func TimeSince(t time.Time) time.Duration { return 0 }
func TimeSleep(d time.Duration)           {}
