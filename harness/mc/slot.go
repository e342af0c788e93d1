package mc

import (
	"os"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// slot is a worker's current execution, in a file both the supervisor and the worker map.
type slot struct {
	Active uint32 // 0 idle, 1 running, 2 found hanging
	Len    uint32
	Start  int64
	Name   [64]byte
	Vec    [slotInts]int16
}

const (
	slotInts  = 4096
	slotCount = 32
)

func (s *slot) begin(name string) {
	s.Len = 0
	n := copy(s.Name[:], name)
	for i := n; i < len(s.Name); i++ {
		s.Name[i] = 0
	}
	atomic.StoreInt64(&s.Start, time.Now().UnixNano())
	atomic.StoreUint32(&s.Active, 1)
}

func (s *slot) put(i, v int) {
	if i < slotInts {
		s.Vec[i] = int16(v)
		s.Len = uint32(i + 1)
	}
}

func (s *slot) end() { atomic.StoreUint32(&s.Active, 0) }

func (s *slot) name() string {
	for i, b := range s.Name {
		if b == 0 {
			return string(s.Name[:i])
		}
	}
	return string(s.Name[:])
}

func (s *slot) vec() []int {
	r := []int{}
	for i := 0; i < int(s.Len) && i < slotInts; i++ {
		r = append(r, int(s.Vec[i]))
	}
	return r
}

func mapSlots(path string, create bool) ([]*slot, error) {
	flag := os.O_RDWR
	if create {
		flag |= os.O_CREATE | os.O_TRUNC
	}
	f, err := os.OpenFile(path, flag, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	size := int(unsafe.Sizeof(slot{})) * slotCount
	if create {
		if err := f.Truncate(int64(size)); err != nil {
			return nil, err
		}
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	var r []*slot
	for i := 0; i < slotCount; i++ {
		r = append(r, (*slot)(unsafe.Pointer(&b[i*int(unsafe.Sizeof(slot{}))])))
	}
	return r, nil
}
