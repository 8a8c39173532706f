package eng

import (
	"encoding/binary"
	"os"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Slots is a small shared file in which each worker notes the case it is
// working on, so that a crash of the process can be traced to a case.
const (
	slotSize = 256
	maxSlots = 128
)

type Slots struct {
	mem []byte
}

func OpenSlots(path string) (*Slots, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(slotSize * maxSlots); err != nil {
		return nil, err
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, slotSize*maxSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &Slots{m}, nil
}

func (s *Slots) word(k, w int) *int64 {
	return (*int64)(unsafe.Pointer(&s.mem[k*slotSize+8*w]))
}

// Begin notes that worker k starts case i of the sub-check.
func (s *Slots) Begin(k int, sub string, i int64) {
	if s == nil || k >= maxSlots {
		return
	}
	b := s.mem[k*slotSize:]
	n := len(sub)
	if n > slotSize-40 {
		n = slotSize - 40
	}
	binary.LittleEndian.PutUint64(b[24:], uint64(n))
	copy(b[32:], sub[:n])
	atomic.StoreInt64(s.word(k, 1), i)
	atomic.StoreInt64(s.word(k, 2), time.Now().UnixNano())
	atomic.StoreInt64(s.word(k, 0), 1)
}

func (s *Slots) End(k int) {
	if s == nil || k >= maxSlots {
		return
	}
	atomic.StoreInt64(s.word(k, 0), 0)
}

type Slot struct {
	Sub   string
	Index int64
	Since time.Time
}

// Active lists the cases in progress.
func (s *Slots) Active() []Slot {
	var out []Slot
	for k := 0; k < maxSlots; k++ {
		if atomic.LoadInt64(s.word(k, 0)) == 0 {
			continue
		}
		b := s.mem[k*slotSize:]
		n := binary.LittleEndian.Uint64(b[24:])
		if n > slotSize-40 {
			continue
		}
		out = append(out, Slot{string(b[32 : 32+n]), atomic.LoadInt64(s.word(k, 1)), time.Unix(0, atomic.LoadInt64(s.word(k, 2)))})
	}
	return out
}
