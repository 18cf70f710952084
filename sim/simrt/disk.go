//go:build go1.21

package simrt

import (
	"io"
	"syscall"
	"time"
)

// LogFile stands in for the rolling log file (lumberjack.Logger): a file on a
// simulated disk that fills up, fails, writes short or stalls.
type LogFile struct {
	Filename   string
	MaxSize    int
	MaxAge     int
	MaxBackups int
	LocalTime  bool
	Compress   bool

	turn chan struct{}
}

func (f *LogFile) Write(p []byte) (int, error) {
	s := S
	if s == nil {
		return len(p), nil
	}
	g := s.Cur()
	if g == nil || g.killed || g.Node == NodeHarness {
		return len(p), nil
	}
	if f.turn == nil {
		f.turn = make(chan struct{}, 1)
	}
	SendTo(f.turn)(struct{}{}) // one write at a time
	defer Recv(f.turn)
	s.Stats["log-write"]++
	if s.Cfg.DiskPm == 0 || s.Ch.Choose(1000) < 1000-s.Cfg.DiskPm {
		return len(p), nil
	}
	k := s.Ch.Choose(4)
	if k == 3 && s.Cfg.StallPm == 0 {
		k = 0
	}
	switch k {
	case 0:
		s.Stats["fault:disk-full"]++
		return 0, syscall.ENOSPC
	case 1:
		s.Stats["fault:disk-error"]++
		return 0, syscall.EIO
	case 2:
		s.Stats["fault:disk-short-write"]++
		return len(p) / 2, io.ErrShortWrite
	}
	if s.StallTotal < 4*s.Cfg.StallMax {
		d := time.Duration(1+s.Ch.Choose(1000)) * s.Cfg.StallMax / 1000
		s.StallTotal += d
		s.Stats["fault:disk-stall"]++
		Sleep(d)
	}
	return len(p), nil
}

func (f *LogFile) Close() error  { return nil }
func (f *LogFile) Rotate() error { return nil }
