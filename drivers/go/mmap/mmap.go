// Package mmap stands in for golang.org/x/exp/mmap: the same functions over a file read at once
// (or, if it is large, mapped).
package mmap

import (
	"errors"
	"io"
	"os"
	"syscall"
)

type ReaderAt struct {
	data   []byte
	closed bool
}

func Open(filename string) (*ReaderAt, error) {
	if st, err := os.Stat(filename); err == nil && st.Size() > 1<<20 {
		f, err := os.Open(filename)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		b, err := syscall.Mmap(int(f.Fd()), 0, int(st.Size()), syscall.PROT_READ, syscall.MAP_SHARED)
		if err != nil {
			return nil, err
		}
		return &ReaderAt{data: b}, nil
	}
	b, err := os.ReadFile(filename)
	if err != nil {
		return nil, err
	}
	return &ReaderAt{data: b}, nil
}

func (r *ReaderAt) Close() error {
	r.closed = true
	r.data = nil
	return nil
}

func (r *ReaderAt) Len() int { return len(r.data) }

func (r *ReaderAt) At(i int) byte { return r.data[i] }

func (r *ReaderAt) ReadAt(p []byte, off int64) (int, error) {
	if r.closed {
		return 0, errors.New("mmap: closed")
	}
	if off < 0 || int64(len(r.data)) < off {
		return 0, errors.New("mmap: invalid ReadAt offset")
	}
	n := copy(p, r.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
