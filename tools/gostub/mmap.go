// Package mmap stands in for golang.org/x/exp/mmap in the analysis: only its declarations matter.
package mmap

import "errors"

// ReaderAt reads a memory-mapped file.
type ReaderAt struct{ data []byte }

// Open memory-maps the named file for reading.
func Open(filename string) (*ReaderAt, error) { return nil, errors.New(filename) }

// Close closes the reader.
func (r *ReaderAt) Close() error { return nil }

// Len returns the length of the underlying memory-mapped file.
func (r *ReaderAt) Len() int { return len(r.data) }

// At returns the byte at index i.
func (r *ReaderAt) At(i int) byte { return r.data[i] }

// ReadAt implements the io.ReaderAt interface.
func (r *ReaderAt) ReadAt(p []byte, off int64) (int, error) { return copy(p, r.data[off:]), nil }
