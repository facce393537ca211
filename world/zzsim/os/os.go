// Package os replaces the part of the standard os package that touches the
// process or the socket files of the simulated network. Other files never
// reach the real file system.
package os

import (
	"io/fs"
	"os"
	"syscall"
	"time"

	"ustack/zzsim"
	"ustack/zzsim/net"
)

// Exit ends the simulated process.
func Exit(code int) { zzsim.ProcessExit("os.Exit") }

// Remove ...
func Remove(name string) error {
	if zzsim.Dying() {
		return nil
	}
	zzsim.S(-60)
	if net.N().RemovePath(name) {
		return nil
	}
	return &fs.PathError{Op: "remove", Path: name, Err: syscall.ENOENT}
}

// RemoveAll ...
func RemoveAll(name string) error {
	if zzsim.Dying() {
		return nil
	}
	zzsim.S(-60)
	net.N().RemovePath(name)
	return nil
}

type info struct{ name string }

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return 0 }
func (i info) Mode() os.FileMode  { return os.ModeSocket | 0755 }
func (i info) ModTime() time.Time { return zzsim.Now() }
func (i info) IsDir() bool        { return false }
func (i info) Sys() interface{}   { return nil }

// Stat ...
func Stat(name string) (os.FileInfo, error) {
	if zzsim.Dying() {
		return nil, os.ErrNotExist
	}
	zzsim.S(-61)
	if net.N().PathExists(name) {
		return info{name}, nil
	}
	return nil, &fs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
}

// Lstat ...
func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

// Chmod ...
func Chmod(name string, mode os.FileMode) error {
	if net.N().PathExists(name) {
		return nil
	}
	return &fs.PathError{Op: "chmod", Path: name, Err: syscall.ENOENT}
}

// Getpid ...
func Getpid() int { return 4242 }
