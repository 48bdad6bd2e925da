package os

import (
	"io/fs"
	"time"

	"github.com/zeldovich/go-rpcgen/zz_verif/f/ffs"
)

type info struct{ n *ffs.Node }

func (i info) Name() string       { return i.n.Name }
func (i info) Size() int64        { return int64(len(i.n.Data)) }
func (i info) Mode() fs.FileMode  { return 0644 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() interface{}   { return nil }
