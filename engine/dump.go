package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// symgo overlay PROPERTY DIR: writes the generated harness files to DIR.
func init() {
	extraCmds["overlay"] = func(a []string) {
		c := &ctx{prop: a[0], verif: "/verif", repo: "/repo", overlay: map[string][]byte{}, cfg: props[a[0]], tier: "quick"}
		if v := os.Getenv("VERIF_REPO"); v != "" {
			c.repo = v
		}
		c.tmp, _ = os.MkdirTemp("", "symgo")
		defer os.RemoveAll(c.tmp)
		if err := c.buildOverlay(); err != nil {
			fmt.Println(err)
		}
		for p, b := range c.overlay {
			d := filepath.Join(a[1], strings.TrimPrefix(p, c.repo))
			os.MkdirAll(filepath.Dir(d), 0777)
			os.WriteFile(d, b, 0666)
		}
	}
}
