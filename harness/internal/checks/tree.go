package checks

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// snapshot records everything observable about a directory tree.
func snapshot(dir string) map[string]string {
	out := map[string]string{}
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case i.IsDir():
			out[rel] = "dir " + i.Mode().String()
		case i.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			h := sha256.Sum256(b)
			out[rel] = fmt.Sprintf("file %s %d bytes %s", i.Mode(), len(b), hex.EncodeToString(h[:6]))
		default:
			l, _ := os.Readlink(p)
			out[rel] = i.Mode().String() + l
		}
		return nil
	})
	return out
}

// changes lists the differences of two snapshots.
func changes(a, b map[string]string) []string {
	var out []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, "removed "+k)
		} else if v != w {
			out = append(out, "changed "+k+" ("+v+" -> "+w+")")
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			out = append(out, "created "+k+" ("+v+")")
		}
	}
	sort.Strings(out)
	return out
}

// crashed tells whether a Go program died of a panic.
func crashed(stderr string) bool {
	return strings.Contains(stderr, "panic: ") && strings.Contains(stderr, "goroutine ") || strings.Contains(stderr, "fatal error: ") && strings.Contains(stderr, "goroutine ")
}
