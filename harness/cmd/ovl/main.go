// Command ovl writes a go build overlay for the sources of the code under
// test as they are now, and for the two files of the Go runtime through
// which the harness decides map iteration order and identifies goroutines.
//
//	ovl REPO GOROOT OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var shims = map[string][2]string{
	"sync":        {"sync", "verif.local/vsync"},
	"sync/atomic": {"atomic", "verif.local/vatomic"},
}

func main() {
	repo, goroot, out := os.Args[1], os.Args[2], os.Args[3]
	replace := map[string]string{}
	n := 0
	put := func(path string, data []byte) {
		n++
		fn := filepath.Join(out, fmt.Sprintf("%d_%s", n, filepath.Base(path)))
		check(os.WriteFile(fn, data, 0644))
		replace[path] = fn
	}

	check(filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		base := filepath.Base(path)
		if fi.IsDir() {
			if path != repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		if res, ok := rewrite(path, src); ok {
			put(path, res)
		}
		return nil
	}))

	// map iteration
	tbl := filepath.Join(goroot, "src/internal/runtime/maps/table.go")
	src, err := os.ReadFile(tbl)
	check(err)
	s := string(src)
	s = must(s, "it.entryOffset = rand()", "it.entryOffset = verifOffset(m, groupSmall)")
	s = must(s, "it.dirOffset = rand()", "it.dirOffset = verifDir()")
	s += mapsrc
	put(tbl, []byte(s))

	put(filepath.Join(goroot, "src/runtime/zz_verif.go"), []byte(runtimesrc))

	b, err := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644))
}

func rewrite(path string, src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ImportsOnly)
	if err != nil {
		return nil, false // the build will report it
	}
	out := string(src)
	done := false
	for i := len(f.Imports) - 1; i >= 0; i-- {
		spec := f.Imports[i]
		p, err := strconv.Unquote(spec.Path.Value)
		if err != nil {
			continue
		}
		shim, ok := shims[p]
		if !ok {
			continue
		}
		from, to := fset.Position(spec.Path.Pos()).Offset, fset.Position(spec.Path.End()).Offset
		text := strconv.Quote(shim[1])
		if spec.Name == nil {
			text = shim[0] + " " + text
		}
		out = out[:from] + text + out[to:]
		done = true
	}
	return []byte(out), done
}

func must(s, old, new string) string {
	if !strings.Contains(s, old) {
		check(fmt.Errorf("no %q in the runtime's sources", old))
	}
	return strings.Replace(s, old, new, 1)
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "ovl:", err)
		os.Exit(3)
	}
}

const runtimesrc = `package runtime

import _ "unsafe"

//go:linkname verifGoid
func verifGoid() uint64 { return getg().goid }
`

const mapsrc = `

type verifStateT struct {
	Mode   int // 0 off, 1 constant, 2 scripted
	Const  int
	N      int
	Len    int
	Over   bool
	Choice [1024]uint8
	Width  [1024]uint8
}

var verifState verifStateT

func verifChoose(w int) int {
	s := &verifState
	if s.Mode == 1 {
		return s.Const % w
	}
	if w <= 1 {
		return 0
	}
	if s.N >= len(s.Choice) {
		s.Over = true
		return 0
	}
	k := s.N
	s.N++
	c := 0
	if k < s.Len {
		c = int(s.Choice[k])
		if c >= w {
			s.Over = true
			c = w - 1
		}
	}
	s.Choice[k] = uint8(c)
	s.Width[k] = uint8(w)
	return c
}

// verifOffset returns the offset that iteration starts at. In a map of one
// group the orders that can happen are the rotations that start at one of
// the slots in use.
func verifOffset(m *Map, g groupReference) uint64 {
	if verifState.Mode == 0 {
		return rand()
	}
	if m.dirLen > 0 {
		if verifState.Mode == 1 {
			return uint64(verifState.Const * 3)
		}
		return uint64(verifChoose(2) * 5)
	}
	var slots [8]int
	n := 0
	for i := uintptr(0); i < 8; i++ {
		if (g.ctrls().get(i) & ctrlEmpty) != ctrlEmpty {
			slots[n] = int(i)
			n++
		}
	}
	if n == 0 {
		return 0
	}
	return uint64(slots[verifChoose(n)])
}

func verifDir() uint64 {
	if verifState.Mode == 0 {
		return rand()
	}
	return 0
}
`
