// Command instr prepares the overlay the simulator is built with.
//
// It rewrites, outside /repo, every non-test Go file of the library so that a
// yield point precedes each statement, and patches the runtime's random source
// so that hash seeds and map iteration order come from the simulator.
// Nothing in /repo or in GOROOT is modified: the result is an -overlay file.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func die(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"instr:"}, a...)...)
	os.Exit(2)
}

func main() {
	if len(os.Args) != 4 {
		die("usage: instr GOROOT REPO OUTDIR")
	}
	goroot, repo, out := os.Args[1], os.Args[2], os.Args[3]
	overlay := map[string]string{}
	patchRand(goroot, out, overlay)
	patchSema(goroot, out, overlay)
	patchTime(goroot, out, overlay)
	if os.Getenv("INSTR_PLAIN") == "1" {
		finish(out, overlay, nil)
		return
	}

	site := 0
	var sites []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		base := fi.Name()
		if fi.IsDir() {
			if p != repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		res, ok := instrument(p, src, &site, &sites)
		if !ok {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		dst := filepath.Join(out, "src", rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		overlay[p] = dst
		return os.WriteFile(dst, res, 0o644)
	})
	if err != nil {
		die(err)
	}
	finish(out, overlay, sites)
}

func finish(out string, overlay map[string]string, sites []string) {
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		die(err)
	}
	var txt strings.Builder
	for _, s := range sites {
		txt.WriteString(s + "\n")
	}
	if err := os.WriteFile(filepath.Join(out, "sites.txt"), []byte(txt.String()), 0o644); err != nil {
		die(err)
	}
}

type insertion struct {
	off  int
	text string
}

// instrument inserts a call before every statement of every function body.
// It works on the text, so line numbers in panics stay those of the original.
func instrument(path string, src []byte, site *int, sites *[]string) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		die(err) // the library does not even parse: this is not for us to judge
	}
	if f.Name.Name == "main" {
		return nil, false
	}
	var ins []insertion
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(p token.Pos) {
		*site++
		pos := fset.Position(p)
		*sites = append(*sites, fmt.Sprintf("%d %s:%d", *site, filepath.Base(path), pos.Line))
		ins = append(ins, insertion{off(p), fmt.Sprintf("verifrt.VerifYield(%d); ", *site)})
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(s.Pos())
		}
	}
	skip := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			skip[n.Body] = true
		case *ast.TypeSwitchStmt:
			skip[n.Body] = true
		case *ast.SelectStmt:
			skip[n.Body] = true
		}
		return true
	})
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if !skip[n] {
				list(n.List)
			}
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	if len(ins) == 0 {
		return nil, false
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var b strings.Builder
	// the import goes on the package clause's line
	pk := off(f.Name.End())
	b.Write(src[:pk])
	b.WriteString("; import verifrt \"runtime\"")
	last := pk
	for _, in := range ins {
		b.Write(src[last:in.off])
		b.WriteString(in.text)
		last = in.off
	}
	b.Write(src[last:])
	return []byte(b.String()), true
}

// patch writes a copy of a file of the runtime with some text replaced.
func patch(goroot, name, out string, overlay map[string]string, rep ...string) {
	p := filepath.Join(goroot, "src", "runtime", name)
	b, err := os.ReadFile(p)
	if err != nil {
		die(err)
	}
	s := string(b)
	for i := 0; i < len(rep); i += 2 {
		if strings.Count(s, rep[i]) != 1 {
			die("runtime/"+name+" is not the expected one, cannot find:", rep[i])
		}
		s = strings.Replace(s, rep[i], rep[i+1], 1)
	}
	dst := filepath.Join(out, name)
	if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
		die(err)
	}
	overlay[p] = dst
}

// patchSema makes the simulator's tasks switch instead of blocking on a lock.
func patchSema(goroot, out string, overlay map[string]string) {
	const guard = "\tif verifTakes(addr) {\n\t\treturn\n\t}\n"
	var rep []string
	for _, f := range []string{
		"func internal_sync_runtime_SemacquireMutex(addr *uint32, lifo bool, skipframes int) {\n",
		"func sync_runtime_SemacquireRWMutexR(addr *uint32, lifo bool, skipframes int) {\n",
		"func sync_runtime_SemacquireRWMutex(addr *uint32, lifo bool, skipframes int) {\n",
	} {
		rep = append(rep, f, f+guard)
	}
	rep = append(rep, "func readyWithTime(", `var (
	verifBlock func() bool
	verifOwner uint64
)

// VerifSetBlock sets the function called when the simulated task would block
// on a lock. It lets another task run and returns true to try again.
func VerifSetBlock(f func() bool) { verifBlock = f }

// VerifOwn makes the calling goroutine the one which is simulated.
func VerifOwn() { verifOwner = getg().goid }

func verifTakes(addr *uint32) bool {
	if verifBlock == nil || getg().goid != verifOwner {
		return false
	}
	for !cansemacquire(addr) {
		if !verifBlock() {
			return false
		}
	}
	return true
}

func readyWithTime(`)
	patch(goroot, "sema.go", out, overlay, rep...)
}

// patchTime hands the clocks to the simulator: package time asks it first.
func patchTime(goroot, out string, overlay map[string]string) {
	patch(goroot, "time.go", out, overlay,
		"func time_runtimeNow() (sec int64, nsec int32, mono int64) {\n", `func time_runtimeNow() (sec int64, nsec int32, mono int64) {
	if verifNow != nil && getg().goid == verifOwner {
		if w, m := verifNow(); w != 0 {
			return w / 1000000000, int32(w % 1000000000), m
		}
	}
`,
		"//go:linkname time_runtimeNano time.runtimeNano\n", `var verifNow func() (wall, mono int64)

// VerifSetNow sets the function which tells the simulated time.
func VerifSetNow(f func() (wall, mono int64)) { verifNow = f }

//go:linkname time_runtimeNano time.runtimeNano
`,
		"func time_runtimeNano() int64 {\n", `func time_runtimeNano() int64 {
	if verifNow != nil && getg().goid == verifOwner {
		if w, m := verifNow(); w != 0 {
			return m
		}
	}
`)
}

func patchRand(goroot, out string, overlay map[string]string) {
	var reps []string
	rep := func(old, new string) { reps = append(reps, old, new) }
	rep("\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i*7 + 1)\n\t}\n\tglobalRand.state.Init(*seed)\n")
	rep("\tmp.cheaprand = uint32(rand())\n\tmp.cheaprand64 = rand()\n", "\tmp.cheaprand = uint32(verifRand0())\n\tmp.cheaprand64 = verifRand0()\n")
	rep("//go:nosplit\n//go:linkname rand\nfunc rand() uint64 {\n", `//go:nosplit
//go:linkname rand
func rand() uint64 {
	if verifOn {
		verifDraws++
		verifState += 0x9e3779b97f4a7c15
		z := verifState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	return verifRand0()
}

var (
	verifOn    bool
	verifState uint64
	verifDraws uint64
	verifHook  func(int)
)

// VerifSeed puts hash seeds and map iteration order under the simulator's
// control. It returns the previous state.
func VerifSeed(on bool, seed uint64) (state, draws uint64) {
	state, draws = verifState, verifDraws
	verifOn, verifState, verifDraws = on, seed, 0
	return
}

// VerifSetHook sets the function called at every yield point.
func VerifSetHook(f func(int)) { verifHook = f }

// VerifYield is called before every statement of the library.
func VerifYield(site int) {
	if verifHook != nil && getg().goid == verifOwner {
		verifHook(site)
	}
}

//go:nosplit
func verifRand0() uint64 {
`)
	patch(goroot, "rand.go", out, overlay, reps...)
}
