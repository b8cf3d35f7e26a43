package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Native runs harnesses compiled by the Go compiler against the current tree.
type Native struct {
	bin            string
	race           string
	dir            string
	group          string
	repo, harness  string
	thorough       bool
	names          []string
	module         string
	once, raceOnce sync.Once
	err, raceErr   error
}

type NCase struct {
	H        string   `json:"h"`
	Vals     []uint64 `json:"vals"`
	Thorough bool     `json:"thorough"`
	Sched    []int    `json:"sched,omitempty"` // the threads in the order they pass the points of preemption
}

type NResult struct {
	Status string   `json:"status"` // ok, fail, panic, assume, hang, crash
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

const nativeMain = `package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"time"

	h "%s"
	"%s/internal/zzverif/vs"
)

var table = map[string]func(){
%s}

type ncase struct {
	H        string   ` + "`json:\"h\"`" + `
	Vals     []uint64 ` + "`json:\"vals\"`" + `
	Thorough bool     ` + "`json:\"thorough\"`" + `
	Sched    []int    ` + "`json:\"sched\"`" + `
}

type result struct {
	Status string   ` + "`json:\"status\"`" + `
	Msg    string   ` + "`json:\"msg\"`" + `
	Obs    []string ` + "`json:\"obs\"`" + `
}

func run(c ncase) (r result) {
	vs.Cur = &vs.Case{Vals: c.Vals, Tier: c.Thorough}
	vs.Replay(c.Sched)
	r.Status = "ok"
	defer func() {
		x := recover()
		if x == nil {
			x = vs.Failed()
		}
		if x != nil {
			switch x := x.(type) {
			case vs.Failure:
				r.Status, r.Msg = "fail", x.Msg
			case vs.Assumed:
				r.Status = "assume"
			default:
				r.Status, r.Msg = "panic", fmt.Sprint(x)
			}
		}
		r.Obs = vs.Cur.Obs
	}()
	%s
	table[c.H]()
	return
}

func main() {
	log.SetOutput(io.Discard)
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	out := json.NewEncoder(os.Stdout)
	for in.Scan() {
		var c ncase
		if err := json.Unmarshal(in.Bytes(), &c); err != nil {
			panic(err)
		}
		done := make(chan result, 1)
		go func() { done <- run(c) }()
		select {
		case r := <-done:
			out.Encode(r)
		case <-time.After(20 * time.Second):
			out.Encode(result{Status: "hang"})
			os.Exit(3)
		}
	}
}
`

func (n *Native) build() error {
	n.once.Do(func() { n.bin, n.err = n.compile(n.group == "conc") })
	return n.err
}

func (n *Native) compile(race bool) (string, error) {
	files, err := harnessOverlay(n.repo, n.harness)
	if err != nil {
		return "", err
	}
	sort.Strings(n.names)
	var tab strings.Builder
	for _, nm := range n.names {
		if nm != "Setup" {
			fmt.Fprintf(&tab, "\t%q: h.%s,\n", nm, nm)
		}
	}
	setup := ""
	for _, nm := range n.names {
		if nm == "Setup" {
			setup = "h.Setup()"
		}
	}
	src := fmt.Sprintf(nativeMain, n.module+"/"+overlayDir+"/"+n.group, n.module, tab.String(), setup)
	mainGo := filepath.Join(n.dir, "main_"+n.group+".go")
	if err := os.WriteFile(mainGo, []byte(src), 0o644); err != nil {
		return "", err
	}
	files[filepath.Join(n.repo, overlayDir, "cmd_"+n.group, "main.go")] = mainGo
	if race {
		if err := n.gateSync(files); err != nil {
			return "", err
		}
	}
	ov := filepath.Join(n.dir, "overlay_"+n.group+".json")
	if err := writeOverlay(ov, files); err != nil {
		return "", err
	}
	bin := filepath.Join(n.dir, "native_"+n.group)
	args := []string{"build", "-overlay", ov, "-o", bin}
	env := append(os.Environ(), "CGO_ENABLED=0")
	if race {
		bin += "_race"
		args = []string{"build", "-race", "-overlay", ov, "-o", bin}
		env = append(os.Environ(), "CGO_ENABLED=1")
	}
	args = append(args, "./"+overlayDir+"/cmd_"+n.group)
	cmd := exec.Command("go", args...)
	cmd.Dir = n.repo
	cmd.Env = env
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("native build: %v: %s", err, out)
	}
	return bin, nil
}

// gateSync has the module's code use a package sync with points of preemption.
func (n *Native) gateSync(files map[string]string) error {
	k := 0
	return filepath.Walk(n.repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return err
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, src, parser.ImportsOnly)
		if err != nil {
			return nil
		}
		out, off := string(src), 0
		for _, im := range f.Imports {
			var pkg string
			switch im.Path.Value {
			case `"sync"`:
				pkg = "gsync"
			case `"sync/atomic"`:
				pkg = "gatomic"
			default:
				continue
			}
			to := fmt.Sprintf("%q", n.module+"/"+overlayDir+"/"+pkg)
			if im.Name == nil {
				to = pkg[1:] + " " + to
			}
			at := int(im.Path.Pos()) - 1 + off
			out = out[:at] + to + out[at+len(im.Path.Value):]
			off += len(to) - len(im.Path.Value)
		}
		if off == 0 {
			return nil
		}
		k++
		dst := filepath.Join(n.dir, fmt.Sprintf("gated%d.go", k))
		files[p] = dst
		return os.WriteFile(dst, []byte(out), 0o644)
	})
}

// runCases runs cases, many of them in several processes at a time.
func (n *Native) runCases(cs []NCase) ([]NResult, error) {
	if err := n.build(); err != nil {
		return nil, err
	}
	const procs = 8
	if len(cs) < 2*procs {
		return n.runBatch(cs)
	}
	out := make([]NResult, len(cs))
	errs := make([]error, procs)
	var wg sync.WaitGroup
	for k := 0; k < procs; k++ {
		lo, hi := len(cs)*k/procs, len(cs)*(k+1)/procs
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			var r []NResult
			r, errs[k] = n.runBatch(cs[lo:hi])
			copy(out[lo:hi], r)
		}(k)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return nil, err
		}
	}
	return out, nil
}

// runBatch runs cases in one process, restarting it after a case that kills it.
func (n *Native) runBatch(cs []NCase) ([]NResult, error) {
	var out []NResult
	for len(out) < len(cs) {
		rest := cs[len(out):]
		var in bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, c := range rest {
			enc.Encode(c)
		}
		cmd := exec.Command(n.bin)
		cmd.Stdin = &in
		var errb bytes.Buffer
		cmd.Stderr = &errb
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB", "GORACE=halt_on_error=1")
		so, err := cmd.StdoutPipe()
		if err != nil {
			return nil, err
		}
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		timer := time.AfterFunc(300*time.Second, func() { cmd.Process.Kill() })
		sc := bufio.NewScanner(so)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		got := 0
		for sc.Scan() {
			var r NResult
			if json.Unmarshal(sc.Bytes(), &r) != nil {
				break
			}
			out = append(out, r)
			got++
		}
		cmd.Wait()
		timer.Stop()
		if got < len(rest) && (got == 0 || out[len(out)-1].Status != "hang") {
			msg := errb.String()
			if len(msg) > 400 {
				msg = msg[:400]
			}
			out = append(out, NResult{Status: "crash", Msg: msg})
		}
	}
	return out, nil
}
