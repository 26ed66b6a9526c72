package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

// Native side: the harness package compiled by the real toolchain against
// /repo's tree, run on concrete values chosen by the solver.

type nativeJob struct {
	H    string            `json:"h"`
	Vals map[string]uint64 `json:"vals"`
}

type nativeRes struct {
	Fails   []string `json:"fails"`
	Obs     []string `json:"obs"`
	Reached []string `json:"reached"`
	Bad     string   `json:"bad"`
	Hang    bool     `json:"hang"`
	Crash   string   `json:"crash"`
	done    bool
}

type NatRun struct {
	bin, dir string
	tier     string
}

var hRe = regexp.MustCompile(`(?m)^func ((?:H_|Setup)\w*)\(\)`)

const runnerSrc = `package main

import (
	"bufio"
	"encoding/json"
	"os"
	"time"

	h "github.com/grafana/thema/zz_verif/%s"
	"github.com/grafana/thema/zz_verif/vr"
)

var hs = map[string]func(){
%s}

type job struct {
	H    string            ` + "`json:\"h\"`" + `
	Vals map[string]uint64 ` + "`json:\"vals\"`" + `
}

func main() {
	vr.Tier = os.Getenv("VERIF_HTIER")
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<24)
	out := bufio.NewWriter(os.Stdout)
	setup := map[string]bool{}
	for sc.Scan() {
		var j job
		if err := json.Unmarshal(sc.Bytes(), &j); err != nil {
			panic(err)
		}
		done := make(chan *vr.Run, 1)
		go func() {
			s := "Setup" + j.H[1:]
			if hs[s] == nil {
				s = "Setup"
			}
			if f := hs[s]; f != nil && !setup[s] {
				setup[s] = true
				if r := vr.Do(f, nil); len(r.Fails) > 0 {
					done <- r
					return
				}
			}
			done <- vr.Do(hs[j.H], j.Vals)
		}()
		var r *vr.Run
		hang := false
		select {
		case r = <-done:
		case <-time.After(25 * time.Second):
			r, hang = &vr.Run{}, true
		}
		b, _ := json.Marshal(map[string]any{"fails": r.Fails, "obs": r.Obs, "reached": r.Reached, "bad": r.Bad, "hang": hang})
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
		if hang {
			os.Exit(3)
		}
	}
}
`

func buildNative(hpkg, tier string) (*NatRun, error) {
	dir, err := os.MkdirTemp("", "verifnative")
	if err != nil {
		return nil, err
	}
	n := &NatRun{dir: dir, bin: filepath.Join(dir, "runner"), tier: tier}
	ov, err := overlayFor(hpkg)
	if err != nil {
		return n, err
	}
	clones, err := clonesFor(hpkg, ov)
	if err != nil {
		return n, err
	}
	for k, b := range clones {
		ov[k] = filepath.Join(dir, filepath.Base(k))
		if err := os.WriteFile(ov[k], b, 0o644); err != nil {
			return n, err
		}
	}
	ents, _ := os.ReadDir(filepath.Join(verifDir, "harness", hpkg))
	var tab []string
	for _, e := range ents {
		b, _ := os.ReadFile(filepath.Join(verifDir, "harness", hpkg, e.Name()))
		for _, mm := range hRe.FindAllStringSubmatch(string(b), -1) {
			tab = append(tab, fmt.Sprintf("\t%q: h.%s,\n", mm[1], mm[1]))
		}
	}
	sort.Strings(tab)
	mainF := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mainF, []byte(fmt.Sprintf(runnerSrc, hpkg, strings.Join(tab, ""))), 0o644); err != nil {
		return n, err
	}
	ov[filepath.Join(repoDir, "zz_verif", "zzmain", "main.go")] = mainF
	j, _ := json.Marshal(map[string]any{"Replace": ov})
	ovF := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovF, j, 0o644); err != nil {
		return n, err
	}
	cmd := exec.Command(filepath.Join(goBin, "go"), "build", "-overlay", ovF, "-o", n.bin, "./zz_verif/zzmain")
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return n, fmt.Errorf("native build: %v: %s", err, out)
	}
	return n, nil
}

func (n *NatRun) close() {
	if n != nil && n.dir != "" && strings.Contains(n.dir, "verifnative") {
		os.RemoveAll(n.dir)
	}
}

// run executes jobs in one process (restarting after a crash or hang).
func (n *NatRun) run(jobs []nativeJob, deadline time.Time) ([]nativeRes, error) {
	res := make([]nativeRes, len(jobs))
	for i := 0; i < len(jobs); {
		if time.Now().After(deadline) {
			return res, fmt.Errorf("native time budget")
		}
		var in bytes.Buffer
		for _, j := range jobs[i:] {
			b, _ := json.Marshal(j)
			in.Write(b)
			in.WriteByte('\n')
		}
		cmd := exec.Command("bash", "-c", "ulimit -v 14000000; exec \"$0\"", n.bin)
		cmd.Dir = n.dir
		cmd.Stdin = &in
		var errb bytes.Buffer
		cmd.Stderr = &errb
		cmd.Env = append(os.Environ(), "VERIF_HTIER="+n.tier, "GOMEMLIMIT=6GiB")
		out, err := cmd.StdoutPipe()
		if err != nil {
			return res, err
		}
		if err := cmd.Start(); err != nil {
			return res, err
		}
		kill := time.AfterFunc(time.Until(deadline)+5*time.Second, func() { cmd.Process.Kill() })
		sc := bufio.NewScanner(out)
		sc.Buffer(nil, 1<<26)
		for sc.Scan() && i < len(jobs) {
			var r nativeRes
			if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
				continue // stray output of the code under test
			}
			r.done = true
			res[i] = r
			i++
		}
		err = cmd.Wait()
		kill.Stop()
		if err != nil && i < len(jobs) {
			if i > 0 && res[i-1].Hang {
				continue
			}
			if time.Now().After(deadline) {
				return res, fmt.Errorf("native time budget")
			}
			msg := errb.String()
			if len(msg) > 600 {
				msg = msg[:600]
			}
			if full := errb.String(); (strings.Contains(full, "panic:") || strings.Contains(full, "fatal error:")) && !strings.Contains(full, "out of memory") {
				res[i] = nativeRes{done: true, Crash: msg + " " + err.Error(), Fails: []string{"panic"}}
			} else {
				res[i] = nativeRes{done: true, Bad: "runner ended: " + msg + " " + err.Error()}
			}
			i++
		}
		if err == nil && i < len(jobs) {
			return res, fmt.Errorf("native runner ended early")
		}
	}
	return res, nil
}
