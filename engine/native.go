package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
)

// scratch holds every build product of one run; it is removed at the end.
var scratch string

var repoDir = "/repo"
var verifDir = "/verif"

// writeModfile copies /repo's go.mod (and go.sum), optionally replacing the
// hash module with a hooked copy.
func writeModfile(path, hashDir string) error {
	b, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return err
	}
	s := string(b)
	if hashDir != "" {
		s += "\nreplace github.com/arr-ai/hash => " + hashDir + "\n"
	}
	if err := os.WriteFile(path, []byte(s), 0o644); err != nil {
		return err
	}
	b, err = os.ReadFile(filepath.Join(repoDir, "go.sum"))
	if err != nil {
		return err
	}
	return os.WriteFile(strings.TrimSuffix(path, ".mod")+".sum", b, 0o644)
}

// hookHash copies the hash module and lets it consult the solver's tables.
func hookHash(dir string) error {
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "github.com/arr-ai/hash")
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("locating arr-ai/hash: %v", err)
	}
	src := strings.TrimSpace(string(out))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	ents, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	for _, e := range ents {
		if e.IsDir() || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, e.Name()))
		if err != nil {
			return err
		}
		if e.Name() == "hash.go" {
			s := string(b)
			s = strings.Replace(s, "func Any(i any, seed Seed) Seed {", "func Any(i any, seed Seed) Seed {\n\tif ModelHook != nil {\n\t\tif h, ok := ModelHook(i, seed); ok {\n\t\t\treturn h\n\t\t}\n\t}", 1)
			for _, k := range []string{"Int", "Int8", "Int16", "Int32", "Int64", "Uint", "Uint8", "Uint16", "Uint32", "Uint64"} {
				sig := fmt.Sprintf("func %s(x %s, seed Seed) Seed {", k, strings.ToLower(k))
				s = strings.Replace(s, sig, sig+fmt.Sprintf("\n\tif ModelK != nil {\n\t\treturn ModelK(%q, uint64(x), seed)\n\t}", strings.ToLower(k)), 1)
			}
			sig := "func Uintptr(x, seed Seed) Seed {"
			s = strings.Replace(s, sig, sig+"\n\tif ModelK != nil {\n\t\treturn ModelK(\"uintptr\", uint64(x), seed)\n\t}", 1)
			sig = "func String(s string, seed Seed) Seed {"
			s = strings.Replace(s, sig, sig+"\n\tif ModelS != nil {\n\t\treturn ModelS(s, seed)\n\t}", 1)
			b = []byte(s)
		}
		if err := os.WriteFile(filepath.Join(dir, e.Name()), b, 0o644); err != nil {
			return err
		}
	}
	return os.WriteFile(filepath.Join(dir, "zz_model.go"), []byte(`package hash

// Model hooks, set by the replay driver.
var (
	ModelHook func(i interface{}, seed uintptr) (uintptr, bool)
	ModelK    func(name string, arg uint64, seed uintptr) uintptr
	ModelS    func(s string, seed uintptr) uintptr
)
`), 0o644)
}

type native struct {
	once [2]sync.Once
	bin  [2]string
	err  [2]error
	prep sync.Once
	perr error

	want     map[string]bool // the harnesses to build; nil for all
	overlays []string        // to be tried in turn
}

func (n *native) prepare() {
	n.prep.Do(func() {
		hd := filepath.Join(scratch, "hash")
		if n.perr = hookHash(hd); n.perr != nil {
			return
		}
		if n.perr = writeModfile(filepath.Join(scratch, "native.mod"), hd); n.perr != nil {
			return
		}
		dir := filepath.Join(scratch, "pruned")
		if n.perr = os.MkdirAll(dir, 0o755); n.perr != nil {
			return
		}
		var ovs []map[string]string
		if pruned, err := prune(harnessOverlay(true), n.want, dir); err == nil && n.want != nil {
			ovs = append(ovs, pruned)
		}
		ovs = append(ovs, harnessOverlay(true), harnessOverlay(false))
		for i, o := range ovs {
			b, _ := json.Marshal(map[string]map[string]string{"Replace": o})
			name := filepath.Join(scratch, fmt.Sprintf("overlay%d.json", i))
			if n.perr = os.WriteFile(name, b, 0o644); n.perr != nil {
				return
			}
			n.overlays = append(n.overlays, name)
		}
	})
}

// build compiles the real code plus the harnesses into a replay binary.
func (n *native) build(race bool) (string, error) {
	k := 0
	if race {
		k = 1
	}
	n.prepare()
	n.once[k].Do(func() {
		if n.perr != nil {
			n.err[k] = n.perr
			return
		}
		n.bin[k] = filepath.Join(scratch, fmt.Sprintf("native%d", k))
		var out []byte
		var err error
		for _, ov := range n.overlays {
			args := []string{"build", "-gcflags=" + modPath + "/...=-N -l", "-overlay=" + ov, "-modfile", filepath.Join(scratch, "native.mod"), "-o", n.bin[k]}
			if race {
				args = append(args, "-race")
			}
			cmd := exec.Command("go", append(args, modPath+"/internal/zzverif/main")...)
			cmd.Dir = repoDir
			cmd.Env = goEnv()
			if out, err = cmd.CombinedOutput(); err == nil {
				break
			}
			if os.Getenv("ZZ_DEBUG") != "" {
				fmt.Printf("native build with %s: %v\n%s\n", ov, err, out)
			}
		}
		if err != nil {
			n.err[k] = fmt.Errorf("native build: %v\n%s", err, out)
		}
	})
	return n.bin[k], n.err[k]
}

type nativeResult struct {
	Fail    string   `json:"fail"`
	Panic   string   `json:"panic"`
	Assumed bool     `json:"assumed"`
	Obs     []ObsRec `json:"obs"`
}

// exec runs cases in one native process. crash describes an abnormal end.
func (n *native) exec(cases []*Case, cfg *RunCfg, race bool, reps int, timeout time.Duration) (res []nativeResult, crash string, err error) {
	bin, err := n.build(race)
	if err != nil {
		return nil, "", err
	}
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, c := range cases {
		enc.Encode(c)
	}
	// Containment: a runaway harness must not exhaust the sandbox.
	shell := "ulimit -c 0; exec \"$0\""
	if !race {
		shell = "ulimit -c 0; ulimit -v 6000000; exec \"$0\""
	}
	cmd := exec.Command("bash", "-c", shell, bin)
	env := []string{}
	for _, kv := range goEnv() {
		if !strings.HasPrefix(kv, "GORACE=") {
			env = append(env, kv)
		}
	}
	for k, v := range cfg.Env {
		env = append(env, k+"="+v)
	}
	env = append(env, fmt.Sprintf("GOMAXPROCS=%d", cfg.Procs), "GOGC=100")
	env = append(env, fmt.Sprintf("ZZ_REPS=%d", reps))
	if race {
		env = append(env, "GORACE=halt_on_error=1 exitcode=66")
		env = append(env, "GOMEMLIMIT=3GiB")
	}
	cmd.Env = env
	cmd.Stdin = &in
	var out, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &eb
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	select {
	case werr = <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		crash = "timeout"
	}
	dec := json.NewDecoder(bytes.NewReader(out.Bytes()))
	for {
		var r nativeResult
		if dec.Decode(&r) != nil {
			break
		}
		res = append(res, r)
	}
	if crash == "" && werr != nil {
		e := eb.String()
		switch {
		case strings.Contains(e, "DATA RACE"):
			crash = "race"
		case strings.Contains(e, "all goroutines are asleep"):
			crash = "deadlock"
		default:
			crash = "crash: " + firstLines(e, 3)
		}
	}
	return res, crash, nil
}

var addrRE = regexp.MustCompile(`0x[0-9a-f]+`)

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return addrRE.ReplaceAllString(strings.Join(l, "; "), "0x?")
}

// reproduce runs a counterexample against the real code.
func (n *native) reproduce(v *Violation) (string, error) {
	race := v.Kind == "race"
	reps := 1
	timeout := 20 * time.Second
	if v.Cfg.Sched > 0 || race {
		reps = 200
		timeout = 60 * time.Second
	}
	if v.Kind == "hang" {
		timeout = 10 * time.Second
	}
	cfg := *v.Cfg
	if race || v.Cfg.Sched > 0 {
		cfg.Procs = 8
		if v.Cfg.Procs < 8 {
			cfg.Procs = v.Cfg.Procs
		}
	}
	res, crash, err := n.exec([]*Case{v.Case}, &cfg, race, reps, timeout)
	if err != nil {
		return "", err
	}
	if crash != "" {
		if crash == "timeout" && v.Kind != "hang" && v.Kind != "deadlock" {
			return "", nil
		}
		return crash, nil
	}
	if len(res) == 1 {
		if res[0].Fail != "" {
			return "assertion failed: " + res[0].Fail, nil
		}
		if res[0].Panic != "" {
			return "panic: " + firstLines(res[0].Panic, 1), nil
		}
	}
	return "", nil
}

// sameObs compares engine and native observations.
func sameObs(a, b []ObsRec) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d observations in the encoding, %d natively", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("observation %d: encoding %v, native %v", i, a[i], b[i])
		}
	}
	return ""
}
