package zygo

// C08: scripts in a sandboxed interpreter, as an unprivileged user in a scratch
// directory, with canaries: files holding a secret, an environment variable, shell
// commands that would leave a file, an exit code.

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"
)

const sbSecret = "sEcReTcAnArY"

func sbArgs(dir string, r *rand.Rand) string {
	q := strconv.Quote
	pool := []string{
		q(dir + "/secret.txt"), q(dir + "/secret.zy"), q(dir + "/pkg.zy"), q("secret.txt"), q("secret.zy"), q("data.json"), q("data.msgp"), q(dir + "/new1"), q("new2"), "[" + q("x") + "]", "(raw " + q("bytes") + ")",
		q("touch new3"), "[" + q("touch") + " " + q("new4") + "]", "(list " + q("touch") + " " + q("new5") + ")", q("cat secret.txt"), "77", q("VERIF_CANARY"), q("$VERIF_CANARY ${VERIF_CANARY} `cat secret.txt` $(cat secret.txt) ~/secret.txt"), q("$VERIF_CANARY"), "VERIF_CANARY", "%VERIF_CANARY", q("newvalue"), "(hash a: 1)", "nil", "77",
		"secret", "touch", "cat", q("/bin/cat"), "'a'", "(quote (" + q("secret.zy") + "))", "[" + q("secret.zy") + "]", "%(include " + q("secret.zy") + ")", "%pk", "pk", q("file://" + dir + "/secret.txt"), "(fn [] 77)", "true", "1.5",
		q("(include \"secret.zy\")"), q("(slurpf \"secret.txt\")"), q("(system \"touch new6\")"),
	}
	if r.Intn(3) == 0 {
		// the shape that many want: something, then a path
		return pool[r.Intn(len(pool))] + " " + pool[r.Intn(9)]
	}
	var as []string
	for n := r.Intn(4); n >= 0; n-- {
		as = append(as, pool[r.Intn(len(pool))])
	}
	return strings.Join(as, " ")
}

var sbWraps = []string{
	"(NAME ARGS)", "(NAME ARGS)", "(NAME ARGS)", "(begin (def alias NAME) (alias ARGS))", "(apply NAME [ARGS])", "(apply NAME (list ARGS))", "(map NAME [ARGS])", "(eval (quote (NAME ARGS)))", "(eval (list (quote NAME) ARGS))",
	"(begin (defmac mm [& r] ^(NAME ~@r)) (mm ARGS))", "(begin (defmac mm [] (NAME ARGS)) (mm))", "((fn [f] (f ARGS)) NAME)", "((fn [] (NAME ARGS)))", "(begin (def h (hash f: NAME)) (h.f ARGS))", "(begin (def a [NAME]) ((aget a 0) ARGS))",
	"{(NAME ARGS)}", "(let [f NAME] (f ARGS))", "(eval (list (str2sym \"NAME\") ARGS))", "((eval (str2sym \"NAME\")) ARGS)", "(begin (package pk { F := NAME }) (pk.F ARGS))", "((fn [#z] (force #z)) (NAME ARGS))", "(begin (defn zz [x] (NAME ARGS)) (map zz [1]))",
	"(force (first (list (NAME ARGS))))", "(infix [NAME ARGS])", "(expectError \"x\" (NAME ARGS))", "(macexpand (NAME ARGS))", "(begin (var v string) (set v (NAME ARGS)) v)", "(-> (hash k: NAME) k:)", "(NAME (NAME ARGS) ARGS)", "(str (NAME ARGS))", "(println (NAME ARGS))", "(eval (quote (begin (NAME ARGS))))",
	"(begin (defn g [] (return (NAME ARGS))) (g))", "(cond (NAME ARGS) 1 2)", "(assert (NAME ARGS))", "[(NAME ARGS)]", "(hash k: (NAME ARGS))", "(begin (macexpand (NAME ARGS)) (NAME ARGS))", "^(list ~(NAME ARGS))", "(for [(def i 0) (< i 1) (set i (+ i 1))] (NAME ARGS))", "(& NAME)", "(defbuild NAME (NAME ARGS))",
}

func sbSnapshot(dir string) string {
	var out []string
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		i, err := e.Info()
		if err == nil && e.Name() != "child.log" && e.Name() != "progress" && e.Name() != "report" {
			out = append(out, fmt.Sprintf("%s:%d:%d", e.Name(), i.Size(), i.ModTime().UnixNano()))
		}
	}
	env := os.Environ()
	sort.Strings(env)
	return strings.Join(out, " ") + "|" + strings.Join(env, " ")
}

// TestVerifC08Child runs programs; it is started by TestVerifC08 in a process of its own.
func TestVerifC08Child(t *testing.T) {
	dir := os.Getenv("VERIF_C08_DIR")
	if dir == "" {
		t.Skip()
	}
	os.Chdir(dir)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_C08_SEED"), 10, 64)
	r := rand.New(rand.NewSource(seed))
	prog, _ := os.Create(dir + "/progress")
	rep, _ := os.Create(dir + "/report")
	if cli := os.Getenv("VERIF_C08_CLI"); cli != "" {
		cfg := NewZlispConfig("zygo")
		cfg.DefineFlags()
		cfg.Flags.Parse([]string{"-sandbox", "-exitonfail", "-c", cli})
		cfg.ValidateConfig()
		ReplMain(cfg)
		return
	}
	end := time.Now().Add(4 * time.Second)
	n := 0
	for time.Now().Before(end) {
		env := NewZlispSandbox()
		std := r.Intn(3) > 0
		if std {
			env.StandardSetup()
		}
		if r.Intn(4) == 0 {
			env = env.Clone()
		} else if r.Intn(4) == 0 {
			env = env.Duplicate()
		}
		names := sbNames(env)
		before := sbSnapshot(dir)
		for k := 0; k < 40; k++ {
			name := names[r.Intn(len(names))]
			if r.Intn(3) == 0 {
				name = sbSpecial[r.Intn(len(sbSpecial))]
			}
			src := strings.ReplaceAll(strings.ReplaceAll(sbWraps[r.Intn(len(sbWraps))], "NAME", name), "ARGS", sbArgs(dir, r))
			prog.Truncate(0)
			prog.WriteAt([]byte(fmt.Sprintf("sandbox(standard setup: %v) %s", std, src)), 0)
			o := vGuard(20000, func() (Sexp, error) { return env.EvalString(src) })
			if o.Err != nil {
				env.Clear()
			}
			n++
			bad := ""
			text := vGot(o) + " " + fmt.Sprint(o.Err)
			if strings.Contains(text, sbSecret) {
				bad = "the outcome holds what a file or the environment held"
			}
			if b := fmt.Sprintf("% x", sbSecret); strings.Contains(text, b) {
				bad = "the outcome holds what a file or the environment held"
			}
			if after := sbSnapshot(dir); after != before {
				bad = "files or the environment changed: before " + before[:strings.Index(before, "|")] + " after " + after[:strings.Index(after, "|")]
				before = after
			}
			if bad != "" {
				fmt.Fprintf(rep, "V\t%s\t%s\n", strconv.Quote(bad), strconv.Quote(fmt.Sprintf("// standard setup: %v\n%s", std, src)))
				break
			}
			if o.Panic != "" {
				break
			}
			if k%7 == 0 {
				fmt.Fprintf(rep, "S\t%s\n", strconv.Quote(src))
			}
		}
	}
	fmt.Fprintf(rep, "N\t%d\n", n)
	os.Exit(3)
}

func sbChild(v *vRun, bin string, seed int64, cli string) (viol [][2]string, n int, samples []string) {
	dir, err := os.MkdirTemp("", "c08-")
	if err != nil {
		v.fail("setup", err.Error(), "")
		return
	}
	defer os.RemoveAll(dir)
	put := func(name, text string) { os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644) }
	put("secret.txt", sbSecret+"\n")
	put("secret.zy", strconv.Quote(sbSecret)+"\n")
	put("pkg.zy", "(package sp { Secret := "+strconv.Quote(sbSecret)+" })\n")
	put("data.json", `{"a":"`+sbSecret+`"}`)
	put("data.msgp", "\x81\xa1a\xac"+sbSecret)
	exe := bin
	log, _ := os.Create(filepath.Join(dir, "child.log"))
	defer log.Close()
	c := exec.Command(exe, "-test.run", "^TestVerifC08Child$")
	c.Dir = dir
	c.Env = []string{"VERIF_C08_DIR=" + dir, "VERIF_C08_SEED=" + fmt.Sprint(seed), "VERIF_CANARY=" + sbSecret, "PATH=/usr/bin:/bin", "HOME=" + dir, "VERIF_C08_CLI=" + cli}
	c.Stdout, c.Stderr = log, log
	if os.Getuid() == 0 {
		os.Chown(dir, 65534, 65534)
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			os.Chown(filepath.Join(dir, e.Name()), 65534, 65534)
		}
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	}
	if err := c.Start(); err != nil {
		v.fail("setup", err.Error(), "")
		return
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-time.After(15 * time.Second):
		c.Process.Kill()
		<-done
	}
	cur, _ := os.ReadFile(dir + "/progress")
	if c.ProcessState.ExitCode() == 77 {
		viol = append(viol, [2]string{"the host process ended with the exit code that the script gave", string(cur) + cli})
	}
	out, _ := os.ReadFile(dir + "/child.log")
	if bytes.Contains(out, []byte(sbSecret)) {
		viol = append(viol, [2]string{"what a file or the environment held was printed", string(cur) + cli})
	}
	if cli != "" {
		for _, f := range []string{"new1", "new2", "new3", "new4", "new5", "new6", "new7"} {
			if _, err := os.Stat(filepath.Join(dir, f)); err == nil {
				viol = append(viol, [2]string{"the file " + f + " was made", cli})
			}
		}
		n = 1
	}
	rep, _ := os.ReadFile(dir + "/report")
	for _, l := range strings.Split(string(rep), "\n") {
		f := strings.Split(l, "\t")
		switch f[0] {
		case "V":
			a, _ := strconv.Unquote(f[1])
			b, _ := strconv.Unquote(f[2])
			viol = append(viol, [2]string{a, b})
		case "N":
			n, _ = strconv.Atoi(f[1])
		case "S":
			s, _ := strconv.Unquote(f[1])
			samples = append(samples, s)
		}
	}
	return
}

func TestVerifC08(t *testing.T) {
	v := vBegin(t, "C08", "every name bound in a sandboxed interpreter (bare, with the standard setup, cloned, duplicated), every reserved word and special form and the names of the functions that an unsandboxed interpreter has, called directly, under aliases, through eval, apply, map, macros, packages, hashes and infix blocks, with file paths, shell commands, environment names and exit codes as arguments, in a process of an unprivileged user in a scratch directory; and the same through the command line's -sandbox -c. A file made or changed, a secret from a file or the environment in a value, an error or the output, a changed environment, or the chosen exit code is a violation. Non-trivial: distinct programs (one in seven is recorded).")
	defer v.finish()
	self, _ := os.Executable()
	b, _ := os.ReadFile(self)
	bdir, err := os.MkdirTemp("", "c08bin-")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(bdir)
	os.Chmod(bdir, 0o755)
	bin := filepath.Join(bdir, "sandboxed")
	os.WriteFile(bin, b, 0o755)
	type res struct {
		viol    [][2]string
		n       int
		samples []string
	}
	seed := v.seed * 1000
	total := 0
	for v.more() {
		ch := make(chan res, 8)
		for k := 0; k < 6; k++ {
			seed++
			cli := ""
			if k == 5 {
				r := rand.New(rand.NewSource(seed))
				cli = strings.ReplaceAll(strings.ReplaceAll(sbWraps[r.Intn(len(sbWraps))], "NAME", sbSpecial[r.Intn(len(sbSpecial))]), "ARGS", sbArgs(".", r))
			}
			go func(seed int64, cli string) {
				a, b, c := sbChild(v, bin, seed, cli)
				ch <- res{a, b, c}
			}(seed, cli)
		}
		v.at(fmt.Sprintf("children up to seed %d", seed))
		for k := 0; k < 6; k++ {
			x := <-ch
			total += x.n
			for _, f := range x.viol {
				v.fail("outside", f[0], f[1])
			}
			for _, s := range x.samples {
				v.count(s)
			}
		}
	}
	v.mu.Lock()
	v.res.Evals = max(v.res.Evals, total)
	v.res.Counts["programs run"] = total
	v.mu.Unlock()
}
