// Package cmdx builds commands of the repository and runs them as an unprivileged user in scratch directories.
package cmdx

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/google/xtoproto/verifharness/pbt"
)

const nobody = 65534

// Tmp is the commands' own temporary directory; logs go there.
var Tmp string

// Build makes the command of a package, given by its path in the repository.
func Build(pkg string, flags ...string) string {
	work := os.Getenv("VERIF_WORK")
	exe := filepath.Join(work, filepath.Base(pkg)+".exe")
	args := append([]string{"build", "-modfile=" + os.Getenv("VERIF_MODFILE"), "-overlay=" + os.Getenv("VERIF_OVERLAY"), "-o", exe}, flags...)
	cmd := exec.Command("go", append(args, "github.com/google/xtoproto/"+pkg)...)
	cmd.Dir = os.Getenv("VERIF_HARNESS")
	if out, err := cmd.CombinedOutput(); err != nil {
		pbt.Infra("building %s: %v\n%s", pkg, err, out)
	}
	if err := os.Chmod(work, 0711); err != nil {
		pbt.Infra("%v", err)
	}
	if Tmp == "" {
		Tmp = pbt.Scratch("tmp")
		Own(Tmp)
	}
	return exe
}

// Unprivileged reports whether the commands run as another user than this process.
func Unprivileged() bool { return os.Getuid() == 0 }

// Command is a run of exe in dir, to be started.
func Command(dir, exe string, env, args []string) *exec.Cmd {
	cmd := exec.Command(exe, args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + Tmp, "TMPDIR=" + Tmp}, env...)
	if Unprivileged() {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	return cmd
}

// Run runs exe in dir to its end. Without the means to change the user it runs as this process does.
func Run(dir, exe string, env, args []string) (stdout, stderr string, code int) {
	cmd := Command(dir, exe, env, args)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		pbt.Infra("starting the command: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		return o.String(), "no end within a minute", -2
	}
	return o.String(), e.String(), cmd.ProcessState.ExitCode()
}

// Tree lists the regular files below dir with what they hold.
func Tree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			pbt.Infra("%v", err)
		}
		if info.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				pbt.Infra("%v", err)
			}
			rel, _ := filepath.Rel(dir, p)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

// Put writes a file below dir, and its directories.
func Put(dir, name, text string) {
	p := filepath.Join(dir, name)
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		pbt.Infra("%v", err)
	}
	if err := os.WriteFile(p, []byte(text), 0644); err != nil {
		pbt.Infra("%v", err)
	}
}

// Own gives dir and all in it to the user the commands run as.
func Own(dir string) {
	if Unprivileged() {
		filepath.Walk(dir, func(p string, info os.FileInfo, err error) error { return os.Lchown(p, nobody, nobody) })
	}
	os.Chmod(dir, 0755)
}

// Diff says how the files got differ from those wanted, apart from those that may.
func Diff(got, want map[string]string, mayDiffer func(string) bool) string {
	var out []string
	for p, g := range got {
		w, ok := want[p]
		switch {
		case mayDiffer != nil && mayDiffer(p):
		case !ok:
			out = append(out, fmt.Sprintf("file %q was written:\n%s", p, Clip(g)))
		case g != w:
			out = append(out, fmt.Sprintf("file %q holds\n%s\nwant\n%s", p, Clip(g), Clip(w)))
		}
	}
	for p := range want {
		if _, ok := got[p]; !ok && (mayDiffer == nil || !mayDiffer(p)) {
			out = append(out, fmt.Sprintf("file %q is missing", p))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// Clip shortens a text for a message.
func Clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}
