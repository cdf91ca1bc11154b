package props

import (
	"bytes"
	"context"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verif/harness/core"
)

// binary is the booklit command, built by the check script.
func binary() string {
	b := filepath.Join(os.Getenv("VH_BUILD"), "booklit")
	if _, err := os.Stat(b); err != nil {
		core.Fatal("the command is not built: %s", err)
	}
	return b
}

type ran struct {
	Code        int
	Out, Stderr string
}

// told is what it says, other than the log.
func (r ran) told() string {
	var out []string
	for _, l := range strings.Split(r.Stderr, "\n") {
		if !strings.HasPrefix(l, `time="`) && !strings.HasPrefix(l, "\x1b[") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// command prepares a run of the command.
func command(ctx context.Context, dir string, args ...string) *exec.Cmd {
	cmd := exec.CommandContext(ctx, binary(), args...)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	return cmd
}

// run runs the command to its end.
func run(dir string, stdout *os.File, env []string, args ...string) ran {
	c, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := command(c, dir, args...)
	cmd.Env = append(os.Environ(), env...)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if stdout != nil {
		cmd.Stdout = stdout
	}
	err := cmd.Run()
	if c.Err() != nil {
		core.Fatal("the command takes too long: %q", args)
	}
	r := ran{Out: out.String(), Stderr: errs.String()}
	if ee, ok := err.(*exec.ExitError); ok {
		r.Code = ee.ExitCode()
	} else if err != nil {
		core.Fatal("%q: %s", args, err)
	}
	return r
}

// tree reads every file below a directory.
func tree(dir string) map[string]string {
	out := map[string]string{}
	err := filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if os.IsNotExist(err) {
			return nil
		}
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case d.IsDir():
			if rel != "." {
				out[rel+"/"] = ""
			}
		case d.Type().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			out[rel] = string(b)
		default:
			out[rel] = d.Type().String()
		}
		return nil
	})
	if err != nil {
		core.Fatal("%s", err)
	}
	return out
}
