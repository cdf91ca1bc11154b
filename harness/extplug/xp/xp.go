// Package xp is a plugin for the command, which looks at its process.
package xp

import (
	"errors"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/vito/booklit"
)

func init() {
	booklit.RegisterPlugin("xp", func(*booklit.Section) booklit.Plugin { return Plugin{} })
}

// Plugin is the plugin.
type Plugin struct{}

// XpHello greets.
func (Plugin) XpHello(who string) booklit.Content { return booklit.String("hello " + who + " from xp") }

// XpArgs gives the arguments of the process.
func (Plugin) XpArgs() booklit.Content { return booklit.String(strings.Join(os.Args[1:], "|")) }

// XpEnv gives a variable of the environment.
func (Plugin) XpEnv(name string) booklit.Content { return booklit.String("=" + os.Getenv(name)) }

// XpEnviron gives all of the environment, but for what tells that plugins are
// built in.
func (Plugin) XpEnviron() booklit.Content {
	var out []string
	for _, v := range os.Environ() {
		if !strings.HasPrefix(v, "BOOKLIT_REEXEC=") {
			out = append(out, fmt.Sprintf("%q", v))
		}
	}
	sort.Strings(out)
	return booklit.String(strings.Join(out, " "))
}

// XpCwd gives the directory of the process.
func (Plugin) XpCwd() (booklit.Content, error) {
	d, err := os.Getwd()
	return booklit.String(d), err
}

// XpPrint writes to the standard output and error.
func (Plugin) XpPrint(s string) {
	fmt.Printf("out:%s\n", s)
	fmt.Fprintf(os.Stderr, "err:%s\n", s)
}

// XpFail fails.
func (Plugin) XpFail(s string) error { return errors.New(s) }

// XpExit ends the process.
func (Plugin) XpExit(code string) error {
	n, err := strconv.Atoi(code)
	if err == nil {
		os.Exit(n)
	}
	return err
}

// XpKill kills the process.
func (Plugin) XpKill() error { return syscall.Kill(os.Getpid(), syscall.SIGKILL) }

// XpPanic panics.
func (Plugin) XpPanic() { panic("xp panics") }
