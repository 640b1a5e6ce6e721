// Package hcli holds the harnesses for the command line. Commands run
// through cobra, with files in a scratch directory.
package hcli

import (
	"os"
	"path/filepath"

	"github.com/dhamidi/texted/commands"
	"github.com/dhamidi/texted/zzverif/zv"
	"github.com/spf13/cobra"
)

func tq(quick, thorough int) int {
	if zv.Tier() > 0 {
		return thorough
	}
	return quick
}

func runCmd(cmd *cobra.Command, args []string) error {
	cmd.SilenceUsage, cmd.SilenceErrors = true, true
	cmd.SetArgs(append([]string{}, args...)) // nil would mean os.Args
	return cmd.Execute()
}

func edit(args ...string) error { return runCmd(commands.NewEditCommand(), args) }

func at(name string) string { return filepath.Join(zv.TempDir(), name) }

func put(name, content string) string {
	p := at(name)
	if err := os.WriteFile(p, []byte(content), 0644); err != nil {
		zv.Fail("scratch file cannot be written")
	}
	return p
}

// tree is the content of the scratch directory.
type tree map[string]string

func files() tree {
	t := tree{}
	for _, n := range zv.ListDir(zv.TempDir()) {
		b, err := os.ReadFile(at(n))
		zv.Assert(err == nil, "a listed file can be read")
		t[n] = string(b)
	}
	return t
}

func (t tree) same(u tree) bool {
	if len(t) != len(u) {
		return false
	}
	for n, c := range t {
		d, ok := u[n]
		if !ok || c != d {
			return false
		}
	}
	return true
}

func (t tree) clone() tree {
	u := tree{}
	for n, c := range t {
		u[n] = c
	}
	return u
}
