// Package vcmd runs the commands under test.
package vcmd

import (
	"github.com/hangulize/hangulize/internal/verifrt/vos" // package os
	"github.com/spf13/cobra"
)

// Run runs a program with the arguments. The files are those of package vos.
func Run(main func(), stdin string, args ...string) (code int, stdout, stderr string) {
	os.Args = append([]string{"hangulize"}, args...)
	os.Stdin, os.Stdout, os.Stderr = os.NewStreams(stdin)
	cobra.Args, cobra.Stdout, cobra.Stderr = args, os.Stdout, os.Stderr
	code = os.Run(main)
	return code, os.Output(), os.Errors()
}
