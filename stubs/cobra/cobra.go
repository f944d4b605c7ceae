// Package cobra stands in for the command line library: commands are values,
// what they print is kept.
package cobra

import (
	"bytes"
	"fmt"
	"io"
	"os"
)

// PositionalArgs checks arguments.
type PositionalArgs func(cmd *Command, args []string) error

// Command is a command.
type Command struct {
	Use     string
	Aliases []string
	Short   string
	Long    string
	Example string
	Version string
	Args    PositionalArgs

	PreRun        func(cmd *Command, args []string)
	Run           func(cmd *Command, args []string)
	RunE          func(cmd *Command, args []string) error
	PostRun       func(cmd *Command, args []string)
	Hidden        bool
	SilenceUsage  bool
	SilenceErrors bool

	out, err io.Writer
	cmds     []*Command
	parent   *Command
	args     []string

	flags, persistent FlagSet
}

// FlagSet takes flags.
type FlagSet struct{ flags []*flag }

type flag struct {
	name, sh string
	isBool   bool
	reset    func()
	set      func(string) error
}

func (f *FlagSet) add(name, sh string, isBool bool, reset func(), set func(string) error) {
	f.flags = append(f.flags, &flag{name, sh, isBool, reset, set})
	reset()
}

func (f *FlagSet) BoolVarP(p *bool, name, sh string, value bool, usage string) {
	f.add(name, sh, true, func() { *p = value }, func(s string) error {
		if s != "true" && s != "false" {
			return fmt.Errorf("invalid argument %q for --%s", s, name)
		}
		*p = s == "true"
		return nil
	})
}
func (f *FlagSet) IntVarP(p *int, name, sh string, value int, usage string) {
	f.add(name, sh, false, func() { *p = value }, func(s string) error {
		_, err := fmt.Sscan(s, p)
		return err
	})
}
func (f *FlagSet) StringVarP(p *string, name, sh, value, usage string) {
	f.add(name, sh, false, func() { *p = value }, func(s string) error { *p = s; return nil })
}
func (f *FlagSet) BoolVar(p *bool, name string, value bool, usage string) {
	f.BoolVarP(p, name, "", value, usage)
}
func (f *FlagSet) IntVar(p *int, name string, value int, usage string) {
	f.IntVarP(p, name, "", value, usage)
}
func (f *FlagSet) StringVar(p *string, name, value, usage string) {
	f.StringVarP(p, name, "", value, usage)
}
func (f *FlagSet) Bool(name string, value bool, usage string) *bool {
	return f.BoolP(name, "", value, usage)
}
func (f *FlagSet) BoolP(name, sh string, value bool, usage string) *bool {
	p := new(bool)
	f.BoolVarP(p, name, sh, value, usage)
	return p
}
func (f *FlagSet) String(name, value, usage string) *string {
	return f.StringP(name, "", value, usage)
}
func (f *FlagSet) StringP(name, sh, value, usage string) *string {
	p := new(string)
	f.StringVarP(p, name, sh, value, usage)
	return p
}

func (f *FlagSet) find(name, sh string) *flag {
	for _, x := range f.flags {
		if name != "" && x.name == name || sh != "" && x.sh == sh {
			return x
		}
	}
	return nil
}

// Args, Stdout and Stderr are what a run of the program is given.
var (
	Args           []string
	Stdout, Stderr io.Writer = os.Stdout, os.Stderr
)

func (c *Command) Flags() *FlagSet           { return &c.flags }
func (c *Command) PersistentFlags() *FlagSet { return &c.persistent }
func (c *Command) LocalFlags() *FlagSet      { return &c.flags }

func (c *Command) resetFlags() {
	for _, f := range append(append([]*flag{}, c.flags.flags...), c.persistent.flags...) {
		f.reset()
	}
	for _, x := range c.cmds {
		x.resetFlags()
	}
}

func (c *Command) name() string {
	for i := 0; i < len(c.Use); i++ {
		if c.Use[i] == ' ' {
			return c.Use[:i]
		}
	}
	return c.Use
}

func (c *Command) flag(name, sh string) *flag {
	if f := c.flags.find(name, sh); f != nil {
		return f
	}
	for x := c; x != nil; x = x.parent {
		if f := x.persistent.find(name, sh); f != nil {
			return f
		}
	}
	return nil
}

// Execute runs the program.
func (c *Command) Execute() error {
	c.resetFlags()
	args := c.args
	if args == nil {
		args = Args
	}
	cmd := c
	for i, a := range args {
		if len(a) > 0 && a[0] == '-' {
			continue
		}
		for _, x := range c.cmds {
			if x.name() == a {
				cmd = x
				args = append(append([]string{}, args[:i]...), args[i+1:]...)
				break
			}
		}
		break
	}
	err := cmd.run(args)
	if err != nil && !c.SilenceErrors && !cmd.SilenceErrors {
		cmd.PrintErrln("Error:", err.Error())
	}
	return err
}

func (c *Command) run(args []string) error {
	rest := []string{}
	for i := 0; i < len(args); i++ {
		a := args[i]
		if a == "--" {
			rest = append(rest, args[i+1:]...)
			break
		}
		if len(a) < 2 || a[0] != '-' {
			rest = append(rest, a)
			continue
		}
		var name, sh, value string
		has := false
		if a[1] == '-' {
			name = a[2:]
			for j := 0; j < len(name); j++ {
				if name[j] == '=' {
					name, value, has = name[:j], name[j+1:], true
					break
				}
			}
		} else {
			sh = a[1:2]
			if len(a) > 2 {
				value, has = a[2:], true
			}
		}
		f := c.flag(name, sh)
		if f == nil {
			return fmt.Errorf("unknown flag: %s", a)
		}
		if !has {
			value = "true"
			if !f.isBool {
				i++
				if i == len(args) {
					return fmt.Errorf("flag needs an argument: %s", a)
				}
				value = args[i]
			}
		}
		if err := f.set(value); err != nil {
			return err
		}
	}
	if c.Args != nil {
		if err := c.Args(c, rest); err != nil {
			return err
		}
	}
	if c.PreRun != nil {
		c.PreRun(c, rest)
	}
	if c.RunE != nil {
		if err := c.RunE(c, rest); err != nil {
			return err
		}
	} else if c.Run != nil {
		c.Run(c, rest)
	}
	if c.PostRun != nil {
		c.PostRun(c, rest)
	}
	return nil
}

func (c *Command) AddCommand(cmds ...*Command) {
	for _, x := range cmds {
		x.parent = c
	}
	c.cmds = append(c.cmds, cmds...)
}
func (c *Command) Commands() []*Command  { return c.cmds }
func (c *Command) SetArgs(args []string) { c.args = args }
func (c *Command) SetOut(w io.Writer)    { c.out = w }
func (c *Command) SetErr(w io.Writer)    { c.err = w }
func (c *Command) SetOutput(w io.Writer) { c.out, c.err = w, w }

func (c *Command) getOut(def io.Writer) io.Writer {
	if c.out != nil {
		return c.out
	}
	if c.parent != nil {
		return c.parent.getOut(def)
	}
	return def
}

func (c *Command) getErr(def io.Writer) io.Writer {
	if c.err != nil {
		return c.err
	}
	if c.parent != nil {
		return c.parent.getErr(def)
	}
	return def
}

func (c *Command) OutOrStdout() io.Writer { return c.getOut(Stdout) }
func (c *Command) OutOrStderr() io.Writer { return c.getOut(Stderr) }
func (c *Command) ErrOrStderr() io.Writer { return c.getErr(Stderr) }

func put(w io.Writer, s string) {
	if b, ok := w.(*bytes.Buffer); ok {
		b.WriteString(s)
		return
	}
	io.WriteString(w, s)
}

func (c *Command) Print(i ...interface{})               { put(c.OutOrStderr(), fmt.Sprint(i...)) }
func (c *Command) Println(i ...interface{})             { put(c.OutOrStderr(), fmt.Sprintln(i...)) }
func (c *Command) Printf(f string, i ...interface{})    { put(c.OutOrStderr(), fmt.Sprintf(f, i...)) }
func (c *Command) PrintErr(i ...interface{})            { put(c.ErrOrStderr(), fmt.Sprint(i...)) }
func (c *Command) PrintErrln(i ...interface{})          { put(c.ErrOrStderr(), fmt.Sprintln(i...)) }
func (c *Command) PrintErrf(f string, i ...interface{}) { put(c.ErrOrStderr(), fmt.Sprintf(f, i...)) }
func (c *Command) Usage() error                         { return nil }
func (c *Command) Help() error                          { return nil }

func count(ok func(int) bool) PositionalArgs {
	return func(cmd *Command, args []string) error {
		if !ok(len(args)) {
			return fmt.Errorf("wrong number of args: %d", len(args))
		}
		return nil
	}
}

func MinimumNArgs(n int) PositionalArgs               { return count(func(k int) bool { return k >= n }) }
func MaximumNArgs(n int) PositionalArgs               { return count(func(k int) bool { return k <= n }) }
func ExactArgs(n int) PositionalArgs                  { return count(func(k int) bool { return k == n }) }
func RangeArgs(a, b int) PositionalArgs               { return count(func(k int) bool { return a <= k && k <= b }) }
func NoArgs(cmd *Command, args []string) error        { return nil }
func ArbitraryArgs(cmd *Command, args []string) error { return nil }
