package main

import (
	"bytes"
	"context"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// runExample runs an example program in a scratch directory. EXAMPLE_JSON and
// EXAMPLE_SELF are the programs, EXAMPLE_BNF is the grammar of JSON.
func runExample(c *Case) {
	dir, err := os.MkdirTemp("", "example")
	if err != nil {
		die(err)
	}
	defer os.RemoveAll(dir)
	prog := os.Getenv("EXAMPLE_SELF")
	if c.Mode == "json" {
		prog = os.Getenv("EXAMPLE_JSON")
		b, err := os.ReadFile(os.Getenv("EXAMPLE_BNF"))
		if err != nil {
			die(err)
		}
		if err := os.WriteFile(filepath.Join(dir, "json.bnf"), b, 0o644); err != nil {
			die(err)
		}
		if err := os.WriteFile(filepath.Join(dir, "test.json"), toBytes(c.Text), 0o644); err != nil {
			die(err)
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	x := exec.CommandContext(ctx, prog)
	x.Dir = dir
	var o, e bytes.Buffer
	x.Stdout, x.Stderr = &o, &e
	err = x.Run()
	var ee *exec.ExitError
	c.Out = [][]int{}
	c.Exit = 0
	switch {
	case ctx.Err() != nil:
		c.Res = "hang"
		return
	case err == nil:
		c.Res = "ran"
	case errors.As(err, &ee) && ee.ExitCode() >= 0:
		c.Res = "ran"
		c.Exit = ee.ExitCode()
	default:
		die("example:", err)
	}
	if strings.Contains(e.String(), "goroutine ") {
		c.Res = "panic"
	}
	c.Size = e.Len()
	c.Note = e.String()
	if len(c.Note) > 500 {
		c.Note = c.Note[:500]
	}
	for _, l := range strings.Split(strings.TrimSuffix(o.String(), "\n"), "\n") {
		c.Out = append(c.Out, toInts([]byte(l)))
	}
}

func init() { runners["example"] = runExample }
