package main

import (
	"bytes"
	_ "embed"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif.local/harness/corpus"
	"verif.local/harness/mc"
)

//go:embed packbits.js
var packbitsJS string

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func wasmRun(c *mc.Case, args ...string) []string {
	dir := os.Getenv("VERIF_BIN")
	cmd := exec.Command("node", append([]string{"--stack-size=8192", filepath.Join(os.Getenv("VERIF_GOROOT"), "lib/wasm/wasm_exec_node.js"), filepath.Join(dir, "psdwasm.wasm")}, args...)...)
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=/tmp"}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		c.Detail("%s\n%s", out.String(), errb.String())
		c.Fail("the wasm build failed to run: %v", err)
	}
	return strings.Split(strings.TrimSpace(out.String()), "\n")
}

func init() {
	reg("C14",
		mc.Scenario{Name: "javascript", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			b := c.Choose(corpus.Batches, "batch")
			js := filepath.Join(os.TempDir(), fmt.Sprintf("packbits-%d-%d.js", os.Getpid(), b))
			if err := os.WriteFile(js, []byte(packbitsJS), 0o600); err != nil {
				panic("mc: " + err.Error())
			}
			defer os.Remove(js)
			var in bytes.Buffer
			var cases []corpus.Case
			in.Write([]byte{0, 0, 0, 0})
			corpus.Batch(b, func(k *corpus.Case) {
				cases = append(cases, *k)
				binary.Write(&in, binary.LittleEndian, uint32(k.Width*k.Lines))
				binary.Write(&in, binary.LittleEndian, uint32(k.Lines))
				if k.Large {
					in.WriteByte(1)
				} else {
					in.WriteByte(0)
				}
				binary.Write(&in, binary.LittleEndian, uint32(len(k.Stream)))
				in.Write(k.Stream)
			})
			binary.LittleEndian.PutUint32(in.Bytes(), uint32(len(cases)))
			cmd := exec.Command("node", js, filepath.Join(repoDir(), "compress.inc.js"))
			cmd.Stdin = &in
			var errb bytes.Buffer
			cmd.Stderr = &errb
			out, err := cmd.Output()
			if err != nil {
				c.Detail("%s", errb.String())
				c.Fail("the JavaScript decoder failed: %v", err)
			}
			for i := range cases {
				k := &cases[i]
				n := k.Width * k.Lines
				if len(out) < 5+n {
					c.Fail("the JavaScript decoder produced too little output")
				}
				ok, read, dest := out[0] == 1, int(binary.LittleEndian.Uint32(out[1:])), out[5:5+n]
				out = out[5+n:]
				gd, gr, err := k.Decode()
				if ok != (err == nil) {
					c.Fail("%v: accepted by JavaScript: %v, error of the Go decoder: %v", k, ok, err)
				}
				if ok && (!bytes.Equal(gd, dest) || gr != read) {
					c.Fail("%v: JavaScript decodes to % x (%d read), Go to % x (%d read)", k, dest, read, gd, gr)
				}
			}
			c.Visited(len(cases), len(cases))
			c.Validated(len(cases))
			c.Obs(b)
		}},
		mc.Scenario{Name: "wasm", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			b := c.Choose(corpus.Batches, "batch")
			got, want := wasmRun(c, fmt.Sprint(b)), corpus.BatchDigest(b)
			if len(got) != len(want) {
				c.Fail("wasm: %d outcomes, native: %d", len(got), len(want))
			}
			for i := range want {
				if got[i] != want[i] {
					n := 0
					corpus.Batch(b, func(k *corpus.Case) {
						if n++; n > i*64 && n <= i*64+64 {
							d, _, err := k.Decode()
							c.Detail("%v: native: % x %v", k, d, err)
						}
					})
					c.Fail("wasm and native outcomes differ within cases %d to %d", i*64+1, i*64+64)
				}
			}
			c.Visited(len(want)*64, len(want)*64)
			c.Validated(len(want) * 64)
		}},
		mc.Scenario{Name: "wasm-documents", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			got := wasmRun(c, "docs")
			if len(got) != corpus.Docs {
				c.Fail("%d outcomes, want %d", len(got), corpus.Docs)
			}
			for i := range got {
				if w := corpus.Doc(i); w != got[i] {
					c.Fail("document %d: wasm: %q, native: %q", i, got[i], w)
				}
			}
			c.Visited(corpus.Docs, corpus.Docs)
			c.Validated(corpus.Docs)
		}},
	)
}
