package conv

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sync"
)

// cBinding drives the functions exported to C, which run in a process of their own.
type cBinding struct {
	mu  sync.Mutex
	cmd *exec.Cmd
	in  *os.File
	out *bufio.Reader
	err bytes.Buffer
}

var cb cBinding

// cBindingAvailable tells whether the driver built the binding for this run.
func cBindingAvailable() bool { return os.Getenv("VERIF_CBIN") != "" }

func (c *cBinding) start() error {
	if c.cmd != nil {
		return nil
	}
	r1, w1, err := os.Pipe()
	if err != nil {
		return err
	}
	r2, w2, err := os.Pipe()
	if err != nil {
		return err
	}
	cmd := exec.Command(os.Getenv("VERIF_CBIN"), "-test.run=TestVerifServer", "-test.timeout=0")
	cmd.ExtraFiles = []*os.File{r1, w2}
	c.err.Reset()
	cmd.Stderr, cmd.Stdout = &c.err, nil
	if err := cmd.Start(); err != nil {
		return err
	}
	r1.Close()
	w2.Close()
	c.cmd, c.in, c.out = cmd, w1, bufio.NewReader(r2)
	return nil
}

func (c *cBinding) call(answers int, req ...[]byte) ([][]byte, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if err := c.start(); err != nil {
		panic(fmt.Sprintf("harness: cannot start the C binding: %v", err))
	}
	var buf []byte
	for _, b := range req {
		n := int32(len(b))
		if b == nil {
			n = -1
		}
		buf = binary.LittleEndian.AppendUint32(buf, uint32(n))
		buf = append(buf, b...)
	}
	c.in.Write(buf)
	var out [][]byte
	for i := 0; i < answers; i++ {
		var h [4]byte
		_, err := io.ReadFull(c.out, h[:])
		var b []byte
		if err == nil {
			if n := int32(binary.LittleEndian.Uint32(h[:])); n >= 0 {
				b = make([]byte, n)
				_, err = io.ReadFull(c.out, b)
			}
		}
		if err != nil {
			c.in.Close()
			c.cmd.Wait()
			c.cmd = nil
			return nil, fmt.Errorf("the C binding died: %s", clip(c.err.String()))
		}
		out = append(out, b)
	}
	return out, nil
}

// parse feeds one line with the given reader state.
func (c *cBinding) parse(line string, state []byte) (msg []byte, newState []byte, err error) {
	r, err := c.call(2, []byte("parse"), []byte(line), state)
	if err != nil {
		return nil, nil, err
	}
	return r[0], r[1], nil
}

// encode returns the text of one outbound message.
func (c *cBinding) encode(msg []byte) (string, error) {
	if msg == nil {
		msg = []byte{}
	}
	r, err := c.call(1, []byte("encode"), msg)
	if err != nil {
		return "", err
	}
	return string(r[0]), nil
}
