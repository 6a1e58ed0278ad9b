// Line protocol as in bits_cpp.cpp (reads only); built against the package copied from the working tree.
package main

import (
	"bufio"
	"errors"
	"fmt"
	"os"
	"strconv"
	"strings"

	"verif/bits/flatdata"
)

type mem []byte

func (m mem) ReadAt(p []byte, off int64) (int, error) { return 0, errors.New("unused") }
func (m mem) Close() error                            { return nil }
func (m mem) Len() int                                { return len(m) }
func (m mem) At(i int) byte                           { return m[i] }

func main() {
	in := bufio.NewScanner(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	var m mem
	for in.Scan() {
		f := strings.Fields(in.Text())
		if len(f) == 0 {
			continue
		}
		n := make([]uint, len(f)-1)
		for i, x := range f[1:] {
			v, _ := strconv.ParseUint(x, 10, 64)
			n[i] = uint(v)
		}
		if f[0] == "init" {
			m = make(mem, 0)
			for _, b := range n[1:] {
				m = append(m, byte(b))
			}
			continue
		}
		v := uint64(flatdata.Read(m, n[0], n[1], n[2] != 0))
		for i := uint(0); i < 8; i++ {
			fmt.Fprintf(out, "%d ", byte(v>>(8*i)))
		}
		fmt.Fprintln(out)
	}
}
