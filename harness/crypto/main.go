// Harness of the key handling: src/util/ecdsa_util.go, lc_util.go and the key
// generation tool. It is built so that the configuration directories are below
// the working directory of the process.
package main

import (
	"fmt"
	"math/big"
	"os"
	"strconv"
	"strings"

	. "../../../repo/src/util"
	"../mon"
)

// root is what the directories of the code under test are moved below. It leads
// to the working directory of whatever process uses it.
const root = "/proc/self/cwd/root"

func main() {
	for cls := 1; cls <= 5; cls++ {
		if !strings.HasPrefix(LCGetEtcDir(cls), root+"/") {
			fmt.Fprintln(os.Stderr, "crypto: the configuration directory is not in the scratch directory:", LCGetEtcDir(cls))
			os.Exit(70)
		}
	}
	if len(os.Args) > 1 && os.Args[1] == "child" {
		child(os.Args[2:])
		return
	}
	mon.Main(map[string]func(*mon.Ctx){"U14": u14, "U15": u15, "U16": u16, "U25": u25})
}

// child runs one of the functions that prompt, on the terminal it is started on,
// or a history of logging.
func child(args []string) {
	cls := 0
	if len(args) > 1 {
		cls, _ = strconv.Atoi(args[1])
	}
	switch args[0] {
	case "log":
		logChild(args[1:])
	case "load":
		k, err := LCLoadPrivKeyPrompt(cls, args[2])
		if err != nil || k == nil {
			fmt.Printf("RESULT error %v\n", err)
			os.Exit(3)
		}
		fmt.Printf("RESULT key %x\n", k.PublicKey.X.Bytes())
	case "save":
		x, _ := new(big.Int).SetString(args[3], 16)
		d, _ := new(big.Int).SetString(args[4], 16)
		if err := LCSaveKeyPairPrompt(cls, args[2], x, d); err != nil {
			fmt.Printf("RESULT error %v\n", err)
			os.Exit(3)
		}
		fmt.Printf("RESULT saved\n")
	}
}
