package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/peterbourgon/trc/zmc"
)

func dbg() {
	for _, v := range checks[os.Args[2]].Variants(tier()) {
		if strings.Contains(v.Name, os.Args[3]) {
			zmc.SetTracing(true)
			res, _ := runOnce(v, nil)
			for i, p := range res.Points {
				if !p.CurEnabled || p.Data {
					fmt.Println(i, "N", p.N, "data", p.Data, "cur", p.Cur, fmt.Sprintf("%b", p.Enabled))
				}
			}
			fmt.Println(strings.Join(res.Trace, "\n"))
			return
		}
	}
}
