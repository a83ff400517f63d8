package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
)

// Config describes how a BDD is created. Zero values of the optional fields
// mean "option not used", except where Set* says otherwise.
type Config struct {
	Varnum     int   `json:"varnum"`
	Nodesize   int   `json:"nodesize,omitempty"`
	Cachesize  int   `json:"cachesize,omitempty"`
	Cacheratio int   `json:"cacheratio,omitempty"`
	Minfree    *int  `json:"minfree,omitempty"`
	Maxinc     *int  `json:"maxinc,omitempty"`
	Maxnode    int   `json:"maxnode,omitempty"`
	Active     []int `json:"active"`        // levels used by generated functions
	Obs        int   `json:"obs,omitempty"` // observer: 0 Allnodes, 1 walk, 2 Allsat
}

// Op is one step of a program. Operands are register numbers; an operation
// whose operand register is empty does nothing.
type Op struct {
	K string `json:"k"`
	D int    `json:"d,omitempty"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	C int    `json:"c,omitempty"`
	N int    `json:"n,omitempty"`
	L []int  `json:"l,omitempty"`
	V []int  `json:"v,omitempty"`
	S string `json:"s,omitempty"`
}

// Case is a complete, self-contained test case: it is what a replay file holds.
type Case struct {
	Prop  string `json:"prop"`
	Impl  string `json:"impl,omitempty"`
	Cfg   Config `json:"cfg"`
	Ops   []Op   `json:"ops,omitempty"`
	Sub   []Case `json:"sub,omitempty"`   // several BDDs (C16)
	Sched []int  `json:"sched,omitempty"` // interleaving of Sub; empty means one goroutine each
	Note  string `json:"note,omitempty"`
}

func (c *Case) JSON() []byte {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	return b
}

func (c *Case) Hash() uint64 {
	h := fnv.New64a()
	h.Write(c.JSON())
	return h.Sum64()
}

func cloneCase(c *Case) *Case {
	var d Case
	if err := json.Unmarshal(c.JSON(), &d); err != nil {
		panic(err)
	}
	return &d
}

func (c *Case) String() string { return fmt.Sprintf("%s", c.JSON()) }

func ip(n int) *int { return &n }
