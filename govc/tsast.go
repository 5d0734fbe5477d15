package main

import (
	"encoding/json"
	"os"
)

// The syntax tree written by ts/astdump.js.

type TN struct {
	K string
	L int
	s map[string]string
	b map[string]bool
	n map[string]*TN
	a map[string][]*TN

	file string
	name string // of the enclosing function, for reports
}

type TMod struct {
	file string
	body []*TN
}

type TProg struct {
	order []string
	mods  map[string]*TMod
}

func tnode(m map[string]interface{}, file string) *TN {
	t := &TN{s: map[string]string{}, b: map[string]bool{}, n: map[string]*TN{}, a: map[string][]*TN{}, file: file}
	for k, v := range m {
		switch x := v.(type) {
		case string:
			if k == "k" {
				t.K = x
			} else {
				t.s[k] = x
			}
		case float64:
			if k == "l" {
				t.L = int(x)
			}
		case bool:
			t.b[k] = x
		case map[string]interface{}:
			t.n[k] = tnode(x, file)
		case []interface{}:
			l := make([]*TN, len(x))
			for i, y := range x {
				switch z := y.(type) {
				case map[string]interface{}:
					l[i] = tnode(z, file)
				case string:
					l[i] = &TN{K: "str", s: map[string]string{"v": z}, file: file}
				}
			}
			t.a[k] = l
		}
	}
	return t
}

func loadTS(path string) (*TProg, error) {
	bs, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var d struct {
		Order []string                          `json:"order"`
		Mods  map[string]map[string]interface{} `json:"mods"`
	}
	if err := json.Unmarshal(bs, &d); err != nil {
		return nil, err
	}
	p := &TProg{order: d.Order, mods: map[string]*TMod{}}
	for f, m := range d.Mods {
		p.mods[f] = &TMod{file: f, body: tnode(m, f).a["body"]}
	}
	return p, nil
}
