package main

// Which contracts a contract relies on. A call site is checked against the
// contract of the callee; the contracts so used are recorded here, and the
// check discharges those of other properties too (supporting contracts).

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rely records contracts by name; a name ending in * stands for every contract
// that starts with it.
func (e *Engine) rely(names ...string) {
	for _, n := range names {
		e.relied[n] = true
	}
}

// relyMap: the contracts of one method of a collection type.
func (e *Engine) relyMap(am *amType, method string) {
	t := am.named.Obj().Name()
	switch method {
	case "Put", "ReplaceOrPut", "ReplaceIfExists", "Delete":
		e.rely("VcC01_" + t + "_" + method)
	case "PutIfNotNil":
		e.rely("VcC01_" + t + "_PutIfNotNil*")
	case "Has", "Len", "Get", "IndexOf":
		e.rely("VcC02_" + t + "_lookup")
	case "New":
		e.rely("VcC02_" + t + "_New*")
	case "GetOpt", "At", "ForEach":
		e.rely("VcC02_" + t + "_" + method)
	case "ToYAML", "MarshalYAML", "MarshalJSON":
		e.rely("VcC03_" + t + "_" + method)
	case "SerializeOrdered":
		e.rely("VcC03_"+t+"_ToYAML", "VcC03_"+t+"_MarshalYAML")
	}
}

// relyElem: the contract of reading or writing an element of a kind.
func (e *Engine) relyElem(t types.Type, what string) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return
	}
	k := n.Obj().Name()
	if k == "ApiSpec" {
		k = "APISpec"
	}
	id, wr := "C08", "C12"
	switch {
	case k == "APISpec" || k == "Library":
		id, wr = "C10", "C14"
	case k == "XML" || k == "Documentation" || strings.HasSuffix(k, "Example"):
		id, wr = "C09", "C13"
	}
	if what == "parse" {
		e.rely("Vc" + id + "_" + k + "_parse")
	} else {
		e.rely("Vc" + wr + "_" + k + "_ToYAML")
	}
}

// relyFill: the contract of adding the entries of a mapping to a collection.
func (e *Engine) relyFill(fn *ssa.Function, am *amType) {
	if strings.Contains(fn.String(), "/assign.") {
		e.rely("VcC08_assign_" + am.named.Obj().Name())
	} else {
		e.rely("VcC08_fill_" + am.named.Obj().Name())
	}
}

// Contracts relied on where the engine sees only the outcome of a dispatch:
// values of an interface type that are written by their own method.
var alsoRely = map[string][]string{
	"C12": {"VcC13_*"},
	"C14": {"VcC12_*", "VcC13_*"},
}

// The properties whose contracts matter to a property. Not crashing, and
// reading back what was written, are proved for the elements of every kind by
// contracts of C11 and C15 themselves.
var reliesOn = map[string]string{
	"C04": "C01 C02",
	"C05": "C01 C02",
	"C06": "C02",
	"C07": "C01 C02",
	"C08": "C01 C02 C07 C09",
	"C09": "C01 C02 C08",
	"C10": "C01 C02 C07 C08 C09",
	"C11": "C01 C02",
	"C12": "C01 C02 C03 C13",
	"C13": "C01 C02 C03",
	"C14": "C01 C02 C03 C12 C13",
	"C15": "C01 C02 C03",
}

// supporting finds the contracts of other properties that the finished ones
// rely on and that are not done yet.
func supporting(all []*Harness, reps []*Report, done map[string]bool, prop string) []*Harness {
	var res []*regexp.Regexp
	add := func(n string) {
		res = append(res, regexp.MustCompile("^"+strings.ReplaceAll(regexp.QuoteMeta(n), `\*`, ".*")+"$"))
	}
	names := map[string]bool{}
	for _, r := range reps {
		for n := range r.Relied {
			if strings.Contains(reliesOn[prop], n[2:5]) || n == "VcC11_ToScalarValue" {
				names[n] = true
			}
		}
	}
	for _, n := range alsoRely[prop] {
		names[n] = true
	}
	for _, n := range sortedKeys(names) {
		add(n)
	}
	var out []*Harness
	for _, h := range all {
		if done[h.Name] || strings.HasSuffix(h.Name, "_deep") {
			continue
		}
		for _, re := range res {
			if re.MatchString(h.Name) {
				done[h.Name] = true
				out = append(out, h)
				break
			}
		}
	}
	return out
}
