package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"strconv"
	"strings"

	"verif/mc/explore"
)

func init() {
	register("C24", "exhaustive enumeration of sequences of operations, each sequence in a fresh process; every operation must give the result it gives alone", "", c24)
}

type histStep struct {
	Op   int
	Now  string
	End  string `json:",omitempty"` // asked again when everything is over
	Same bool   `json:",omitempty"` // End is Now
}

func digest(s string) string {
	if len(s) < 40 {
		return s
	}
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:12])
}

// modes of a history
const (
	histLate  = 1 << iota // results are looked at when everything is over only
	histOwn               // the caller overwrites the results it got
	histReuse             // objects are used again
	histBrief             // only digests of the results are told
)

func init() {
	children["hist"] = func(args []string) int {
		mode, _ := strconv.Atoi(args[0])
		ops := histOps()
		e := newOpEnv(os.Getenv("MC_ECHO"), "", "")
		var got []interface{}
		e.note = func(v interface{}) { got = append(got, v) }
		ready := map[int]func() func() string{}
		var steps []histStep
		var fins []func() string
		for _, a := range args[1:] {
			i, _ := strconv.Atoi(a)
			f := ready[i]
			if f == nil || mode&histReuse == 0 || !ops[i].reuse {
				f = ops[i].prep(e, ident(0))
				ready[i] = f
			}
			got = nil
			fin := f()
			st := histStep{Op: i}
			if mode&histLate == 0 {
				st.Now = fin()
			}
			steps = append(steps, st)
			if mode&histOwn != 0 {
				for _, v := range got {
					scribble(reflect.ValueOf(v), map[uintptr]bool{})
				}
				fin = nil
			}
			fins = append(fins, fin)
		}
		for i, f := range fins {
			if f != nil {
				steps[i].End = f()
			}
		}
		for i := range steps {
			if mode&histBrief != 0 {
				steps[i].Now, steps[i].End = digest(steps[i].Now), digest(steps[i].End)
			}
			if steps[i].End == steps[i].Now {
				steps[i].End, steps[i].Same = "", true
			}
		}
		w := json.NewEncoder(os.Stdout)
		w.Encode(steps)
		return 0
	}
}

func histOps() []op {
	ops := append(append(allOps(), formatOps()...), valueOps()...)
	return append(append(ops, requestVariants()...), responseVariants()...)
}

var ratType = reflect.TypeOf(big.Rat{})
var bufType = reflect.TypeOf(bytes.Buffer{})

// scribble overwrites everything reachable.
func scribble(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		scribble(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), seen)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), seen)
		}
		if v.CanSet() && v.Len() > 0 {
			v.Set(v.Slice(0, v.Len()-1))
		}
	case reflect.Struct:
		if v.CanAddr() {
			switch v.Type() {
			case bufType:
				b := v.Addr().Interface().(*bytes.Buffer)
				for i := range b.Bytes() {
					b.Bytes()[i] = '#'
				}
				b.Reset()
				return
			}
			if v.Type().ConvertibleTo(ratType) && v.CanInterface() {
				v.Addr().Convert(reflect.PtrTo(ratType)).Interface().(*big.Rat).SetInt64(4242)
				return
			}
		}
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), seen)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Int, reflect.Int64:
		if v.CanSet() {
			v.SetInt(99)
		}
	case reflect.Uint, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(1)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

func c24(c *Ctx) {
	c.Assume = append(c.Assume, "the caller may overwrite what it was given", "operations as in C23: parsing, marshaling, requests through shared clients with every outcome, values")
	p := c.newPKI()
	os.Setenv("MC_ECHO", c.newEcho(p.ecdsaCert))
	exe, err := os.Executable()
	if err != nil {
		panic("model: " + err.Error())
	}
	ops := histOps()
	nops := len(allOps())
	nformats := len(formatOps())
	history := func(x *explore.X, mode int, seq []int) []histStep {
		args := []string{"hist", strconv.Itoa(mode)}
		for _, i := range seq {
			args = append(args, strconv.Itoa(i))
		}
		out, err := runChild(exe, args...)
		if err != nil {
			x.Fail("crash", "operations %s: %v\n%s", opNames(ops, seq), err, clip(out))
		}
		var steps []histStep
		if err := json.Unmarshal([]byte(out), &steps); err != nil || len(steps) != len(seq) {
			panic("model: child says " + clip(out))
		}
		for i := range steps {
			if steps[i].Same {
				steps[i].End = steps[i].Now
			}
		}
		return steps
	}
	// results of operations alone in a process
	base := make([]string, len(ops))
	c.Space(&explore.Space{Name: "alone", Body: func(x *explore.X) {
		i := x.Choose("operation", len(ops))
		for mode := 0; mode < 8; mode++ {
			if i >= nops+nformats && mode > 0 {
				break // plain values, variants
			}
			s := history(x, mode, []int{i})[0]
			if mode == 0 {
				base[i] = s.Now
			}
			if mode&histLate == 0 && s.Now != base[i] {
				x.Fail("result", "%s, done in another process, gives\n%s\nand\n%s", ops[i].name, clip(base[i]), clip(s.Now))
			}
			if mode&histOwn == 0 && s.End != base[i] {
				x.Fail("result", "%s: the result changes from\n%s\nto\n%s", ops[i].name, clip(base[i]), clip(s.End))
			}
		}
		x.State(ops[i].name, base[i])
		x.Sample(ops[i].name + ": " + clipN(base[i], 300))
	}})
	if c.Stop() {
		return
	}
	for i := range ops {
		if base[i] == "" { // replaying, or only some spaces
			explore.Exec(&explore.Space{Body: func(x *explore.X) { base[i] = history(x, 0, []int{i})[0].Now }}, nil, nil, false)
		}
	}
	var everything, local []int
	for i, o := range ops[:nops] {
		everything = append(everything, i)
		if !o.net {
			local = append(local, i)
		}
	}
	brief := make([]string, len(ops))
	for i, s := range base {
		brief[i] = digest(s)
	}
	judge := func(x *explore.X, mode int, seq []int, from int) {
		steps := history(x, mode|histBrief, seq)
		wrong := false
		for _, s := range steps {
			wrong = wrong || mode&histLate == 0 && s.Now != brief[s.Op] || mode&histOwn == 0 && s.End != brief[s.Op]
		}
		if wrong {
			steps = history(x, mode, seq)
			wrong = false
			for _, s := range steps {
				wrong = wrong || mode&histLate == 0 && s.Now != base[s.Op] || mode&histOwn == 0 && s.End != base[s.Op]
			}
			if !wrong {
				x.Fail("result", "operations %s do not give the same results twice", opNames(ops, seq))
			}
		}
		for k, s := range steps {
			if !wrong {
				break
			}
			if mode&histLate == 0 && s.Now != base[s.Op] {
				x.Fail("result", "%s after %s (mode %d) gives\n%s\ninstead of\n%s", ops[s.Op].name, opNames(ops, seq[:k]), mode, clip(s.Now), clip(base[s.Op]))
			}
			if mode&histOwn == 0 && s.End != base[s.Op] {
				x.Fail("changed", "the result of %s after %s, looked at after %s (mode %d), is\n%s\ninstead of\n%s", ops[s.Op].name, opNames(ops, seq[:k]), opNames(ops, seq[k:]), mode, clip(s.End), clip(base[s.Op]))
			}
		}
		x.State(opNames(ops, seq[:from]), fmt.Sprint(mode))
		x.Sample(fmt.Sprintf("mode %d: %s, then every operation", mode, opNames(ops, seq[:from])))
	}
	modes := []int{histReuse, histLate | histReuse, histOwn, 0, histLate, histOwn | histReuse}
	c.Space(&explore.Space{Name: "depth 2", Body: func(x *explore.X) {
		i := x.Choose("first", nops)
		m := modes[x.Choose("mode", len(modes))]
		judge(x, m, append([]int{i}, everything...), 1)
	}})
	// documents of every kind and with every defect
	var formats []int
	for i := nops; i < nops+nformats; i++ {
		formats = append(formats, i)
	}
	var values []int
	nvalues := nops + nformats + len(valueOps())
	for i := nops + nformats; i < nvalues; i++ {
		values = append(values, i)
	}
	nreq := nvalues + len(requestVariants())
	c.Space(&explore.Space{Name: "request variants", Body: func(x *explore.X) {
		i := nvalues + x.Choose("first", nreq-nvalues)
		var seq []int
		for j := nvalues; j < nreq; j++ {
			seq = append(seq, i, j)
		}
		judge(x, 0, seq, 1)
	}})
	c.Space(&explore.Space{Name: "response variants", Body: func(x *explore.X) {
		// each one followed by the default documents of all messages
		i := nreq + x.Choose("first", len(ops)-nreq)
		var seq []int
		for j := nreq; j < len(ops); j++ {
			if c.Thorough() || strings.Contains(ops[j].name, "-1:0") {
				seq = append(seq, i, j)
			}
		}
		judge(x, 0, seq, 1)
	}})
	c.Space(&explore.Space{Name: "values", Body: func(x *explore.X) {
		// every ordered pair, the first being new
		i := values[x.Choose("first", len(values))]
		var seq []int
		for _, j := range values {
			seq = append(seq, i, j)
		}
		judge(x, 0, seq, 1)
	}})
	if c.Thorough() {
		c.Space(&explore.Space{Name: "formats", Body: func(x *explore.X) {
			i := formats[x.Choose("first", len(formats))]
			m := modes[x.Choose("mode", c.Pick(1, len(modes)))]
			k := x.Choose("times", 2)*2 + 1
			var seq []int
			for n := 0; n < k; n++ {
				seq = append(seq, i)
			}
			judge(x, m, append(seq, formats...), k)
		}})
	}
	c.Space(&explore.Space{Name: "formats in between", Body: func(x *explore.X) {
		// every ordered pair next to each other, the first being new
		i := x.Choose("first", len(formats))
		var seq []int
		for _, j := range formats {
			seq = append(seq, formats[i], j)
		}
		judge(x, modes[x.Choose("mode", c.Pick(1, len(modes)))], seq, 1)
	}})
	c.Space(&explore.Space{Name: "depth 3", Body: func(x *explore.X) {
		i := x.Choose("first", nops)
		j := x.Choose("second", nops)
		m := modes[x.Choose("mode", c.Pick(1, 3))]
		tail := everything
		if !c.Thorough() {
			tail = local
		}
		judge(x, m, append([]int{i, j}, tail...), 2)
	}})
	c.Space(&explore.Space{Name: "repeated", Body: func(x *explore.X) {
		ns := append([]int{3, 10, 40, 130, 300}, litSizes(2000)...)
		i := x.Choose("operation", nops)
		n := ns[x.Choose("times", len(ns))]
		if ops[i].net && n > 60 {
			n = 60
		}
		m := modes[x.Choose("mode", 3)]
		var seq []int
		for k := 0; k < n; k++ {
			seq = append(seq, i)
		}
		judge(x, m, append(seq, everything...), n)
	}})
	c.Space(&explore.Space{Name: "alternating", Body: func(x *explore.X) {
		i := x.Choose("first", len(local))
		j := x.Choose("second", len(local))
		var seq []int
		for k := 0; k < c.Pick(6, 40); k++ {
			seq = append(seq, local[i], local[j], local[j])
		}
		judge(x, histReuse, seq, len(seq))
	}})
	if c.Thorough() {
		c.Space(&explore.Space{Name: "depth 4", Body: func(x *explore.X) {
			i, j, k := x.Choose("first", len(local)), x.Choose("second", len(local)), x.Choose("third", len(local))
			judge(x, histReuse, append([]int{local[i], local[j], local[k]}, local...), 3)
		}})
	}
}

func opNames(ops []op, seq []int) string {
	var s []string
	for _, i := range seq {
		s = append(s, ops[i].name)
	}
	if len(s) > 12 {
		s = append(append(s[:3:3], fmt.Sprintf("... %d more ...", len(s)-8)), s[len(s)-5:]...)
	}
	return "[" + strings.Join(s, ", ") + "]"
}
