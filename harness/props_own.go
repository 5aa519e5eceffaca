package main

// C37: trees and errors of parses belong to the caller.

import (
	"bytes"
	"fmt"
	gotoken "go/token"
	"reflect"
	"strconv"
	"strings"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
	"pgregory.net/rapid"
)

type ownFile struct {
	Src     Src  `json:"src"`
	Set     int  `json:"set"`
	Reparse bool `json:"reparse,omitempty"` // as the file before
}

type ownCase struct {
	Files []ownFile `json:"files"`
	Order []int     `json:"order"` // in which the trees are written over
	Junk  string    `json:"junk"`  // what comes into the buffer afterwards
}

var posType = reflect.TypeOf(gotoken.Pos(0))

// dumpTree renders all that is reachable; positions are relative to the file.
func dumpTree(sb *strings.Builder, v reflect.Value, base int) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		dumpTree(sb, v.Elem(), base)
	case reflect.Slice:
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dumpTree(sb, v.Index(i), base)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.Struct:
		sb.WriteString(v.Type().Name())
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				dumpTree(sb, v.Field(i), base)
				sb.WriteByte(' ')
			}
		}
		sb.WriteByte('}')
	case reflect.String:
		sb.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		sb.WriteString(strconv.FormatBool(v.Bool()))
	default:
		switch {
		case !v.CanInt():
			fmt.Fprint(sb, v.Interface())
		case v.Type() == posType && v.Int() != 0:
			fmt.Fprintf(sb, "@%d", int(v.Int())-base)
		default:
			fmt.Fprint(sb, v.Int())
		}
	}
}

// eachNode calls f with all nodes behind pointers and all slices.
func eachNode(v reflect.Value, f func(reflect.Value)) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			eachNode(v.Elem(), f)
			f(v)
		}
	case reflect.Interface:
		if !v.IsNil() {
			eachNode(v.Elem(), f)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			eachNode(v.Index(i), f)
		}
		f(v)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				eachNode(v.Field(i), f)
			}
		}
	}
}

func drawOwn(t *rapid.T) *ownCase {
	c := &ownCase{Junk: pick(t, "junk", "\x00", "x", "struct S {} ", "\xff")}
	n := between(t, "files", 1, 4)
	for i := 0; i < n; i++ {
		f := ownFile{Set: between(t, "set", 0, 1)}
		switch between(t, "kind", 0, 6) {
		case 0, 1:
			f.Src = drawRendered(t, resolve(t, drawIDL(t, 4).toks))
		case 2:
			f.Src = drawRendered(t, mutateToks(t, resolve(t, drawIDL(t, 4).toks)))
		case 3:
			f.Src = mutateBytes(t, drawRendered(t, resolve(t, drawIDL(t, 4).toks)))
		case 4:
			f.Src = drawRendered(t, drawCorpus(t))
		case 5:
			f.Src = drawLexErrors(t).Src
		case 6:
			for _, s := range drawBroken(t).Segs {
				f.Src = append(append(f.Src, s.Src...), '\n')
			}
		}
		if i > 0 && chance(t, 40, "again") {
			f.Src, f.Reparse = c.Files[i-1].Src, true
		}
		c.Files = append(c.Files, f)
	}
	c.Order = rapid.Permutation(seq(n)).Draw(t, "order")
	return c
}

func seq(n int) (l []int) {
	for i := 0; i < n; i++ {
		l = append(l, i)
	}
	return
}

type ownTree struct {
	file *thriftfile.File
	base int
	err  error
	want string // the tree
	msg  string // and the error
	gone bool
}

func (o *ownTree) check(when string) error {
	if o.err != nil && o.err.Error() != o.msg {
		return fmt.Errorf("%s: the error %q became %q", when, o.msg, o.err)
	}
	if o.gone {
		return nil
	}
	var sb strings.Builder
	dumpTree(&sb, reflect.ValueOf(o.file), o.base)
	if got := sb.String(); got != o.want {
		i := 0
		for i < len(got) && i < len(o.want) && got[i] == o.want[i] {
			i++
		}
		i = max(0, i-60)
		return fmt.Errorf("%s:\n got ...%s\nwant ...%s", when, clip(got[i:], 300), clip(o.want[i:], 300))
	}
	return nil
}

func checkOwn(c *ownCase, x *Ctx) error {
	// Each alone.
	all := make([]ownTree, len(c.Files))
	size := 0
	for i, f := range c.Files {
		set := gotoken.NewFileSet()
		base := set.Base()
		file, err := thriftfile.Parse(set, idlName, bytes.Clone(f.Src))
		if file == nil {
			return fmt.Errorf("no tree returned (error: %v)", err)
		}
		var sb strings.Builder
		dumpTree(&sb, reflect.ValueOf(file), base)
		all[i].want = sb.String()
		if err != nil {
			all[i].msg = err.Error()
			x.Label("rejected")
		} else {
			x.Label("accepted")
		}
		size = max(size, len(f.Src))
	}
	sets := []*gotoken.FileSet{gotoken.NewFileSet(), gotoken.NewFileSet()}
	buf := make([]byte, size) // for all files
	nodes := map[uintptr]int{}
	count := 0
	for i, f := range c.Files {
		o := &all[i]
		set := sets[f.Set]
		o.base = set.Base()
		in := buf[:copy(buf, f.Src):size]
		o.file, o.err = thriftfile.Parse(set, idlName, in)
		if o.file == nil {
			return fmt.Errorf("no tree returned (error: %v)", o.err)
		}
		if (o.err == nil) != (o.msg == "") {
			return fmt.Errorf("file %d: error %v, alone %q", i, o.err, o.msg)
		}
		if !bytes.Equal(in, f.Src) {
			return fmt.Errorf("file %d: the parser changed its input", i)
		}
		for j := range buf {
			buf[j] = c.Junk[j%len(c.Junk)]
		}
		for j := 0; j <= i; j++ {
			if err := all[j].check(fmt.Sprintf("file %d is not the same after parsing file %d and using its buffer again", j, i)); err != nil {
				return err
			}
		}
		var err error
		eachNode(reflect.ValueOf(o.file), func(v reflect.Value) {
			if v.Kind() != reflect.Pointer || v.Type().Elem().Size() == 0 {
				return
			}
			count++
			if j, ok := nodes[v.Pointer()]; ok && err == nil {
				err = fmt.Errorf("a node of type %v of file %d occurs in file %d, too", v.Type(), i, j)
			}
			nodes[v.Pointer()] = i
		})
		if err != nil {
			return err
		}
	}
	if count > 10 {
		x.NonTrivial()
	}
	// Room behind a list is nobody else's.
	for i := range all {
		eachNode(reflect.ValueOf(all[i].file), func(v reflect.Value) {
			if v.Kind() == reflect.Slice {
				full := v.Slice(0, v.Cap())
				for j := v.Len(); j < v.Cap(); j++ {
					full.Index(j).SetZero()
				}
			}
		})
		for j := range all {
			if err := all[j].check(fmt.Sprintf("file %d is not the same after appending to the lists of file %d", j, i)); err != nil {
				return err
			}
		}
	}
	for _, i := range c.Order {
		all[i].gone = true
		eachNode(reflect.ValueOf(all[i].file), func(v reflect.Value) {
			if v.Kind() == reflect.Slice {
				for j := 0; j < v.Len(); j++ {
					v.Index(j).SetZero()
				}
				return
			}
			e := v.Elem()
			for j := 0; j < e.NumField(); j++ {
				if !e.Type().Field(j).IsExported() {
					continue
				}
				if f := e.Field(j); f.Kind() == reflect.String {
					f.SetString("changed")
				} else if f.CanInt() {
					f.SetInt(1 << 40)
				} else {
					f.SetZero()
				}
			}
		})
		for j := range all {
			if err := all[j].check(fmt.Sprintf("file %d is not the same after changing the tree of file %d", j, i)); err != nil {
				return err
			}
		}
	}
	// And the parser has not learned from any of that.
	for i, f := range c.Files {
		o := ownTree{want: all[i].want, msg: all[i].msg, base: sets[0].Base()}
		o.file, o.err = thriftfile.Parse(sets[0], idlName, bytes.Clone(f.Src))
		if o.file == nil || (o.err == nil) != (o.msg == "") {
			return fmt.Errorf("file %d parsed again: error %v, before %q", i, o.err, o.msg)
		}
		if err := o.check(fmt.Sprintf("file %d parsed again", i)); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	register(&property{
		id:   "C37",
		rule: "one to four files, valid, broken or of random bytes, some twice, parsed from one reused buffer into two file sets; non-trivial: more than 10 nodes",
		subs: []*subDef{sub("trees", 60000, 800000, drawOwn, checkOwn)},
	})
}
