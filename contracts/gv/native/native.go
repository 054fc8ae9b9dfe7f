// Package native runs contract harnesses on concrete inputs: the same text the verifier proves, executed against the
// compiled code.
package native

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
	"unsafe"

	gv "github.com/qiniu/uip/verifgv"
)

// Rand is the source of all choices.
type Rand struct {
	*rand.Rand
	depth int
}

var gens = map[reflect.Type]func(r *Rand) reflect.Value{}
var harnessGens = map[string]func(r *Rand) []interface{}{}

// Register adds a generator for the type that f returns: func(*Rand) T.
func Register(f interface{}) {
	v := reflect.ValueOf(f)
	gens[v.Type().Out(0)] = func(r *Rand) reflect.Value { return v.Call([]reflect.Value{reflect.ValueOf(r)})[0] }
}

// For sets the generator of the arguments of one harness.
func For(name string, f func(r *Rand) []interface{}) { harnessGens[name] = f }

// Pick chooses one of the strings.
func (r *Rand) Pick(s ...string) string { return s[r.Intn(len(s))] }

// Ints are numbers of interest.
func (r *Rand) IntOfInterest() int {
	switch r.Intn(12) {
	case 0:
		return -1
	case 1:
		return []int{0, 1, 3, 4, 5, 16, 31, 32, 33, 64, 127, 128, 255, 256, 65535, 65536}[r.Intn(16)]
	case 2:
		return int(r.Uint64())
	case 3:
		return int(int32(r.Uint32()))
	case 4:
		return -r.Intn(200)
	}
	return r.Intn(130)
}

// Fill fills bytes with patterns that matter at carries and boundaries.
func (r *Rand) Fill(b []byte) {
	switch r.Intn(7) {
	case 0: // zero tail
		r.Read(b)
		for i := r.Intn(len(b) + 1); i < len(b); i++ {
			b[i] = 0
		}
	case 1: // ones tail
		r.Read(b)
		for i := r.Intn(len(b) + 1); i < len(b); i++ {
			b[i] = 255
		}
	case 2:
		for i := range b {
			b[i] = []byte{0, 255, 1, 128, 254, 127}[r.Intn(6)]
		}
	case 3:
		for i := range b {
			b[i] = 255
		}
		if r.Intn(2) == 0 && len(b) > 0 {
			b[len(b)-1-r.Intn(len(b))] = byte(r.Intn(256))
		}
	case 4:
		for i := range b {
			b[i] = 0
		}
		if r.Intn(2) == 0 && len(b) > 0 {
			b[len(b)-1-r.Intn(len(b))] = byte(r.Intn(256))
		}
	default:
		r.Read(b)
	}
}

// IP makes an address of a form.
func (r *Rand) IP() net.IP {
	switch r.Intn(10) {
	case 0, 1, 2, 3:
		ip := make(net.IP, 4)
		r.Fill(ip)
		return ip
	case 4, 5, 6:
		ip := make(net.IP, 4)
		r.Fill(ip)
		return ip.To16()
	}
	ip := make(net.IP, 16)
	r.Fill(ip)
	return ip
}

// Net makes a network, its base address not always clear of host bits.
func (r *Rand) Net() *net.IPNet {
	ip := r.IP()
	bits := 8 * len(ip)
	n := r.Intn(bits + 1)
	if bits == 128 && ip.To4() != nil && r.Intn(2) == 0 {
		n = 96 + r.Intn(33)
	}
	m := net.CIDRMask(n, bits)
	if r.Intn(4) != 0 {
		for i := range ip {
			ip[i] &= m[i]
		}
	}
	return &net.IPNet{IP: ip, Mask: m}
}

var words = []string{"", "a", "b", "中国", "香港", "电信", "联通", "移动", "未知", "other", "x\ty", "1,2", "北京", "上海", "NA", "13335", "4134"}

// Word is a short string.
func (r *Rand) Word() string {
	if r.Intn(8) == 0 {
		b := make([]byte, r.Intn(6))
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return string(b)
	}
	return words[r.Intn(len(words))]
}

// Near is a word that differs a little from s.
func (r *Rand) Near(s string) string {
	b := []byte(s)
	if len(b) == 0 {
		return r.Pick(" ", ".", "a", "")
	}
	i := r.Intn(len(b))
	if r.Intn(2) == 0 {
		i = (len(b) - 1) * r.Intn(2)
	}
	switch r.Intn(6) {
	case 0:
		b[i] ^= 0x20
	case 1:
		b[i]++
	case 2:
		b = append(b[:i], b[i+1:]...)
	case 3:
		b = append(b[:i], append([]byte(r.Pick(" ", ".", "a", "/", "\x00", "_")), b[i:]...)...)
	case 4:
		return s + r.Pick(" ", ".", "\n", ".gz", s, "x")
	case 5:
		return r.Pick(" ", ".", "-", s, "x.") + s
	}
	return string(b)
}

// Twins are two different lists of n >= 2 words that read the same when they are joined with some separator.
func (r *Rand) Twins(n int) ([]string, []string) {
	x := make([]string, n)
	for i := range x {
		x[i] = r.Word()
	}
	y := append([]string{}, x...)
	i := r.Intn(n - 1)
	sep := r.Pick("", " ", ",", "|", "-", "/", "\t", ":", ";", "_", "=")
	a, b, c := r.Pick("a", "中", ""), r.Pick("b", "国", ""), r.Pick("a", "c", "")
	x[i], x[i+1] = a, b+sep+c
	y[i], y[i+1] = a+sep+b, c
	return x, y
}

func (r *Rand) val(t reflect.Type) reflect.Value {
	if g := gens[t]; g != nil {
		return g(r)
	}
	v := reflect.New(t).Elem()
	r.depth++
	defer func() { r.depth-- }()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		v.SetInt(int64(r.IntOfInterest()))
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8, reflect.Uintptr:
		if r.Intn(2) == 0 {
			v.SetUint(r.Uint64())
		} else {
			v.SetUint(uint64(r.IntOfInterest()))
		}
	case reflect.Float64, reflect.Float32:
		v.SetFloat(r.NormFloat64())
	case reflect.String:
		v.SetString(r.Word())
	case reflect.Slice:
		if r.depth > 6 || r.Intn(10) == 0 {
			return v
		}
		n := r.Intn(5)
		if t.Elem().Kind() == reflect.Uint8 {
			n = []int{0, 1, 3, 4, 5, 15, 16, 17, r.Intn(40)}[r.Intn(9)]
			b := make([]byte, n)
			r.Fill(b)
			v.Set(reflect.MakeSlice(t, n, n))
			reflect.Copy(v, reflect.ValueOf(b).Convert(reflect.TypeOf([]byte{})))
			return v
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			v.Index(i).Set(r.val(t.Elem()))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).Set(r.val(t.Elem()))
		}
	case reflect.Ptr:
		if r.depth > 6 || r.Intn(12) == 0 {
			return v
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(r.val(t.Elem()))
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				v.Field(i).Set(r.val(t.Field(i).Type))
			}
		}
	case reflect.Map:
		if r.depth > 6 || r.Intn(10) == 0 {
			return v
		}
		v.Set(reflect.MakeMap(t))
		for i := r.Intn(4); i > 0; i-- {
			v.SetMapIndex(r.val(t.Key()), r.val(t.Elem()))
		}
	}
	return v
}

// Val makes a value of the type of x.
func (r *Rand) Val(x interface{}) interface{} { return r.val(reflect.TypeOf(x)).Interface() }

func init() {
	Register(func(r *Rand) net.IP {
		if r.Intn(20) == 0 {
			b := make(net.IP, r.Intn(20))
			r.Fill(b)
			return b
		}
		return r.IP()
	})
	Register(func(r *Rand) net.IPMask {
		n := r.Net()
		return n.Mask
	})
	Register(func(r *Rand) *net.IPNet {
		if r.Intn(20) == 0 {
			return nil
		}
		return r.Net()
	})
	Register(func(r *Rand) net.IPNet { return *r.Net() })
}

// ---- frame condition: what existed before and is not listed as modified is unchanged ----

type object struct {
	v    reflect.Value
	addr uintptr
	dump string
	path string
	part []string // per field, of a struct
}

func (o *object) parts() []string {
	if o.v.Kind() != reflect.Ptr || o.v.Elem().Kind() != reflect.Struct {
		return nil
	}
	var ps []string
	for i := 0; i < o.v.Elem().NumField(); i++ {
		var b strings.Builder
		shallow(o.v.Elem().Field(i), &b)
		ps = append(ps, b.String())
	}
	return ps
}

func shallow(v reflect.Value, b *strings.Builder) {
	switch v.Kind() {
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			shallow(v.Field(i), b)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			shallow(v.Index(i), b)
			b.WriteByte(' ')
		}
	case reflect.Slice:
		fmt.Fprintf(b, "[%x %d %d]", v.Pointer(), v.Len(), v.Cap())
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		fmt.Fprintf(b, "*%x", v.Pointer())
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
		} else {
			b.WriteString(v.Elem().Type().String())
			shallow(v.Elem(), b)
		}
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	}
}

func (o *object) state() string {
	var b strings.Builder
	switch o.v.Kind() {
	case reflect.Ptr:
		shallow(o.v.Elem(), &b)
	case reflect.Slice:
		if o.v.Type().Elem().Kind() == reflect.Uint8 {
			x := o.v.Slice3(0, o.v.Cap(), o.v.Cap())
			for i := 0; i < x.Len(); i++ {
				fmt.Fprintf(&b, "%02x", x.Index(i).Uint())
			}
			break
		}
		x := o.v.Slice3(0, o.v.Cap(), o.v.Cap())
		if x.Len() > 4096 && x.Type().Elem().Kind() == reflect.Uint {
			b.Write(unsafe.Slice((*byte)(unsafe.Pointer(x.Pointer())), x.Len()*8))
			break
		}
		for i := 0; i < x.Len(); i++ {
			shallow(x.Index(i), &b)
			b.WriteByte(' ')
		}
	case reflect.Map:
		var ks []string
		it := o.v.MapRange()
		for it.Next() {
			var e strings.Builder
			shallow(it.Key(), &e)
			e.WriteString("=>")
			shallow(it.Value(), &e)
			ks = append(ks, e.String())
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ";"))
	}
	return b.String()
}

type walker struct {
	seen map[string]bool
	objs []*object
}

func (w *walker) add(v reflect.Value, path string) bool {
	k := fmt.Sprintf("%s %x", v.Type(), v.Pointer())
	if v.Kind() == reflect.Slice {
		k += fmt.Sprint(" ", v.Cap())
	}
	if w.seen[k] || v.IsNil() {
		return false
	}
	w.seen[k] = true
	if v.CanAddr() { // keep the reference itself, not the place it was found in
		c := reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
		v = reflect.ValueOf(c.Interface())
	}
	o := &object{v: v, addr: v.Pointer(), path: path}
	o.dump = o.state()
	o.part = o.parts()
	w.objs = append(w.objs, o)
	return true
}

func (w *walker) walk(v reflect.Value, path string) {
	if len(w.objs) > 4000 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if w.add(v, path) {
			w.walk(v.Elem(), "*"+path)
		}
	case reflect.Slice:
		if w.add(v, path) && v.Type().Elem().Kind() != reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				w.walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
			}
		}
	case reflect.Map:
		if w.add(v, path) {
			it := v.MapRange()
			for it.Next() {
				w.walk(it.Value(), path+"[..]")
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i), path+"."+v.Type().Field(i).Name)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
		}
	case reflect.Interface:
		if !v.IsNil() {
			w.walk(v.Elem(), path)
		}
	}
}

func (w *walker) check() string {
	ex := map[uintptr]bool{}
	types := map[uintptr]reflect.Type{}
	for _, m := range gv.Modified {
		v := reflect.ValueOf(m)
		switch v.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Map:
			ex[v.Pointer()] = true
			if v.Kind() == reflect.Ptr {
				types[v.Pointer()] = v.Type()
			}
		}
	}
	for _, o := range w.objs {
		whole := ex[o.addr] && (o.part == nil || o.v.Type() == types[o.addr])
		if whole {
			continue
		}
		if o.part != nil {
			for i, p := range o.parts() {
				if a := o.addr + o.v.Elem().Type().Field(i).Offset; p != o.part[i] && !ex[a] {
					return fmt.Sprintf("frame: %s.%s was changed from %s to %s", o.path, o.v.Elem().Type().Field(i).Name, cut(o.part[i]), cut(p))
				}
			}
			continue
		}
		if s := o.state(); s != o.dump {
			return fmt.Sprintf("frame: %s was changed from %s to %s", o.path, cut(o.dump), cut(s))
		}
	}
	return ""
}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// Show prints a value with everything it refers to.
func Show(v reflect.Value, d int) string {
	if d > 7 {
		return "..."
	}
	if v.IsValid() && v.CanInterface() && v.Kind() == reflect.Ptr && !v.IsNil() {
		if n, ok := v.Interface().(*net.IPNet); ok {
			return fmt.Sprintf("net{%x/%x}", []byte(n.IP), []byte(n.Mask))
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + Show(v.Elem(), d+1)
	case reflect.Slice:
		if v.IsNil() {
			return "nil"
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("x%x", v.Bytes())
		}
		fallthrough
	case reflect.Array:
		var p []string
		for i := 0; i < v.Len() && i < 40; i++ {
			p = append(p, Show(v.Index(i), d+1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case reflect.Struct:
		var p []string
		for i := 0; i < v.NumField(); i++ {
			p = append(p, v.Type().Field(i).Name+":"+Show(v.Field(i), d+1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return Show(v.Elem(), d+1)
	case reflect.Map:
		var p []string
		it := v.MapRange()
		for it.Next() {
			p = append(p, Show(it.Key(), d+1)+":"+Show(it.Value(), d+1))
		}
		sort.Strings(p)
		return "map[" + strings.Join(p, " ") + "]"
	case reflect.Func, reflect.Chan:
		return v.Type().String()
	}
	var b strings.Builder
	shallow(v, &b)
	return b.String()
}

// ---- running ----

// Report is what is known about one harness after its runs.
type Report struct {
	Harness  string
	Runs     int      // inputs made
	Ran      int      // of those, inputs that met the preconditions
	Distinct int      // of those, different ones
	Samples  []string // some of them
	Fail     string   // what failed
	Iter     int
	Input    string
}

func hash(name string) int64 {
	h := int64(1469598103934665603)
	for _, c := range []byte(name) {
		h = (h ^ int64(c)) * 1099511628211
	}
	return h
}

func one(name string, f reflect.Value, seed int64, iter int) (ran bool, input, fail string) {
	r := &Rand{Rand: rand.New(rand.NewSource(hash(name) ^ seed*1000003 ^ int64(iter)*7919))}
	var args []reflect.Value
	if g := harnessGens[name]; g != nil {
		for i, a := range g(r) {
			v := reflect.New(f.Type().In(i)).Elem()
			if a != nil {
				v.Set(reflect.ValueOf(a))
			}
			args = append(args, v)
		}
	} else {
		for i := 0; i < f.Type().NumIn(); i++ {
			args = append(args, r.val(f.Type().In(i)))
		}
	}
	var in []string
	for _, a := range args {
		in = append(in, Show(a, 0))
	}
	input = strings.Join(in, ", ")
	w := &walker{seen: map[string]bool{}}
	for i, a := range args {
		w.walk(a, fmt.Sprintf("argument %d", i))
	}
	gv.Modified = nil
	ran = true
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch e := e.(type) {
				case gv.Skipped:
					ran = false
				case gv.Failure:
					fail = e.Msg
				default:
					fail = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
				}
			}
		}()
		f.Call(args)
	}()
	if ran && fail == "" {
		fail = w.check()
	}
	return
}

// Main runs the harnesses of a package.
func Main(t *testing.T, fns map[string]interface{}) {
	out, err := os.Create(os.Getenv("GV_OUT"))
	if err != nil {
		t.Skip("no output file")
	}
	defer out.Close()
	enc := json.NewEncoder(out)
	seed, _ := strconv.ParseInt(os.Getenv("GV_SEED"), 10, 64)
	iters, _ := strconv.Atoi(os.Getenv("GV_ITERS"))
	ms, _ := strconv.Atoi(os.Getenv("GV_MS"))
	trace := os.Getenv("GV_TRACE") != ""
	want := map[string]bool{}
	for _, n := range strings.Split(os.Getenv("GV_HARNESS"), ",") {
		want[n] = true
	}
	debug.SetMaxStack(64 << 20)
	var names []string
	for n := range fns {
		if want[n] {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	replay := -1
	if s := os.Getenv("GV_ITER"); s != "" {
		replay, _ = strconv.Atoi(s)
	}
	var cur string
	var curIter int
	tick := make(chan int, 1)
	go func() { // an iteration that does not end
		last, since := "", time.Now()
		for range time.Tick(200 * time.Millisecond) {
			select {
			case tick <- 0:
			default:
			}
			k := fmt.Sprint(cur, curIter)
			if k != last {
				last, since = k, time.Now()
			} else if cur != "" && time.Since(since) > 8*time.Second {
				enc.Encode(Report{Harness: cur, Fail: "the call does not return within 8 seconds", Iter: curIter})
				out.Sync()
				os.Exit(7)
			}
		}
	}()
	for _, n := range names {
		rep := Report{Harness: n}
		seen := map[string]bool{}
		f := reflect.ValueOf(fns[n])
		t0 := time.Now()
		for i := 0; i < iters; i++ {
			if replay >= 0 {
				i = replay
			}
			cur, curIter = n, i
			if trace {
				os.WriteFile(os.Getenv("GV_TRACE"), []byte(fmt.Sprintf("%s %d", n, i)), 0644)
			}
			ran, in, fail := one(n, f, seed, i)
			rep.Runs++
			if ran {
				rep.Ran++
				if len(in) < 4000 && !seen[in] {
					seen[in] = true
				}
				if rep.Ran <= 2 {
					rep.Samples = append(rep.Samples, cut(in))
				}
			}
			if fail != "" {
				rep.Fail, rep.Iter, rep.Input = fail, i, in
				break
			}
			if replay >= 0 {
				break
			}
			if ms > 0 && i%16 == 15 && time.Since(t0) > time.Duration(ms)*time.Millisecond {
				break
			}
		}
		cur = ""
		rep.Distinct = len(seen)
		enc.Encode(rep)
	}
}

// Nets makes disjoint networks of a family in ascending order; gap says how many tenths of the parts are left out.
func (r *Rand) Nets(bits, parts, gap int) []*net.IPNet {
	root := make(net.IP, bits/8)
	n := 0
	if r.Intn(3) > 0 {
		r.Fill(root)
		n = r.Intn(bits + 1)
	}
	m := net.CIDRMask(n, bits)
	l := []*net.IPNet{{IP: root.Mask(m), Mask: m}}
	for k := 0; k < 40 && len(l) < parts; k++ {
		i := r.Intn(len(l))
		for d := 1 + r.Intn(bits/4); d > 0 && len(l) < parts+4; d-- {
			n, _ := l[i].Mask.Size()
			if n == bits {
				break
			}
			m := net.CIDRMask(n+1, bits)
			hi := append(net.IP{}, l[i].IP...)
			hi[n/8] |= 128 >> (n % 8)
			a, b := &net.IPNet{IP: l[i].IP, Mask: m}, &net.IPNet{IP: hi, Mask: m}
			l = append(l[:i], append([]*net.IPNet{a, b}, l[i+1:]...)...)
			i += r.Intn(2)
		}
	}
	var out []*net.IPNet
	for _, x := range l {
		if r.Intn(10) >= gap {
			out = append(out, x)
		}
	}
	return out
}

// In is an address at the edges of a network or next to it.
func (r *Rand) In(n *net.IPNet) net.IP {
	ip := append(net.IP{}, n.IP...)
	k := r.Intn(4)
	for i := range ip {
		switch k {
		case 1:
			ip[i] |= ^n.Mask[i]
		case 2:
			ip[i] |= ^n.Mask[i] & byte(r.Intn(256))
		}
	}
	if k == 3 {
		s := []int{1, 255}[r.Intn(2)]
		if s == 1 {
			for i := range ip {
				ip[i] |= ^n.Mask[i]
			}
		}
		for i := len(ip) - 1; i >= 0; i-- {
			o := ip[i]
			ip[i] += byte(s)
			if s == 1 && o != 255 || s == 255 && o != 0 {
				break
			}
		}
	}
	return ip
}
