package query

import (
	"bytes"
	"errors"
	"net"
	"os"
	"path/filepath"

	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/inf"
	gv "github.com/qiniu/uip/verifgv"
)

// gvFake is a made-up format: it answers from the address alone, and remembers what it was given.
type gvFake struct {
	ext    string
	data   []byte
	warmed int
	asked  []net.IP
}

var errGv = errors.New("no record")

func gvTold(ip net.IP, ext string) (*inf.IpInfo, int, error) {
	a := ip.To16()
	if a == nil || a[15]%5 == 0 {
		return &inf.IpInfo{Country: "?"}, 3, errGv
	}
	return &inf.IpInfo{Country: ext + a.String(), City: string(a), Line: "l", Asn: "1", District: "d"}, int(a[14]) % 129, nil
}

func (f *gvFake) Query(ip net.IP) (*inf.IpInfo, int, error) {
	f.asked = append(f.asked, append(net.IP{}, ip...))
	return gvTold(ip, f.ext)
}
func (f *gvFake) BuildCache(l []string)         { f.warmed++ }
func (f *gvFake) VersionInfo() *inf.VersionInfo { return &inf.VersionInfo{Version: f.ext} }

// gvSameAnswer says that an answer is the one the format gives.
func gvSameAnswer(info *inf.IpInfo, n int, err error, ip net.IP, ext string) bool {
	w, m, e := gvTold(ip, ext)
	if e != nil {
		return err == e && info == nil
	}
	return err == nil && info != nil && *info == *w && n == m
}

// gvFront opens bytes and files with some made-up formats registered, and asks in every way.
//
//gv:bounded formats are function values in a registry and files are outside the verifier's reach; opened and asked natively
//gv:props C18
func gvFront(exts []string, kind string, data []byte, texts []string, num uint32, ip net.IP) {
	opened := map[string]int{}
	for i, e := range exts {
		e, i := e, i
		format.RegisterQueryFormat(e, func(b []byte) (inf.Query, error) {
			opened[e]++
			gv.Ensures(bytes.Equal(b, data))
			if len(b) == 0 {
				return nil, errGv
			}
			return &gvFake{ext: e + string(rune('0'+i)), data: b}, nil
		})
	}
	defer func() {
		for _, e := range exts {
			format.RegisterQueryFormat(e, nil)
		}
	}()
	at := -1
	for i, e := range exts {
		if e == kind {
			at = i // registered last
		}
	}
	q, err := NewDbFromBytes(kind, data)
	gv.Ensures((err == nil) == (at >= 0 && len(data) > 0) && (q != nil) == (err == nil))
	for e, n := range opened {
		gv.Ensures(e == kind && n == 1)
	}
	gv.Ensures((at >= 0) == (len(opened) == 1))

	if !gvIsExt(kind) {
		gv.Ensures(err == nil || q == nil)
		if err == nil {
			gvAsk(q, kind, at, texts, num, ip)
		}
		return
	}
	dir, err2 := os.MkdirTemp("", "gv")
	gv.Requires(err2 == nil)
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "x.y"+kind)
	_, err2 = NewDb(file) // there is none
	gv.Ensures(err2 != nil)
	gv.Requires(os.WriteFile(file, data, 0600) == nil)
	f, err2 := NewDb(file)
	gv.Ensures((err2 == nil) == (err == nil) && (f != nil) == (err2 == nil))
	if err != nil {
		return
	}
	gvAsk(q, kind, at, texts, num, ip)
	gvAsk(f, kind, at, texts, num, ip)
}

// gvIsExt says that a kind is the extension of a file name that ends in it.
func gvIsExt(kind string) bool {
	for i := 0; i < len(kind); i++ {
		if kind[i] == 0 || kind[i] == '/' || (kind[i] == '.') != (i == 0) {
			return false
		}
	}
	return true
}

// gvAsk asks in every way.
func gvAsk(d *Db, kind string, at int, texts []string, num uint32, ip net.IP) {
	fake := GetIntern(d).(*gvFake)
	ext := kind + string(rune('0'+at))
	gv.Ensures(fake.ext == ext && d.VersionInfo().Version == ext)
	for _, t := range texts {
		before := len(fake.asked)
		info, n, err := d.QueryStr(t)
		a := net.ParseIP(t)
		if a == nil {
			gv.Ensures(err != nil && info == nil && len(fake.asked) == before)
			continue
		}
		gv.Ensures(gvSameAnswer(info, n, err, a, ext) && len(fake.asked) == before+1 && fake.asked[before].Equal(a))
	}
	info, n, err := d.QueryU32(num)
	gv.Ensures(gvSameAnswer(info, n, err, net.IPv4(byte(num>>24), byte(num>>16), byte(num>>8), byte(num)), ext))
	info, n, err = d.Query(ip)
	gv.Ensures(gvSameAnswer(info, n, err, ip, ext))
	gv.Ensures(fake.asked[len(fake.asked)-1].Equal(ip))
}
