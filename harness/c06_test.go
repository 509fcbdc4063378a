package lens

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

type c06View struct {
	name   string
	s      Storage
	base   int // which store
	prefix string
}

func TestVerif(t *testing.T) {
	h := newVH(t, "random operation sequences over in-memory and on-disk stores and prefixed views of both, with empty, marker-like and split-size values; oracle: one map per store; non-trivial: the sequence saved and loaded")
	old := badgerSplitLimit
	badgerSplitLimit = 64
	defer func() { badgerSplitLimit = old }()
	dir := t.TempDir()
	badgerN := 0
	open := func() Storage {
		badgerN++
		s, err := NewBadgerStorage(fmt.Sprintf("%s/db%d", dir, badgerN), 64)
		if err != nil {
			t.Skip("cannot open the on-disk store: ", err)
		}
		return s
	}
	db := open()
	r := h.r
	keys := []string{"a", "b", "a;b", "a-0", "a-1", "a-0-0", ";", "p", "p;a", "badger_split:a-0", "badger_split:a", "x\x00y", "ünï", "A", strings.Repeat("k", 300)}
	val := func() []byte {
		switch r.Intn(8) {
		case 0:
			return nil
		case 1:
			return []byte{}
		case 2:
			return []byte(fmt.Sprintf("badger_split:%d:%d:%d", r.Intn(4), r.Intn(100), r.Intn(100)))
		case 3:
			return []byte("badger_split:")
		}
		n := []int{1, 7, 63, 64, 65, 66, 127, 128, 129, 191, 192, 193, 300, 640}[r.Intn(14)]
		if r.Intn(3) == 0 {
			n = r.Intn(400)
		}
		b := make([]byte, n)
		r.Read(b)
		return b
	}
	legal := func(full string) bool { return full != "" && !strings.HasPrefix(full, "badger_split:") }
	for it := 0; h.more(it, 4000); it++ {
		if it > 0 && it%200 == 0 {
			db.Close()
			db = open()
		}
		if err := db.Clear(); err != nil {
			h.fail("clear", "on-disk Clear", "no error", err.Error())
			break
		}
		stores := []Storage{NewMemStorage(), db}
		model := []map[string][]byte{{}, {}}
		var views []c06View
		for b, s := range stores {
			nm := []string{"mem", "disk"}[b]
			views = append(views, c06View{nm, s, b, ""},
				c06View{nm + "/p", KeyPrefixStorage(s, "p"), b, "p;"},
				c06View{nm + "/a", KeyPrefixStorage(s, "a"), b, "a;"},
				c06View{nm + "/p/p", KeyPrefixStorage(KeyPrefixStorage(s, "p"), "p"), b, "p;p;"},
				c06View{nm + "/none", KeyPrefixStorage(s, ""), b, ""})
		}
		log := ""
		saved, loaded := false, false
		list := func(v c06View, pre string) {
			var want []string
			for k := range model[v.base] {
				if strings.HasPrefix(k, v.prefix+pre) {
					want = append(want, strings.TrimPrefix(k, v.prefix))
				}
			}
			var got []string
			var err error
			if pre == "" && r.Intn(2) == 0 {
				got, err = v.s.ListKeys()
			} else {
				got, err = v.s.ListKeysPrefix(pre)
			}
			sort.Strings(want)
			got = append([]string{}, got...)
			sort.Strings(got)
			h.check("list", err == nil && fmt.Sprintf("%q", want) == fmt.Sprintf("%q", got), log+fmt.Sprintf("%s.List(%q)", v.name, pre), fmt.Sprintf("%q", want), fmt.Sprintf("%q %v", got, err))
		}
		load := func(v c06View, k string) {
			got, ok, err := v.s.LoadState(k)
			want, has := model[v.base][v.prefix+k]
			if err != nil && !legal(v.prefix+k) && !has {
				return
			}
			if h.check("load", err == nil && ok == has && bytes.Equal(got, want), log+fmt.Sprintf("%s.Load(%q)", v.name, k), fmt.Sprintf("%q %v", want, has), fmt.Sprintf("%q %v %v", got, ok, err)) {
				for i := range got {
					got[i] ^= 0x5a // a loaded slice is the caller's
				}
			}
			loaded = loaded || has
		}
		n := 3 + r.Intn(25)
		for op := 0; op < n; op++ {
			v := views[r.Intn(len(views))]
			k := keys[r.Intn(len(keys))]
			full := v.prefix + k
			switch r.Intn(8) {
			case 0, 1, 2, 3:
				b := val()
				log += fmt.Sprintf("%s.Save(%q,%q) ", v.name, k, b)
				cp := append([]byte(nil), b...)
				err := v.s.SaveState(k, b)
				if err != nil {
					h.check("save", !legal(full), log, "no error", err.Error())
					break
				}
				model[v.base][full] = cp
				saved = true
				h.check("save-pure", bytes.Equal(cp, b), log, "the saved slice is untouched", "changed")
				for i := range b {
					b[i] ^= 0x33
				}
			case 4:
				log += fmt.Sprintf("%s.Delete(%q) ", v.name, k)
				if err := v.s.DeleteState(k); err != nil {
					h.check("delete", !legal(full), log, "no error", err.Error())
					break
				}
				delete(model[v.base], full)
			case 5:
				list(v, []string{"", "a", "p", "p;", "badger", "zz"}[r.Intn(6)])
			case 6:
				if r.Intn(4) == 0 && (v.prefix != "" || v.base == 0) {
					log += v.name + ".Clear() "
					if err := v.s.Clear(); err != nil {
						h.fail("clear", log, "no error", err.Error())
					}
					for k := range model[v.base] {
						if strings.HasPrefix(k, v.prefix) {
							delete(model[v.base], k)
						}
					}
				}
			default:
				load(v, k)
			}
		}
		h.ev(log, saved && loaded)
		for _, v := range views {
			list(v, "")
		}
		for b := range stores {
			for _, k := range keys {
				load(views[b*5], k)
			}
			for k := range model[b] {
				load(views[b*5], k)
			}
		}
	}
	// concurrent readers see one of the saved values, whole
	for _, s := range []Storage{NewMemStorage(), db} {
		vals := [][]byte{bytes.Repeat([]byte("1"), 640), bytes.Repeat([]byte("2"), 300), bytes.Repeat([]byte("3"), 10), {}}
		_ = s.SaveState("c", vals[0])
		stop := time.Now().Add(time.Second)
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; time.Now().Before(stop); i++ {
				_ = s.SaveState("c", vals[i%len(vals)])
			}
		}()
		var mu sync.Mutex
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for time.Now().Before(stop) {
					b, ok, err := s.LoadState("c")
					good := false
					for _, v := range vals {
						good = good || bytes.Equal(v, b)
					}
					if err != nil || !ok || !good {
						mu.Lock()
						h.fail("concurrent-load", fmt.Sprintf("%T: Save(c, …) of 640, 300, 10 and 0 byte values in a loop, Load(c) concurrently", s), "one of the saved values", fmt.Sprintf("%q %v %v", b, ok, err))
						mu.Unlock()
						return
					}
				}
			}()
		}
		wg.Wait()
		h.ev(fmt.Sprintf("%T concurrent save and load", s), true)
	}
	db.Close()
	if _, err := os.Stat(fmt.Sprintf("%s/db%d", dir, badgerN)); err == nil {
		h.fail("close", "Close of the on-disk store", "its directory is removed", "still there")
	}
	h.done()
}
