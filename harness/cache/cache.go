// Package cache holds the harnesses for SimpleCache.
package cache

import (
	"strconv"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

type pair struct{ k, v string }

// history runs n operations with keys from key and values from val against a list of pairs.
func history(n int, key, val func() string) {
	c := merge.NewCache()
	var log []pair // latest last
	get := func(k string) {
		v, ok := c.Get(k)
		// what was last set
		hit, want := false, ""
		for i := len(log) - 1; i >= 0; i-- {
			if log[i].k == k {
				hit, want = true, log[i].v
				break
			}
		}
		vs.Assert(ok == hit, "a key is found that was not set, or the other way round")
		if hit {
			vs.Assert(vs.Eq(v, want), "a key has other data than was set")
		}
		vs.Observe("get", v)
	}
	for i := 0; i < n; i++ {
		switch vs.Choose(3) {
		case 0:
			k, v := key(), val()
			c.Set(k, v)
			log = append(log, pair{k, v})
		case 1:
			get(key())
		case 2:
			c.Clear()
			log = nil
		}
	}
	vs.Reach("done")
	for i := range log {
		get(log[i].k)
	}
	get(key())
}

// M11_keys: every history of five (thorough: six) operations, keys of any one byte, data of any one byte.
func M11_keys() {
	n := 5
	if vs.Thorough() {
		n = 6
	}
	history(n, func() string { return vs.Bytes(1) }, func() string { return vs.Bytes(1) })
}

// M11_lengths: every history of three operations (thorough: four), keys and data of zero to three bytes each.
func M11_lengths() {
	n := 3
	if vs.Thorough() {
		n = 4
	}
	history(n, func() string { return vs.Bytes(vs.Choose(4)) }, func() string { return vs.Bytes(vs.Choose(2)) })
}

// M11_spaces: keys alike but for white space, letter case and repetition.
func M11_spaces() {
	history(3, func() string { return vs.StrIn(vs.Choose(4), "aA ") }, func() string { return vs.StrIn(1, "aA ") })
}

// M11_many: 20000 (thorough: 120000) keys are set, some twice; any of them is asked for, before and after Clear.
func M11_many() {
	n := 20000
	if vs.Thorough() {
		n = 120000
	}
	c := merge.NewCache()
	key := func(i int) string { return "k" + strconv.Itoa(i) }
	d := vs.Bytes(1)
	for i := 0; i < n; i++ {
		c.Set(key(i), d)
		if i%5 == 0 {
			c.Set(key(i/2), d+"2")
		}
	}
	twice := func(i int) bool { return 2*i%5 == 0 && 2*i < n || (2*i+1)%5 == 0 && 2*i+1 < n }
	for i := 0; i < n; i++ {
		v, ok := c.Get(key(i))
		want := d
		if twice(i) {
			want = d + "2"
		}
		vs.Assert(ok, "a key that was set is not found")
		vs.Assert(vs.Eq(v, want), "a key has other data than was set")
		if i == 7 {
			vs.Observe("v", v)
		}
	}
	c.Clear()
	vs.Reach("cleared")
	c.Set(key(1), d)
	for i := 0; i < n; i++ {
		_, ok := c.Get(key(i))
		vs.Assert(ok == (i == 1), "a key is found after Clear, or the other way round")
	}
}

// M11_long: keys and data of 5, 70, 300 or 5000 bytes that may differ in one byte at the start, in the middle or at the end.
func M11_long() {
	n := []int{5, 70, 300, 5000}[vs.Choose(4)]
	at := []int{0, n / 2, n - 1}[vs.Choose(3)]
	text := strings.Repeat("abcdefg ", n/8+1)[:n]
	k1 := text[:at] + vs.Bytes(1) + text[at+1:]
	k2 := text[:at] + vs.Bytes(1) + text[at+1:]
	c := merge.NewCache()
	c.Set(k1, k2)
	v, ok := c.Get(k2)
	vs.Reach("done")
	vs.Observe("ok", ok)
	vs.Assert(ok == vs.Eq(k1, k2), "a key is found that was not set, or the other way round")
	v, ok = c.Get(k1)
	vs.Assert(ok && vs.Eq(v, k2), "a key has other data than was set")
	_, ok = c.Get(k1 + " ")
	vs.Assert(!ok, "a key is found that was not set")
	_, ok = c.Get(k1[:n-1])
	vs.Assert(!ok, "a key is found that was not set")
}
