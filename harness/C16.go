package c16

import (
	"strings"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/translit"
)

type tr struct {
	scheme string
	id     int
}

func (t *tr) Scheme() string                            { return t.scheme }
func (t *tr) Transliterate(word string) (string, error) { return word, nil }

// registry is one of the registries and what it should hold.
type registry struct {
	use   func(hangulize.Translit) bool
	unuse func(string) bool
	list  func() map[string]hangulize.Translit
	held  []hangulize.Translit
}

func fresh() *hangulize.Spec {
	spec, err := hangulize.ParseSpec(strings.NewReader(""))
	rt.Assert(err == nil, "an empty specification is rejected")
	return spec
}

func registries() []*registry {
	for k := range hangulize.Translits() {
		hangulize.UnuseTranslit(k)
	}
	spec := fresh()
	h1, h2 := hangulize.New(spec), hangulize.New(spec)
	return []*registry{
		{use: hangulize.UseTranslit, unuse: hangulize.UnuseTranslit, list: hangulize.Translits},
		{use: h1.UseTranslit, unuse: h1.UnuseTranslit, list: h1.Translits},
		{use: h2.UseTranslit, unuse: h2.UnuseTranslit, list: h2.Translits},
	}
}

func (r *registry) find(scheme string) int {
	for i, t := range r.held {
		if t.Scheme() == scheme {
			return i
		}
	}
	return -1
}

// check compares a listing with what should be there.
func (r *registry) check() {
	m := r.list()
	rt.Assert(len(m) == len(r.held), "the listing has another size")
	for _, t := range r.held {
		got, ok := m[t.Scheme()]
		rt.Assert(ok && got == t, "the listing lacks a transliterator")
	}
}

// spoil changes a listing.
func (r *registry) spoil() {
	m := r.list()
	for k := range m {
		delete(m, k)
	}
	m["spoiled"] = &tr{"spoiled", -1}
}

func (r *registry) add(t hangulize.Translit) {
	i := r.find(t.Scheme())
	rt.Assert(r.use(t) == (i < 0), "adding reports the wrong outcome")
	if i < 0 {
		r.held = append(r.held, t)
	}
}

func (r *registry) remove(scheme string) {
	i := r.find(scheme)
	rt.Assert(r.unuse(scheme) == (i >= 0), "removing reports the wrong outcome")
	if i >= 0 {
		r.held = append(append([]hangulize.Translit{}, r.held[:i]...), r.held[i+1:]...)
	}
}

// VH_sequence: any sequence of operations with any schemes on two of the three
// registries.
func VH_sequence(shard int) {
	rs := registries()
	a, b := rs[shard%3], rs[(shard+1)%3]
	n := 5
	if rt.Thorough() {
		n = 6
	}
	for i := 0; i < n; i++ {
		r := a
		op := rt.Choice(4)
		if op >= 2 {
			r = b
		}
		s := string(rt.RuneIn(0, 0x7f))
		if op%2 == 0 {
			r.add(&tr{s, i})
		} else {
			r.remove(s)
		}
		r.spoil()
		for _, r := range rs {
			r.check()
		}
	}
}

// VH_install: the standard transliterators are added together or not at all.
func VH_install(shard int) {
	rs := registries()
	std := translit.Translits()
	rt.Assert(len(std) == 6, "the standard set has another size")
	r := rs[shard]
	k := rt.Choice(len(std) + 1)
	clash := false
	if rt.Choice(2) == 1 {
		// any scheme at all
		r.add(&tr{string(rt.RuneIn(0, 0x7f)), 100})
	}
	if k < len(std) {
		r.add(&tr{std[k].Scheme(), 101})
		clash = true
	}
	if rt.Choice(2) == 1 {
		l := rt.Choice(len(std))
		if r.find(std[l].Scheme()) < 0 {
			r.add(std[l])
		}
		clash = true
	}
	h := install(rs, shard)
	rt.Assert(h() == !clash, "installing reports the wrong outcome")
	if !clash {
		r.held = append(r.held, std...)
	}
	for _, r := range rs {
		r.check()
	}
	// again
	rt.Assert(!h(), "installing twice succeeds")
	for _, r := range rs {
		r.check()
	}
	if !clash {
		for _, t := range std {
			r.remove(t.Scheme())
		}
		r.check()
		rt.Assert(h(), "installing after removing fails")
		r.held = append(r.held, std...)
		r.check()
	}
}

// install is the installation into a registry.
func install(rs []*registry, k int) func() bool {
	if k == 0 {
		return func() bool { return translit.Install() }
	}
	return func() bool { return translit.Install(wrap{hangulize.New(fresh()), rs[k]}) }
}

// wrap is a Hangulizer on a registry.
type wrap struct {
	hangulize.Hangulizer
	r *registry
}

func (w wrap) UseTranslit(t hangulize.Translit) bool    { return w.r.use(t) }
func (w wrap) UnuseTranslit(scheme string) bool         { return w.r.unuse(scheme) }
func (w wrap) Translits() map[string]hangulize.Translit { return w.r.list() }
