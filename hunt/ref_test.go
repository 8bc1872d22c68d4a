package lpg

// The reference comparison of property values.

import "strings"

type natv struct{ v any }

func (n natv) GetNativeValue() any { return n.v }

type natStr string

func (n natStr) GetNativeValue() any { return string(n) }

// refcmp is the reference: 2 means the values cannot be compared.
func refcmp(a, b any) int {
	for {
		if n, ok := a.(WithNativeValue); ok {
			a = n.GetNativeValue()
			continue
		}
		if n, ok := b.(WithNativeValue); ok {
			b = n.GetNativeValue()
			continue
		}
		break
	}
	list := func(v any) ([]any, string, bool) {
		var r []any
		switch l := v.(type) {
		case []string:
			for _, x := range l {
				r = append(r, x)
			}
			return r, "s", true
		case []int:
			for _, x := range l {
				r = append(r, x)
			}
			return r, "i", true
		case []any:
			return l, "a", true
		}
		return nil, "", false
	}
	sign := func(lt, eq bool) int {
		if eq {
			return 0
		}
		if lt {
			return -1
		}
		return 1
	}
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return sign(strings.Compare(x, y) < 0, x == y)
		}
	}
	if x, ok := a.(int); ok {
		if y, ok := b.(int); ok {
			return sign(x < y, x == y)
		}
	}
	la, ka, oka := list(a)
	lb, kb, okb := list(b)
	if oka && okb {
		if ka != kb && ka != "a" && kb != "a" {
			return 2
		}
		for i := 0; i < len(la) && i < len(lb); i++ {
			if c := refcmp(la[i], lb[i]); c != 0 {
				return c
			}
		}
		return sign(len(la) < len(lb), len(la) == len(lb))
	}
	return 2
}

func vpanics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vfail); ok {
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}
