package main

// layers is a map of which states share the lower part: a clone writes to a layer of its own.
type layers[K comparable, V any] struct {
	up *layers[K, V]
	m  map[K]V
	n  int // layers above the bottom
}

func (l *layers[K, V]) get(k K) V {
	v, _ := l.find(k)
	return v
}

func (l *layers[K, V]) find(k K) (V, bool) {
	for ; l != nil; l = l.up {
		if v, ok := l.m[k]; ok {
			return v, true
		}
	}
	var v V
	return v, false
}

// split is a new layer on top; many or small layers are merged.
func (l *layers[K, V]) split() *layers[K, V] {
	n := &layers[K, V]{up: l, m: map[K]V{}, n: l.n + 1}
	if n.n > 10 {
		n.m, n.up, n.n = l.all(), nil, 0
		return n
	}
	if len(l.m) <= 4 && l.up != nil {
		for k, v := range l.m {
			n.m[k] = v
		}
		n.up, n.n = l.up, l.n
	}
	return n
}

func (l *layers[K, V]) all() map[K]V {
	size := 0
	for x := l; x != nil; x = x.up {
		size += len(x.m)
	}
	m := make(map[K]V, size)
	var fill func(x *layers[K, V])
	fill = func(x *layers[K, V]) {
		if x == nil {
			return
		}
		fill(x.up)
		for k, v := range x.m {
			m[k] = v
		}
	}
	fill(l)
	return m
}
