package main

// hmap is a small map of the harness. The race detector watches Go's maps
// wherever they are used, and those of the harness are guarded by a hmutex.
type hmap[K comparable, V any] struct {
	ks []K
	vs []V
}

func (m *hmap[K, V]) get(k K) (v V) {
	for i := range m.ks {
		if m.ks[i] == k {
			return m.vs[i]
		}
	}
	return
}

func (m *hmap[K, V]) set(k K, v V) {
	for i := range m.ks {
		if m.ks[i] == k {
			m.vs[i] = v
			return
		}
	}
	m.ks, m.vs = append(m.ks, k), append(m.vs, v)
}

func (m *hmap[K, V]) del(k K) {
	for i := range m.ks {
		if n := len(m.ks) - 1; m.ks[i] == k {
			m.ks[i], m.vs[i] = m.ks[n], m.vs[n]
			m.ks, m.vs = m.ks[:n], m.vs[:n]
			return
		}
	}
}

func (m *hmap[K, V]) plain() map[K]V {
	out := map[K]V{}
	for i := range m.ks {
		out[m.ks[i]] = m.vs[i]
	}
	return out
}
