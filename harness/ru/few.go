package ru

// Few selects the levels looked at in a long chain: its ends and the neighbourhood of 8, 12 (not in quick runs) and the
// powers of two from 32.
func Few(l, n int, th bool) bool {
	if n <= 8 || n <= 36 && th {
		return true
	}
	if n > 36 {
		return l == 0 || l >= n-2 || l >= 31 && (l&(l+1) == 0 || l&(l-1) == 0)
	}
	return l < 2 || l == 8 || l == 11 || l >= n-2
}
