package t00

import (
	"bytes"
	"fmt"
	"slices"
	"sort"
	"strconv"
	"strings"
	"verif.local/h/nd"
)

func H_itoa() {
	for _, i := range []int{0, 5, 42, 100, 1003, -77} {
		nd.ObsStr(strconv.Itoa(i))
	}
}
func H_builder() {
	var b strings.Builder
	b.WriteString("ab")
	b.WriteByte('c')
	b.WriteRune('d')
	nd.Assert(b.String() == "abcd", "x")
	nd.ObsStr(strings.Join([]string{"a", "b"}, " "))
	nd.ObsStr(strings.Repeat("ab", 3))
}
func H_buf() {
	var b bytes.Buffer
	b.WriteString("ab")
	b.WriteByte('c')
	nd.ObsStr(b.String())
}
func H_fpr() {
	var b strings.Builder
	fmt.Fprintf(&b, "%d,%v", 3, "x")
	nd.ObsStr(b.String())
}
func H_fpr2() {
	fmt.Println("x")
	fmt.Printf("x%d\n", 1)
	nd.ObsStr(fmt.Sprintf("%5d|%v|%x|%q", 3, []int{1, 2}, 255, "s"))
	nd.ObsStr(fmt.Sprint(1, 2, "a", 3))
	nd.ObsStr(fmt.Sprintln(1, 2, "a", 3))
}
func H_sort() {
	s := nd.Ints(3)
	sort.Ints(s)
	nd.Assert(s[0] <= s[1] && s[1] <= s[2], "y")
	t := nd.Ints(3)
	slices.Sort(t)
	nd.Assert(t[0] <= t[1] && t[1] <= t[2], "y")
	i, ok := slices.BinarySearch(t, s[0])
	nd.Assert(ok == (i < 3 && t[i] == s[0]), "z")
	u := nd.Ints(3)
	sort.Slice(u, func(i, j int) bool { return u[i] < u[j] })
	nd.Assert(u[0] <= u[1] && u[1] <= u[2], "y")
	slices.Reverse(u)
	slices.SortFunc(u, func(a, b int) int { return a - b })
	copy(u, u[1:])
	clear(u)
	nd.Assert(sort.Search(5, func(i int) bool { return i >= 3 }) == 3, "q")
	nd.Assert(max(u[0], 3) == 3, "r")
	u = slices.Insert(u, 1, 9)
	u = slices.Delete(u, 0, 1)
	nd.Assert(u[0] == 9 && slices.Contains(u, 9) && slices.Index(u, 9) == 0, "r")
}
func H_map() {
	m := map[int]int{}
	a, b := nd.Int(), nd.Int()
	m[a] = 1
	m[b] = 2
	nd.Assert(m[b] == 2, "m")
	nd.Assert(len(m) == 2 || a == b, "m")
	for k := range m {
		delete(m, k)
	}
	nd.Assert(len(m) == 0, "m")
	for i := range 3 {
		nd.Assert(i < 3, "")
	}
	it := func(yield func(int) bool) {
		for i := 0; i < 3; i++ {
			if !yield(i) {
				return
			}
		}
	}
	n := 0
	for v := range it {
		n += v
		if v == 1 {
			break
		}
	}
	nd.Assert(n == 1, "it")
}
