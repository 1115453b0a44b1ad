package c25

import "verif.local/h/nd"

func H_stack()         { stackThing(nd.Choice(2) == 1).pair() }
func H_stack_more()    { stackThing(false).more() }
func H_queue()         { queueThing(nd.Choice(2) == 1).pair() }
func H_queue_more()    { queueThing(false).more() }
func H_pq()            { pqThing().pair() }
func H_pq_more()       { pqThing().more() }
func H_map()           { mapThing(false).pair() }
func H_map_more()      { mapThing(false).more() }
func H_multimap()      { mapThing(true).pair() }
func H_multimap_more() { mapThing(true).more() }
func H_set()           { setThing(false).pair() }
func H_set_more()      { setThing(false).more() }
func H_multiset()      { setThing(true).pair() }
func H_multiset_more() { setThing(true).more() }
func H_hamt()          { hamtThing(nd.Choice(3)).pair() }
func H_hamt_more()     { hamtThing(0).more() }
func H_skiplist()      { skipThing([]int{3, 1, 18}[nd.Choice(nd.Param("levels", 2, 3))]).pair() }
func H_skiplist_more() { skipThing(3).more() }
func H_bloom()         { bloomThing(nd.Choice(2)).pair() }
func H_bloom_more()    { bloomThing(0).more() }
func H_ring()          { ringThing().pair() }
func H_ring_more()     { ringThing().more() }
func H_algebra()       { algebraThing().pair() }
func H_algebra_more()  { algebraThing().more() }

// H_algebra_stuck: two set operations across two sets and a writer on each
// set never block each other for good.
func H_algebra_stuck() {
	g := algebraThing()
	p := nd.Choice(nd.Param("ops", 3, 6))
	q := []int{1, 3, 5, 0, 2, 4}[p]
	p = []int{0, 2, 4, 3, 5, 1}[p]
	x := g.mk(2)
	do := func(op int) { nd.Go(func() { call{op, 1, 1}.on(x) }) }
	do(p)
	do(q)
	do(6)
	do(7)
	nd.Join()
	call{op: -1}.on(x)
}
