// free runs of Parallel for the race detector
package main

import (
	"fmt"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
)

func main() {
	runs := 0
	run := func(t func(iter.Iter[int]) iter.Iter[int], l []int, info ...stream.PInfo) {
		stream.ReduceToSlice(stream.Parallel(t, info...)(iter.OfSlice(l))).Next()
		runs++
	}
	err := fmt.Errorf("problem")
	for n := 0; n < 12; n++ {
		l := make([]int, n)
		for i := range l {
			l[i] = i
		}
		for _, t := range []func(iter.Iter[int]) iter.Iter[int]{
			stream.Map(func(v int) int { return v + 1 }),
			stream.Filter(func(v int) bool { return v%2 == 0 }),
			stream.MapError(func(v int) (int, error) {
				if v%3 == 0 {
					return 0, err
				}
				return v, nil
			}),
			func(it iter.Iter[int]) iter.Iter[int] {
				return stream.ExpandSlices(stream.Map(func(v int) []int { return []int{v, v}[:v%3] })(it))
			},
			stream.Reduce(func(a, b int) int { return a + b }),
			stream.Distinct[int], stream.Duplicate[int], stream.Reverse[int], stream.SortOrdered[int], stream.Limit[int](2), stream.Skip[int](1), stream.Sum[int], stream.Max[int], stream.AvgInt[int],
		} {
			run(t, l)
			for k := 1; k < 6; k++ {
				run(t, l, stream.PInfo{N: k, PUnit: stream.Threads})
				run(t, l, stream.PInfo{N: k, PUnit: stream.Items})
			}
		}
	}
	fmt.Printf("C06: %d free runs under the race detector\n", runs)
}
