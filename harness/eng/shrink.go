package eng

import "time"

// shrink reduces a failing choice sequence; fails tells if a sequence still
// fails (and returns the sequence actually consumed).
func shrink(in []uint64, deadline time.Time, maxTries int, fails func([]uint64) ([]uint64, bool)) []uint64 {
	cur := append([]uint64(nil), in...)
	tries := 0
	try := func(c []uint64) bool {
		if tries >= maxTries || time.Now().After(deadline) {
			return false
		}
		tries++
		used, ok := fails(c)
		if !ok {
			return false
		}
		if len(used) < len(c) {
			c = used
		}
		if len(c) > len(cur) {
			return false
		}
		cur = append([]uint64(nil), c...)
		return true
	}
	for {
		before := len(cur)
		changed := false
		// delete chunks
		for size := len(cur) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(cur); {
				c := make([]uint64, 0, len(cur)-size)
				c = append(c, cur[:i]...)
				c = append(c, cur[i+size:]...)
				if try(c) {
					changed = true
				} else {
					i += size
				}
				if tries >= maxTries {
					return cur
				}
			}
		}
		// delete a chunk and decrement a preceding count
		for i := 0; i < len(cur) && len(cur) < 3000; i++ {
			if cur[i] == 0 {
				continue
			}
			for _, sz := range []int{1, 2, 3, 4, 6, 8} {
				if i+1+sz > len(cur) {
					break
				}
				c := append([]uint64(nil), cur[:i+1]...)
				c[i]--
				c = append(c, cur[i+1+sz:]...)
				if try(c) {
					changed = true
					break
				}
			}
			if tries >= maxTries {
				return cur
			}
		}
		// zero chunks
		for size := 8; size >= 1; size /= 2 {
			for i := 0; i+size <= len(cur); i += size {
				nz := false
				for _, v := range cur[i : i+size] {
					nz = nz || v != 0
				}
				if !nz {
					continue
				}
				c := append([]uint64(nil), cur...)
				for j := i; j < i+size; j++ {
					c[j] = 0
				}
				if try(c) {
					changed = true
				}
				if tries >= maxTries {
					return cur
				}
			}
		}
		// reduce values
		for i := 0; i < len(cur); i++ {
			for step := cur[i] / 2; step > 0 && i < len(cur); step /= 2 {
				if cur[i] < step {
					continue
				}
				c := append([]uint64(nil), cur...)
				c[i] -= step
				if try(c) {
					changed = true
				}
				if tries >= maxTries {
					return cur
				}
			}
			if i < len(cur) && cur[i] > 0 {
				c := append([]uint64(nil), cur...)
				c[i]--
				if try(c) {
					changed = true
				}
			}
		}
		if !changed && len(cur) == before || time.Now().After(deadline) || tries >= maxTries {
			return cur
		}
	}
}
