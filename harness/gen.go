package main

import (
	"strings"

	"pgregory.net/rapid"
)

func draw[V any](t *rapid.T, g *rapid.Generator[V], label string) V { return g.Draw(t, label) }

func intn(t *rapid.T, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, "n") }

// chance is true in num of den cases. (The integers of rapid favour the ends of
// their range, so that one draw cannot be rare.)
func chance(t *rapid.T, num, den int) bool {
	if den > 16 && num*8 <= den {
		return chance(t, 1, 8) && chance(t, num, den/8)
	}
	return rapid.IntRange(0, den-1).Draw(t, "p") >= den-num
}

func pick[V any](t *rapid.T, vs ...V) V { return vs[rapid.IntRange(0, len(vs)-1).Draw(t, "i")] }

// count draws a length that is mostly small and now and then large.
func count(t *rapid.T, lo, usual, rare int) int {
	if rare > usual && chance(t, 1, 25) {
		return intn(t, usual, rare)
	}
	return intn(t, lo, usual)
}

// many is count that once in a while draws a length that is out of proportion.
func many(t *rapid.T, lo, usual, rare, most int) int {
	if chance(t, 1, 150) {
		return intn(t, rare, most)
	}
	return count(t, lo, usual, rare)
}

// boundary sizes, at which buffers and tables of code tend to change behaviour
var sizes = []int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000}

// sizes out of all proportion
var huge = []int{99999, 100000, 131071, 131072, 131073, 262143, 262144, 262145, 524287, 524288, 524289, 1000000, 1048575, 1048576, 1048577, 2097153}

// lots draws once in a while a number of entries out of all proportion, else 0.
func lots(t *rapid.T, max int) int {
	if !chance(t, 1, 1500) {
		return 0
	}
	return bigSize(t, max)
}

func bigSize(t *rapid.T, max int) int {
	n := 0
	for n < len(sizes) && sizes[n] <= max {
		n++
	}
	s := sizes[intn(t, 0, n-1)]
	if s > max {
		s = max
	}
	return s
}

// piece draws a short string out of the fragments and single characters given.
func pieces(t *rapid.T, max int, frags ...string) string {
	var sb strings.Builder
	for n := intn(t, 0, max); n > 0; n-- {
		sb.WriteString(pick(t, frags...))
	}
	return sb.String()
}

// long draws now and then a long string made by repetition, else what short draws.
func maybeLong(t *rapid.T, max int, short func() string) string {
	s := short()
	if !chance(t, 1, 40) {
		return s
	}
	unit := s
	if unit == "" {
		unit = "a"
	}
	n := bigSize(t, max)
	if max >= 20000 && chance(t, 1, 300) {
		n = pick(t, huge...)
	}
	var sb strings.Builder
	for sb.Len() < n {
		sb.WriteString(unit)
	}
	return sb.String()[:n] + pick(t, "", s, "x")
}

var anyByte = rapid.Byte()

func rawBytes(t *rapid.T, max int) string {
	return string(rapid.SliceOfN(anyByte, 0, max).Draw(t, "bytes"))
}

// text draws a string in which bytes that matter to some layer are frequent.
func text(t *rapid.T, max int) string {
	switch intn(t, 0, 5) {
	case 0:
		return rawBytes(t, max)
	case 1:
		if chance(t, 1, 4) {
			return printable(t, max)
		}
		return pieces(t, max, "a", "b", "A", "0", "1", " ", "%", "+", "&", "=", ";", "'", "\"", "\\", "/", "\x00", "\t", "\n", "\r", "\xff", "\xc3", "é", "世", "<", ">", "\u00a0", "\u0085", "\u2003", "\u3000", "\ufeff", "\v", "\f")
	case 2:
		return pick(t, "attack", "ATTACK", "select", "SELECT 1", "cmd", "<script>", "../../etc/passwd", "union all", "1 OR 1=1", "-1", "0", "1", "42", "9223372036854775807", "99999999999999999999", "", "on", "foo", "bar")
	default:
		return string(rapid.SliceOfN(rapid.ByteRange('a', 'e'), 0, max).Draw(t, "letters"))
	}
}

func printable(t *rapid.T, max int) string {
	return string(rapid.SliceOfN(rapid.ByteRange(0x20, 0x7e), 0, max).Draw(t, "printable"))
}
