package c25

import (
	"hash/crc32"

	"verif/harness/lib"
)

func be32(n int) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func chunk(kind string, data []byte) []byte {
	c := append([]byte(kind), data...)
	s := crc32.NewIEEE()
	s.Write(c)
	sum := s.Sum32()
	return append(append(be32(len(data)), c...), byte(sum>>24), byte(sum>>16), byte(sum>>8), byte(sum))
}

// pngFile is a PNG picture: rows without filtering.
func pngFile(w, h, depth, color, row int, pix []byte, extra []byte) []byte {
	var raw []byte
	for y := 0; y < h; y++ {
		raw = append(raw, 0)
		raw = append(raw, pix[y*row:(y+1)*row]...)
	}
	b := []byte("\x89PNG\r\n\x1a\n")
	b = append(b, chunk("IHDR", append(append(be32(w), be32(h)...), byte(depth), byte(color), 0, 0, 0))...)
	b = append(b, extra...)
	b = append(b, chunk("IDAT", lib.Zlib(raw))...)
	return append(b, chunk("IEND", nil)...)
}
