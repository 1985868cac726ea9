ID='c03-crc'; PROPERTY='C03'
NEEDS='Two keys of the same length with the same CRC-32.'
BREAKS='SimpleCache keeps its entries under the length and the CRC-32 of their key instead of the key.'
EDITS=[('cache.go','import (\n','import (\n	"hash/crc32"\n'),
('cache.go','c.items.Load(key)','c.items.Load(short(key))'),
('cache.go','c.items.Store(key, data)','c.items.Store(short(key), data)'),
('cache.go','// Get returns','''// short stands for a key, so that long class lists need not be kept.
func short(key string) uint64 {
	return uint64(len(key))<<32 | uint64(crc32.ChecksumIEEE([]byte(key)))
}

// Get returns''')]
DEMO='''
package merge
import ("testing"; "fmt"; "hash/crc32")
func TestDemo(t *testing.T) {
	seen := map[uint32]string{}
	for i := 0; ; i++ {
		k := fmt.Sprintf("class-%08d", i)
		h := crc32.ChecksumIEEE([]byte(k))
		if o, ok := seen[h]; ok || i == 3000000 {
			if !ok { k, o = "plumless", "buckeroo" }
			c := NewCache()
			c.Set(o, "1")
			if v, ok := c.Get(k); ok { t.Fatal(o, k, v) }
			return
		}
		seen[h] = k
	}
}
'''
