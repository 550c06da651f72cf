# Bit and integer encodings (C18)

# bit k of a byte value, most significant first
func bitof(int, int) bool
axiom bitof_0: forall v int :: {bitof(v, 0)} bitof(v, 0) <==> (v / 128) % 2 == 1
axiom bitof_1: forall v int :: {bitof(v, 1)} bitof(v, 1) <==> (v / 64) % 2 == 1
axiom bitof_2: forall v int :: {bitof(v, 2)} bitof(v, 2) <==> (v / 32) % 2 == 1
axiom bitof_3: forall v int :: {bitof(v, 3)} bitof(v, 3) <==> (v / 16) % 2 == 1
axiom bitof_4: forall v int :: {bitof(v, 4)} bitof(v, 4) <==> (v / 8) % 2 == 1
axiom bitof_5: forall v int :: {bitof(v, 5)} bitof(v, 5) <==> (v / 4) % 2 == 1
axiom bitof_6: forall v int :: {bitof(v, 6)} bitof(v, 6) <==> (v / 2) % 2 == 1
axiom bitof_7: forall v int :: {bitof(v, 7)} bitof(v, 7) <==> v % 2 == 1
lemma bitof_zero: forall k int :: {bitof(0, k)} 0 <= k && k < 8 ==> !bitof(0, k)
# a byte with one more bit set
func orbit(int, int) int
axiom orbit_0: forall v int :: {orbit(v, 128)} orbit(v, 128) == v + 128 * (1 - (v / 128) % 2)
axiom orbit_1: forall v int :: {orbit(v, 64)} orbit(v, 64) == v + 64 * (1 - (v / 64) % 2)
axiom orbit_2: forall v int :: {orbit(v, 32)} orbit(v, 32) == v + 32 * (1 - (v / 32) % 2)
axiom orbit_3: forall v int :: {orbit(v, 16)} orbit(v, 16) == v + 16 * (1 - (v / 16) % 2)
axiom orbit_4: forall v int :: {orbit(v, 8)} orbit(v, 8) == v + 8 * (1 - (v / 8) % 2)
axiom orbit_5: forall v int :: {orbit(v, 4)} orbit(v, 4) == v + 4 * (1 - (v / 4) % 2)
axiom orbit_6: forall v int :: {orbit(v, 2)} orbit(v, 2) == v + 2 * (1 - (v / 2) % 2)
axiom orbit_7: forall v int :: {orbit(v, 1)} orbit(v, 1) == v + 1 * (1 - (v / 1) % 2)
lemma orbit_bit_0: forall v int, k int :: {bitof(orbit(v, 128), k)} 0 <= k && k < 8 && 0 <= v && v < 256 ==> (bitof(orbit(v, 128), k) <==> (k == 0 || bitof(v, k)))
lemma orbit_bit_1: forall v int, k int :: {bitof(orbit(v, 64), k)} 0 <= k && k < 8 && 0 <= v && v < 256 ==> (bitof(orbit(v, 64), k) <==> (k == 1 || bitof(v, k)))
lemma orbit_bit_2: forall v int, k int :: {bitof(orbit(v, 32), k)} 0 <= k && k < 8 && 0 <= v && v < 256 ==> (bitof(orbit(v, 32), k) <==> (k == 2 || bitof(v, k)))
lemma orbit_bit_3: forall v int, k int :: {bitof(orbit(v, 16), k)} 0 <= k && k < 8 && 0 <= v && v < 256 ==> (bitof(orbit(v, 16), k) <==> (k == 3 || bitof(v, k)))
lemma orbit_bit_4: forall v int, k int :: {bitof(orbit(v, 8), k)} 0 <= k && k < 8 && 0 <= v && v < 256 ==> (bitof(orbit(v, 8), k) <==> (k == 4 || bitof(v, k)))
lemma orbit_bit_5: forall v int, k int :: {bitof(orbit(v, 4), k)} 0 <= k && k < 8 && 0 <= v && v < 256 ==> (bitof(orbit(v, 4), k) <==> (k == 5 || bitof(v, k)))
lemma orbit_bit_6: forall v int, k int :: {bitof(orbit(v, 2), k)} 0 <= k && k < 8 && 0 <= v && v < 256 ==> (bitof(orbit(v, 2), k) <==> (k == 6 || bitof(v, k)))
lemma orbit_bit_7: forall v int, k int :: {bitof(orbit(v, 1), k)} 0 <= k && k < 8 && 0 <= v && v < 256 ==> (bitof(orbit(v, 1), k) <==> (k == 7 || bitof(v, k)))
# bit n of a byte string
pred bitat(s seq, n int) = bitof(at(s, n / 8), n % 8)

fn utils.GetNthBit :: bs, offset
  prop C18
  requires offset < 8 * len(bs)
  ensures [msb_first] result <==> bitat(bs, offset)

fn utils.LongToBytes :: num
  prop C18
  ensures [little_endian] bytes(result) == le64(if num >= 0 then num else num + 18446744073709551616)
  ensures fresh(result) && len(result) == 8

fn utils.ULongToBytes :: num
  prop C18
  ensures [little_endian] bytes(result) == le64(num)
  ensures fresh(result) && len(result) == 8

fn utils.UInt32ToBytes :: num
  prop C18
  ensures [little_endian] bytes(result) == le32(num)
  ensures fresh(result) && len(result) == 4

fn utils.ToBytes :: bits
  prop C18
  ensures [length] len(result) == (len(bits) + 7) / 8
  ensures [bits_kept] forall i int :: 0 <= i && i < len(bits) ==> (bits[i] <==> bitat(bytes(result), i))
  ensures [zero_padded] forall i int :: len(bits) <= i && i < 8 * len(result) ==> !bitat(bytes(result), i)
  ensures fresh(result)
  loop [i int, bs []byte] forall k int :: 0 <= k && k < i ==> (bits[k] <==> bitat(bytes(bs), k))
  loop [i int, bs []byte] forall k int :: i <= k && k < 8 * len(bs) ==> !bitat(bytes(bs), k)

fn utils.ToBits :: bs
  prop C18
  ensures [length] len(result) == 8 * len(bs)
  ensures [bits_kept] forall i int :: 0 <= i && i < len(result) ==> (result[i] <==> bitat(bytes(bs), i))
  ensures fresh(result)
  loop [i int, r []bool] forall k int :: 0 <= k && k < i ==> (r[k] <==> bitat(bytes(bs), k))

# Key ranges: q is the successor of the prefix p when it is p cut after its
# last byte below 0xff (position i) with that byte increased
pred succkey(p seq, q seq, i int) = 0 <= i && i < len(p) && len(q) == i + 1 && at(p, i) < 255 && at(q, i) == at(p, i) + 1 && (forall x int :: {at(q, x)} 0 <= x && x < i ==> at(q, x) == at(p, x)) && (forall x int :: {at(p, x)} i < x && x < len(p) ==> at(p, x) == 255)
# a comes before b because of position j
pred lexlt(a seq, b seq, j int) = 0 <= j && j <= len(a) && j < len(b) && (forall x int :: {at(a, x)} {at(b, x)} 0 <= x && x < j ==> at(a, x) == at(b, x)) && (j == len(a) || at(a, j) < at(b, j))
pred hasprefix(k seq, p seq) = len(k) >= len(p) && (forall x int :: {at(p, x)} {at(k, x)} 0 <= x && x < len(p) ==> at(k, x) == at(p, x))
# every key with prefix p is below the successor
lemma keys_of_prefix_below_successor: forall p seq, q seq, k seq, i int :: succkey(p, q, i) && hasprefix(k, p) ==> lexlt(k, q, i)
# every key above p without the prefix is at or above the successor
lemma other_keys_not_below_successor: forall p seq, q seq, k seq, i int, m int :: {lexlt(p, k, m), succkey(p, q, i)} succkey(p, q, i) && lexlt(p, k, m) && m < len(p) && (forall x int :: {at(k, x)} at(k, x) <= 255) ==> lexlt(q, k, m) || hasprefix(k, q)
# no key is above all keys with a prefix of 0xff bytes only
lemma no_successor_of_ff: forall p seq, k seq, m int :: (forall x int :: {at(p, x)} 0 <= x && x < len(p) ==> at(p, x) == 255) && lexlt(p, k, m) && (forall x int :: {at(k, x)} 0 <= at(k, x) && at(k, x) <= 255) ==> hasprefix(k, p)

fn kv.IncrementKey :: prefix
  prop C18
  ensures [none_iff_all_ff] result == nil <==> (forall x int :: {prefix[x]} 0 <= x && x < len(prefix) ==> prefix[x] == 255)
  ensures [successor] result != nil ==> succkey(bytes(prefix), bytes(result), len(result) - 1)
  ensures [prefix_unchanged] bytes(prefix) == old(bytes(prefix)) && (result != nil ==> fresh(result))
  loop [i int] forall x int :: {prefix[x]} i < x && x < len(prefix) ==> prefix[x] == 255

fn kv.BytesPrefix :: prefix
  prop C18
  ensures [from_the_prefix] result != nil && bytes(result.Start) == bytes(prefix) && bytes(prefix) == old(bytes(prefix))
  ensures [none_iff_all_ff] result.Limit == nil <==> (forall x int :: {prefix[x]} 0 <= x && x < len(prefix) ==> prefix[x] == 255)
  ensures [to_the_successor] result.Limit != nil ==> succkey(bytes(prefix), bytes(result.Limit), len(result.Limit) - 1)
