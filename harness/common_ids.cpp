// C01 identifiers.
#include "vf.hpp"
#include <algorithm>
#include <limits>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/unordered_set.hpp>
#include <unordered_set>
#include <sm/Id.hpp>
#include <sm/hash_id.hpp>
using namespace sm;
SM_DEFINE_ID(VId);
SM_DEFINE_ID_HASH(VId);
namespace vns { class HId : public HashId { public: HId() {} HId(const uint64_t s[2]) : HashId(s) {} }; SM_DEFINE_ID(OtherId); }
SM_DEFINE_HASHID_HASH(vns::HId);
SM_DEFINE_ID_HASH(vns::OtherId);
namespace {
typedef unsigned long long ull;
// ------------------------------------------------------------------- C01
std::vector<uint64_t> u64grid(bool big) {
  std::vector<uint64_t> v = {0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0xff00, 0x0123456789abcdefULL, 0xfedcba9876543210ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0x8000000000000001ULL, 0xfffffffffffffffeULL, 0xffffffffffffffffULL, 0x00000000ffffffffULL, 0xffffffff00000000ULL};
  if (big) for (int b = 1; b < 64; b += 3) v.push_back(uint64_t(1) << b);
  return v;
}
HashId mk(uint64_t a, uint64_t b) { uint64_t s[2] = {a, b}; return HashId(s); }
std::string refhex(uint64_t a, uint64_t b) {
  unsigned char m[16]; memcpy(m, &a, 8); memcpy(m + 8, &b, 8); std::string r; char t[3];
  for (int i = 0; i < 16; ++i) { snprintf(t, sizeof t, "%02x", m[i]); r += t; } return r;
}
int cmp(uint64_t a0, uint64_t a1, uint64_t b0, uint64_t b1) { return a0 != b0 ? (a0 < b0 ? -1 : 1) : a1 != b1 ? (a1 < b1 ? -1 : 1) : 0; }
}
VF_PART(C01_hash_values, 2) {
  std::vector<uint64_t> g = u64grid(c.thorough);
  std::vector<std::pair<uint64_t, uint64_t> > all; for (uint64_t a : g) for (uint64_t b : g) all.emplace_back(a, b);
  for (size_t i = 0; i < all.size(); ++i) {
    if (!c.mine(i)) continue;
    uint64_t a = all[i].first, b = all[i].second; HashId h = mk(a, b);
    c.cur("%016llx %016llx", (ull)a, (ull)b);
    uint64_t o[3] = {7, 7, 7}; h.toUint64(o);
    c.check(o[0] == a && o[1] == b && o[2] == 7, "words", "toUint64 gives other words");
    c.check(h.isValid() == (a || b), "valid", "validity is wrong");
    std::string hx = h.hexString(); c.check(hx == refhex(a, b), "hex", "hexString gives " + hx);
    std::ostringstream os; os << h; c.check(os.str() == hx, "hex", "streaming gives " + os.str());
    HashId r = mk(5, 5); c.check(r.fromHexString(hx) && r == h, "hex", "does not come back from its string");
    std::string up = hx; for (char& ch : up) ch = toupper(ch);
    HashId r2 = mk(5, 5); c.check(r2.fromHexString(up) && r2 == h, "hex", "upper case digits are not read");
    HashId cp(h), as; as = h; c.check(cp == h && as == h, "copy", "a copy differs");
    as.setInvalid(); c.check(!as.isValid() && as == HashId() && h == cp, "valid", "setInvalid"); 
    h.fromUint64(o); c.check(h == cp, "words", "fromUint64");
    vns::HId d; d.fromUint64(o); c.check(std::hash<vns::HId>()(d) == std::hash<HashId>()(h), "hash", "a derived identifier hashes differently");
    size_t nd = 0, nf = 0;
    for (auto& p : all) {
      HashId k = mk(p.first, p.second); int e = cmp(a, b, p.first, p.second);
      bool ok = (h == k) == (e == 0) && (h != k) == (e != 0) && (h < k) == (e < 0) && (h > k) == (e > 0);
      if (!ok) c.fail("order", "comparison with %016llx %016llx", (ull)p.first, (ull)p.second);
      if (e == 0) c.check(h.hashToSizeT() == k.hashToSizeT() && h.hashToSizeTFast() == k.hashToSizeTFast() && std::hash<HashId>()(h) == std::hash<HashId>()(k), "hash", "equal identifiers hash differently");
      else { nd += std::hash<HashId>()(h) == std::hash<HashId>()(k); nf += (a == p.first) != (b == p.second) && h.hashToSizeTFast() == k.hashToSizeTFast(); }
      c.eval(e != 0);
    }
    c.check(nd * 10 < all.size() && nf == 0, "hash", "the hash does not depend on all words");
  }
  c.sample("0123456789abcdef ffffffffffffffff against all of the grid");
}
VF_PART(C01_hex_parsing, 4) {
  // all single and all pairs of (position, character) replacements of a valid string, and all lengths
  HashId base = mk(0x1122334455667788ULL, 0x99aabbccddeeff00ULL); std::string hx = base.hexString();
  HashId start = mk(3, 4); uint64_t n = 0;
  auto one = [&](const std::string& s) {
    bool ok = s.size() == 32 && s.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos;
    HashId h = start; bool r, threw = false; try { r = h.fromHexString(s); } catch (...) { threw = true; r = false; }
    if (threw) c.failpl("throws", "fromHexString throws"); else c.check(r == ok, "accept", ok ? "a hexadecimal string is refused" : "accepted although it is not hexadecimal");
    if (!ok) c.check(h == start, "unchanged", "a refused string changed the identifier");
    else { std::string l = s; for (char& ch : l) ch = tolower(ch); c.check(h.hexString() == l, "value", "wrong value " + h.hexString()); }
    c.eval(!ok);
  };
  for (int p = 0; p < 32; ++p) for (int ch = 0; ch < 256; ++ch) { if (!c.mine(n++)) continue; std::string s = hx; s[p] = ch; c.cur("character %d at %d", ch, p); one(s); }
  const char alt[] = {' ', '+', '-', 'x', 'X', 'g', 'F', 'a', '0', '\0', ':', '@', 'G', '`', '/', '.'};
  for (int p = 0; p < 32; ++p) for (int q = p + 1; q < 32; ++q) for (char a : alt) for (char b : alt) {
    if (!c.mine(n++)) continue; std::string s = hx; s[p] = a; s[q] = b; c.cur("characters %d at %d, %d at %d", a, p, b, q); one(s);
  }
  for (int l = 0; l <= 70; ++l) { if (!c.mine(n++)) continue; c.cur("length %d", l); one((hx + hx + hx).substr(0, l)); }
  c.sample("' 1' at 0,1: refused, identifier unchanged");
}
VF_PART(C01_strong_ids, 1) {
  std::vector<uint64_t> g = u64grid(true);
  for (uint64_t a : g) {
    VId i(a); c.cur("id %llu", (ull)a);
    c.check(i.getId() == a && i.value() == a, "value", "value"); c.check(i.isSet() == (a != ~0ull), "set", "isSet");
    std::ostringstream o; o << i; c.check(o.str() == std::to_string(a), "text", "text " + o.str());
    VId p = i; VId old = p++; c.check(old == i && p.value() == a + 1, "increment", "postfix"); VId q = i; c.check(&(++q) == &q && q.value() == a + 1, "increment", "prefix");
    VId r = i; r.clear(); c.check(!r.isSet() && r == VId() && !VId().isSet(), "set", "clear");
    std::stringstream sx, st; { boost::archive::xml_oarchive x(sx); boost::archive::text_oarchive t(st); const VId ci = i; x << boost::serialization::make_nvp("id", ci); t << ci; }
    VId fx(77), ft(77); { boost::archive::xml_iarchive x(sx); boost::archive::text_iarchive t(st); x >> boost::serialization::make_nvp("id", fx); t >> ft; }
    c.check(fx == i && ft == i, "archive", "does not come back from an archive");
    for (uint64_t b : g) {
      VId k(b); c.check((i == k) == (a == b) && (i != k) == (a != b) && (i < k) == (a < b) && (i > k) == (a > b) && (i <= k) == (a <= b) && (i >= k) == (a >= b) && i.isBinaryEqual(k) == (a == b), "order", "comparison with " + vf::str(b));
      VId s = i, t = k; s.swap(t); c.check(s == k && t == i, "swap", "swap"); s = i; c.check(s == i, "copy", "assignment");
      if (a == b) c.check(std::hash<VId>()(i) == std::hash<VId>()(k) && boost::hash<VId>()(i) == boost::hash<VId>()(k), "hash", "equal identifiers hash differently");
      c.eval(a != b);
    }
  }
  std::unordered_set<VId> us; boost::unordered_set<vns::OtherId> bs; for (uint64_t a : g) { us.insert(VId(a)); bs.insert(vns::OtherId(a)); us.insert(VId(a)); bs.insert(vns::OtherId(a)); }
  std::set<uint64_t> distinct(g.begin(), g.end()); c.cur("containers");
  c.check(us.size() == distinct.size() && bs.size() == distinct.size(), "hash", "a container of identifiers has the wrong size");
  c.sample("id 18446744073709551615 is not set; ++ makes it 0");
}
VF_PART(C01_random, 1) {
  c.cur("random identifiers"); std::set<std::string> seen; int n = c.thorough ? 200000 : 20000;
  for (int i = 0; i < n; ++i) { HashId h; if (i & 1) h.randomize(); else h = HashId::random(); c.check(h.isValid() && seen.insert(h.hexString()).second, "random", "a random identifier repeats or is invalid"); c.eval(); }
}
// every bit of random identifiers is random, also those of a process that has just begun
VF_PART(C01_random_bits, 1) {
  std::string f = c.scratch() + "/ids"; std::set<std::string> seen; std::set<uint64_t> words; std::vector<std::pair<uint64_t, uint64_t> > all;
  for (int p = 0; p < (c.thorough ? 400 : 60); ++p) {
    c.cur("process %d", p); c.eval();
    vf::isolated(c, [&] { FILE* o = fopen(f.c_str(), "ab"); for (int i = 0; i < 3; ++i) { HashId h; if ((i + p) % 2) h.randomize(); else h = HashId::random(); uint64_t w[2]; h.toUint64(w); fwrite(w, 8, 2, o); } fclose(o); });
  }
  FILE* in = fopen(f.c_str(), "rb"); uint64_t w[2]; while (in && fread(w, 8, 2, in) == 2) all.push_back({w[0], w[1]}); if (in) fclose(in);
  c.cur("%zu identifiers of new processes", all.size());
  for (auto& x : all) { c.check(words.insert(x.first).second && words.insert(x.second).second, "random-process", "two processes draw identifiers with a common word"); c.eval(); }
  const int N = c.thorough ? 200000 : 20000; all.clear(); for (int i = 0; i < N; ++i) { HashId h = HashId::random(); h.toUint64(w); all.push_back({w[0], w[1]}); }
  for (int b = 0; b < 64; ++b) {
    int n[6] = {0}; for (int i = 0; i < N; ++i) { uint64_t x = all[i].first >> b & 1, y = all[i].second >> b & 1; n[0] += x; n[1] += y; n[2] += x ^ y; n[3] += x ^ (all[i].first >> (b + 1) % 64 & 1); n[4] += y ^ (all[i].second >> (b + 1) % 64 & 1); if (i) n[5] += x ^ (all[i - 1].first >> b & 1); }
    for (int k = 0; k < 6; ++k) { c.cur("bit %d, count %d", b, k); c.eval(); c.check(std::abs(n[k] - N / 2) < N / 20, "random-bits", "bit " + vf::str(b) + " is not random: " + vf::str(n[k]) + " of " + vf::str(N)); }
  }
}
