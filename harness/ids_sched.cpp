// C01 under concurrency: random identifiers drawn by several threads.
#include "vs.hpp"
#include <thread>
#include <sm/hash_id.hpp>
using sm::HashId;
namespace {
void draw(HashId* o, int n) { for (int i = 0; i < n; ++i) { if (i & 1) o[i].randomize(); else o[i] = HashId::random(); } }
void distinct(const HashId* a, int n) {
  for (int i = 0; i < n; ++i) { if (!a[i].isValid()) vs::fail("random", "an identifier that is not valid"); uint64_t w[2]; a[i].toUint64(w);
    for (int j = 0; j < i; ++j) { uint64_t u[2]; a[j].toUint64(u); if (u[0] == w[0] || u[1] == w[1]) vs::fail("random", "identifiers %d and %d share a word", j, i); } }
}
}
VS_SCENARIO(C01_two_threads, o.quick_bound = 3; o.thorough_bound = 5) {
  HashId a[4]; std::thread t(&draw, a, 2); draw(a + 2, 2); t.join(); distinct(a, 4);
}
VS_SCENARIO(C01_three_threads, o.quick_bound = 3; o.thorough_bound = 4) {
  HashId a[3]; std::thread t(&draw, a, 1), u(&draw, a + 1, 1); draw(a + 2, 1); t.join(); u.join(); distinct(a, 3);
}
