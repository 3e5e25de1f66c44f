// C44: slots, positions and their arithmetic.
#include "kse_rt.h"
#include <cstring>
#include <memory>
#include <vector>
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>
using namespace disruptor4cpp;

namespace {
struct item { int32_t a = 5; int64_t b = -6; };
struct big { char pre[60]; int32_t a; char post[90]; };
template<class R> struct boxed { uint8_t before[64]; R r; uint8_t after[64]; template<class... A> boxed(A &&... a) : r(std::forward<A>(a)...) { memset(before, 0x5a, 64); memset(after, 0xa5, 64); }
    bool whole() const { for (int i = 0; i < 64; i++) if (before[i] != 0x5a || after[i] != 0xa5) return false; return true; } };

template<class E, size_t N, producer_type PT>
void slots()
{
    typedef ring_buffer<E, N, blocking_wait_strategy, PT> R;
    boxed<R> box;
    R &r = box.r;
    const R &c = r;
    for (int64_t i = 0; i < (int64_t) N; i++) r[i].a = 100 + (int32_t) i;
    int64_t p = sym_i64("position"), q = sym_i64("other position");
    ASSUME(p >= -1 && q >= -1);
    bool same = ((p ^ q) & (int64_t) (N - 1)) == 0;
    // where a position lies, found from what was written there
    CHECK(r[p].a == 100 + (int32_t) (p & (int64_t) (N - 1)), "a position is the same slot as those a ring length apart");
    CHECK(c[p].a == r[p].a, "a constant ring shows the same events");
    int32_t v = sym_i32("value");
    ASSUME(v != r[q].a);
    int32_t old = r[q].a;
    r[p].a = v;
    CHECK(r[p].a == v && c[p].a == v, "what is written to a position is read there");
    CHECK((r[q].a == v) == same && (same || r[q].a == old), "writing a position changes no other slot");
    if (same) REACH("same"); else REACH("other");
    CHECK(box.whole(), "a ring stays within its memory");
    CHECK(R::BUFFER_SIZE == N, "a ring has the asked number of slots");
}
int inits;
template<class E, size_t N, producer_type PT>
void filled()
{
    typedef ring_buffer<E, N, busy_spin_wait_strategy, PT> R;
    E e;
    e.a = sym_i32("a");
    inits = 0;
    if (kse_choose(2, "how")) {
        boxed<R> box(&e);
        for (int64_t i = 0; i < (int64_t) N; i++) CHECK(box.r[i].a == e.a, "a ring made of an event holds it in every slot");
        box.r[1].a = 1;
        CHECK(N == 1 || box.r[0].a == e.a, "every slot has a copy of its own");
        CHECK(box.whole(), "a ring stays within its memory");
        CHECK(box.r.get_cursor() == -1, "a filled ring has nothing published");
        REACH("copied");
    } else if (kse_choose(2, "nothing")) {
        boxed<R> box((const E *) nullptr);
        for (int64_t i = 0; i < (int64_t) N; i++) { box.r[i].a = (int32_t) i; CHECK(box.r[i].a == i, "a ring made of no event works"); }
        CHECK(box.whole(), "a ring stays within its memory");
        REACH("empty");
    } else {
        int32_t a = e.a;
        boxed<R> box(std::function<void(E &)>([a](E &x) { CHECK(inits < (int) N, "the initializer is called once for every slot"); x.a = a + inits++; }));
        CHECK(inits == (int) N, "the initializer is called once for every slot");
        uint32_t seen = 0;
        for (int64_t i = 0; i < (int64_t) N; i++) { int32_t d = box.r[i].a - a; for (int k = 0; k < (int) N; k++) if (d == k) seen |= 1u << k; }
        CHECK(seen == (1u << N) - 1, "every slot is initialised");
        CHECK(box.whole(), "a ring stays within its memory");
        CHECK(box.r.get_cursor() == -1, "a filled ring has nothing published");
        REACH("initialised");
    }
}
}

//! harness: ring_slots
//! prop: C44
//! bounds: rings of 2, 4 and 8 slots of small or large events, single and multi producer; any two positions from -1 up, any values
//! reach: same other
HARNESS(ring_slots)
{
    switch (kse_choose(5, "ring")) {
    case 0: slots<item, 2, producer_type::single>(); break;
    case 1: slots<item, 4, producer_type::multi>(); break;
    case 2: slots<item, 8, producer_type::single>(); break;
    case 3: slots<big, 4, producer_type::single>(); break;
    default: slots<big, 8, producer_type::multi>(); break;
    }
}

//! harness: ring_filled
//! prop: C44
//! bounds: rings of 2, 4 and 8 slots made of any event or with an initializer
//! reach: copied initialised empty
HARNESS(ring_filled)
{
    switch (kse_choose(4, "ring")) {
    case 0: filled<item, 2, producer_type::single>(); break;
    case 1: filled<item, 4, producer_type::multi>(); break;
    case 2: filled<item, 8, producer_type::single>(); break;
    default: filled<big, 4, producer_type::multi>(); break;
    }
}

//! harness: positions
//! prop: C44
//! bounds: 3 (thorough: 5) operations on a counter with any 64-bit values
//! reach: set added counted exchanged kept
HARNESS(positions)
{
    int64_t want = -1;
    bool given = kse_choose(2, "given");
    if (given) want = sym_i64("start");
    std::unique_ptr<sequence> s(given ? new sequence(want) : new sequence());
    CHECK(s->get() == want, "a sequence starts at -1 or where asked");
    for (int i = 0; i < (KSE_THOROUGH ? 5 : 3); i++) {
        int64_t v = sym_i64("v");
        switch (kse_choose(4, "op")) {
        case 0: s->set(v); want = v; REACH("set"); break;
        case 1: CHECK(s->add_and_get(v) == (int64_t) ((uint64_t) want + (uint64_t) v), "adding returns the new position"); want = (int64_t) ((uint64_t) want + (uint64_t) v); REACH("added"); break;
        case 2: CHECK(s->increment_and_get() == (int64_t) ((uint64_t) want + 1), "counting returns the new position"); want = (int64_t) ((uint64_t) want + 1); REACH("counted"); break;
        default: {
            int64_t e = sym_i64("expected");
            bool ok = s->compare_and_set(e, v);
            CHECK(!ok || e == want, "a position is only exchanged when it is the expected one");
            CHECK(ok || e != want, "an expected position is exchanged");
            if (ok) { want = v; REACH("exchanged"); } else REACH("kept");
        }
        }
        CHECK(s->get() == want, "a sequence is at its last position");
    }
}

//! harness: slowest
//! prop: C44
//! bounds: groups of 0 to 3 (thorough: 4) counters at any positions, made in every way
//! reach: none one several
HARNESS(slowest)
{
    int n = kse_choose(KSE_THOROUGH ? 5 : 4, "members");
    std::vector<std::unique_ptr<sequence>> s;
    std::vector<sequence *> v;
    std::vector<const sequence *> cv;
    int64_t least = INT64_MAX;
    for (int i = 0; i < n; i++) {
        int64_t p = sym_i64("p");
        s.emplace_back(new sequence(p));
        v.push_back(s.back().get());
        cv.push_back(s.back().get());
        if (p < least) least = p;
    }
    typedef fixed_sequence_group<sequence> G;
    if (n == 1 && kse_choose(2, "alone")) { CHECK(G::create(*v[0]).get() == least, "a group is where its slowest member is"); REACH("one"); return; }
    CHECK(G::create(v).get() == least && G::create(cv).get() == least, "a group is where its slowest member is");
    CHECK(util::get_minimum_sequence(v) == least && util::get_minimum_sequence(cv) == least, "the minimum is the slowest one");
    int64_t m = sym_i64("limit");
    int64_t low = m < least ? m : least;
    CHECK(util::get_minimum_sequence(v, m) == low && util::get_minimum_sequence(cv, m) == low, "a minimum stays below its limit");
    for (int i = 0; i < n; i++) CHECK(low <= v[i]->get(), "nobody is slower than the minimum");
    if (n) {
        G g = G::create(v);
        int64_t p = sym_i64("moved");
        v[0]->set(p);
        int64_t w = p;
        for (int i = 1; i < n; i++) if (v[i]->get() < w) w = v[i]->get();
        CHECK(g.get() == w, "a group follows its members");
    }
    REACH(n ? "several" : "none");
}

//! harness: slots_log
//! prop: C44
//! bounds: every power of two from 2 to 2^30
//! reach: log
HARNESS(slots_log)
{
    int k = 1 + (int) kse_concretize(kse_pick(30, "power"));
    CHECK(util::log2(1 << k) == k, "the logarithm of a ring length");
    bool refused = false;
    int none = -(int) kse_concretize(kse_pick(3, "none"));
    try { util::log2(none); } catch (const std::invalid_argument &) { refused = true; }
    CHECK(refused, "no slots have no logarithm");
    REACH("log");
}
