// PROPERTY: P07
// ASSUME: Queue capacity at most 2^30 (index arithmetic is 32-bit), fewer than 2^64-1 pushes over a queue's life
// ASSUME: Queue: statistics (utilization_) and pipeline collection are not attached
#include "verif.h"
#include "sparta/resources/Queue.hpp"
using Q = sparta::Queue<uint64_t>;
struct G { uint64_t head, V, obj; };

// representation invariant
static bool inv(const Q* q) {
    uint32_t V = q->vector_size_, c = q->num_entries_;
    return V != 0 && (V & (V - 1)) == 0 && c <= (1u << 30) && c * 2 <= V && V <= (1u << 31) && q->total_valid_ <= c &&
           q->current_head_idx_ < V && q->current_write_idx_ == ((q->current_head_idx_ + q->total_valid_) & (V - 1)) &&
           q->invalid_index_ == V + 1;
}
static Q* any(const char* n) {
    Q* q = v_obj<Q>(n);
    const_cast<uint32_t&>(q->num_entries_) = v_u32("capacity");
    q->total_valid_ = v_u32("size");
    q->current_head_idx_ = v_u32("head");
    q->current_write_idx_ = v_u32("write");
    const_cast<uint32_t&>(q->vector_size_) = v_u32("vector_size");
    const_cast<uint32_t&>(q->invalid_index_) = q->vector_size_ + 1;
    q->obj_id_ = v_u64("obj_id");
    v_assume(q->obj_id_ < ~0ull);
    new (&q->utilization_) decltype(q->utilization_)();
    new (&q->collector_) decltype(q->collector_)();
    v_assume(inv(q));
    void* data = v_array("queue_data", q->vector_size_, sizeof(Q::QueueData));
    new (&q->queue_data_) decltype(q->queue_data_)(static_cast<Q::QueueData*>(data));
    return q;
}
static bool occupied(const Q* q, uint32_t p) { return p < q->vector_size_ && ((p - q->current_head_idx_) & (q->vector_size_ - 1)) < q->total_valid_; }
// an iterator handed out earlier: it names slot p and stamp k, and k was issued by this queue
static Q::iterator anyIter(Q* q, uint32_t& p, uint64_t& k) {
    p = v_u32("it_slot"); k = v_u64("it_stamp");
    v_assume(p < q->vector_size_ && k <= q->obj_id_);
    Q::iterator it;
    it.attached_queue_ = q; it.physical_index_ = p; it.obj_id_ = k;
    return it;
}
static bool alive(Q* q, uint32_t p, uint64_t k) { return occupied(q, p) && q->queue_data_[p].obj_id == k; }

extern "C" void vh_queue_construct() {
    uint32_t cap = v_u32("capacity");
    v_assume(cap <= (1u << 30));
    Q q("q", cap, nullptr);
    v_assert(inv(&q), "construct.invariant");
    v_assert(q.size() == 0 && q.capacity() == cap && q.empty() && q.numFree() == cap, "construct.empty-with-capacity");
    v_assert(q.begin() == q.end(), "construct.begin-is-end");
}
extern "C" void vh_queue_push() {
    Q* q = any("q");
    uint64_t x = v_u64("x");
    uint32_t n = q->size(), cap = q->capacity(), g = v_u32("g");
    v_assume(g < n);
    uint64_t old = q->read(g);
    bool threw = false;
    try { q->push(x); } catch (const sparta::SpartaException&) { threw = true; }
    v_assert(threw == (n == cap), "push.rejected-exactly-when-full");
    if (threw) { v_cover("full"); v_assert(q->size() == n && q->read(g) == old, "push.failed-push-changes-nothing"); }
    else {
        v_cover("pushed");
        v_assert(q->size() == n + 1, "push.size-grows-by-one");
        v_assert(q->read(n) == x && q->access(n) == x, "push.new-element-is-last");
        v_assert(q->back() == x, "push.back-is-new");
        v_assert(q->read(g) == old, "push.older-elements-unchanged");
    }
    v_assert(inv(q), "push.invariant");
}
extern "C" void vh_queue_push_iterators() {
    Q* q = any("q");
    uint64_t x = v_u64("x"), k; uint32_t p;
    v_assume(q->size() < q->capacity());
    auto it = anyIter(q, p, k);
    bool was = it.isValid();
    v_assert(was == alive(q, p, k), "iterator.valid-iff-its-element-is-present");
    if (was) v_cover("valid-before");
    uint64_t before = was ? *it : 0, last = q->obj_id_;
    uint32_t widx = q->current_write_idx_;
    auto ni = q->push(uint64_t(x));
    v_assert(it.isValid() == was, "push.keeps-every-iterators-validity");
    if (was) v_assert(*it == before, "push.iterator-still-yields-its-element");
    v_assert(ni.isValid() && *ni == x && ni.getIndex() == q->size() - 1, "push.returned-iterator-names-new-element");
    v_assert(ni.physical_index_ == widx && ni.obj_id_ > last, "push.stamps-are-fresh");
    v_assert(q->queue_data_[widx].obj_id <= q->obj_id_ && q->obj_id_ >= last, "push.stamps-bounded");
    // every later use of the returned iterator finds the stamp that was stored
    v_assert(alive(q, widx, ni.obj_id_), "push.iterator-bound-to-element");
}
extern "C" void vh_queue_push_empty() {
    Q* q = any("q");
    uint64_t x = v_u64("x");
    v_assume(q->size() == 0 && q->capacity() > 0);
    auto it = q->push(x);
    v_assert(q->front() == x && q->back() == x && q->size() == 1 && *it == x && it == q->begin(), "push-empty.single-element");
}
extern "C" void vh_queue_pop() {
    Q* q = any("q");
    uint32_t n = q->size(), g = v_u32("g");
    v_assume(n >= 1 && g < n - 1);
    uint64_t old = q->read(g + 1);
    bool threw = false;
    try { q->pop(); } catch (const sparta::SpartaException&) { threw = true; }
    v_assert(!threw, "pop.never-rejected-when-nonempty");
    v_assert(q->size() == n - 1, "pop.size");
    v_assert(q->read(g) == old, "pop.remaining-shift-forward");
    v_assert(inv(q), "pop.invariant");
}
extern "C" void vh_queue_pop_iterators() {
    Q* q = any("q");
    uint64_t k; uint32_t p;
    v_assume(q->size() > 0);
    auto it = anyIter(q, p, k);
    bool was = it.isValid();
    bool at_head = was && it.getIndex() == 0;
    uint64_t before = was ? *it : 0;
    if (at_head) v_assert(before == q->front(), "iterator.index-0-is-front");
    bool frontpop = v_bool("pop_front");
    bool at_tail = was && it.getIndex() == q->size() - 1;
    if (at_tail) v_assert(before == q->back(), "iterator.last-index-is-back");
    if (frontpop) q->pop(); else q->pop_back();
    if (at_head) v_cover("head");
    if (at_tail) v_cover("tail");
    v_assert(it.isValid() == (was && !(frontpop ? at_head : at_tail)), "pop.invalidates-exactly-the-removed-element");
    if (it.isValid()) v_assert(*it == before, "pop.iterator-still-yields-its-element");
    v_assert(inv(q), "pop.invariant");
}
extern "C" void vh_queue_pop_back() {
    Q* q = any("q");
    uint32_t n = q->size(), g = v_u32("g");
    v_assume(n >= 1 && g < n - 1);
    uint64_t old = q->read(g);
    q->pop_back();
    v_assert(q->size() == n - 1, "pop_back.size");
    v_assert(q->read(g) == old, "pop_back.remaining-unchanged");
    v_assert(inv(q), "pop_back.invariant");
}
extern "C" void vh_queue_empty_rejects() {
    Q* q = any("q");
    v_assume(q->size() == 0);
    int t = 0;
    try { q->pop(); } catch (const sparta::SpartaException&) { t++; }
    try { q->pop_back(); } catch (const sparta::SpartaException&) { t++; }
    try { (void)q->front(); } catch (const sparta::SpartaException&) { t++; }
    try { (void)q->back(); } catch (const sparta::SpartaException&) { t++; }
    try { (void)q->read(v_u32("i")); } catch (const sparta::SpartaException&) { t++; }
    v_assert(t == 5, "empty.every-access-rejected");
    v_assert(q->size() == 0 && inv(q), "empty.rejection-changes-nothing");
    v_assert(q->begin() == q->end(), "empty.begin-is-end");
}
extern "C" void vh_queue_read_bounds() {
    Q* q = any("q");
    uint32_t i = v_u32("i");
    bool threw = false, threw2 = false;
    try { (void)q->read(i); } catch (const sparta::SpartaException&) { threw = true; }
    try { (void)q->access(i); } catch (const sparta::SpartaException&) { threw2 = true; }
    v_assert(threw == (i >= q->size()) && threw2 == threw, "read.rejected-exactly-when-out-of-range");
    v_assert(q->isValid(i) == (i < q->size()) && q->numFree() == q->capacity() - q->size() && q->empty() == (q->size() == 0), "queries.agree-with-size");
}
extern "C" void vh_queue_clear() {
    Q* q = any("q");
    uint64_t k; uint32_t p;
    auto it = anyIter(q, p, k);
    uint64_t ids = q->obj_id_;
    q->clear();
    v_assert(q->size() == 0 && q->empty(), "clear.empty");
    v_assert(!it.isValid(), "clear.invalidates-iterators");
    v_assert(inv(q), "clear.invariant");
    v_assert(q->obj_id_ >= ids, "clear.ids-are-never-reused");
}
extern "C" void vh_queue_iterate() {
    Q* q = any("q");
    uint32_t g = v_u32("g"), n = q->size();
    v_assume(g < n);
    Q::iterator it;
    it.attached_queue_ = q; it.physical_index_ = q->getPhysicalIndex_(g); it.obj_id_ = q->queue_data_[it.physical_index_].obj_id;
    v_assert(it.getIndex() == g && it.isValid() && *it == q->read(g), "iterate.index-matches-position");
    if (g == 0) { v_cover("first"); v_assert(it == q->begin(), "iterate.begin-is-oldest"); }
    auto j = it;
    ++j;
    if (g + 1 == n) { v_cover("last"); v_assert(j == q->end(), "iterate.after-last-is-end"); }
    else v_assert(j.isValid() && j.getIndex() == g + 1 && *j == q->read(g + 1), "iterate.increment-is-next-in-order");
    --j;
    v_assert(j == it && j.isValid() && *j == q->read(g), "iterate.decrement-undoes-increment");
}
