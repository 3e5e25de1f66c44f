// Stand-in for moodycamel::ConcurrentQueue as /repo uses it: bounded, one producer at a time, written from its documentation.
// A producer token may be used by one thread at a time; any number of consumers may take from it.
#pragma once
#include <atomic>
#include <cstddef>
#include <deque>
#include <mutex>
#include <utility>
#include <kse_rt.h>
namespace moodycamel {
// Room comes back by whole blocks of this many items, as in the real queue
inline int kse_block = 1;
struct ProducerToken {
    template<class Q> explicit ProducerToken(Q &) {}
    ProducerToken(const ProducerToken &) = delete;
    std::atomic<int> producing{0};
};
template<class T>
class ConcurrentQueue
{
public:
    explicit ConcurrentQueue(size_t capacity = 32) : _capacity(capacity) {}
    ConcurrentQueue(size_t minCapacity, size_t, size_t) : _capacity(minCapacity) {}
    ConcurrentQueue(const ConcurrentQueue &) = delete;
    bool try_enqueue(ProducerToken &token, const T &item) { return put(token, T(item)); }
    bool try_enqueue(ProducerToken &token, T &&item) { return put(token, std::move(item)); }
    bool enqueue(ProducerToken &token, T &&item) { std::lock_guard<std::mutex> lock(_mutex); _added++; _items.push_back(std::move(item)); return true; }
    bool enqueue(ProducerToken &token, const T &item) { std::lock_guard<std::mutex> lock(_mutex); _added++; _items.push_back(item); return true; }
    template<class U>
    bool try_dequeue_from_producer(ProducerToken &, U &item) { return take(item); }
    template<class U>
    bool try_dequeue(U &item) { return take(item); }
    size_t size_approx() { std::lock_guard<std::mutex> lock(_mutex); return _items.size(); }

private:
    bool put(ProducerToken &token, T &&item)
    {
        std::lock_guard<std::mutex> lock(_mutex);
        size_t block = (size_t) kse_block;
        if (_added % block == 0 && _added / block - _taken / block >= (_capacity + block - 1) / block) return false;
        _added++;
        _items.push_back(std::move(item));
        return true;
    }
    template<class U>
    bool take(U &item)
    {
        std::lock_guard<std::mutex> lock(_mutex);
        if (_items.empty()) return false;
        item = std::move(_items.front());
        _items.pop_front();
        _taken++;
        return true;
    }
    std::mutex _mutex;
    std::deque<T> _items;
    size_t _capacity;
    size_t _added = 0, _taken = 0;
};
} // namespace moodycamel
