// Stand-in for cppzmq as /repo uses it: publish-subscribe sockets in one process, written from its documentation.
// Messages of several frames arrive whole and in order at every connected subscriber that has a matching subscription;
// nothing is dropped. A socket must not be used by two threads at the same time.
#pragma once
#include <atomic>
#include <chrono>
#include <cstddef>
#include <deque>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <kse_rt.h>
#define ZMQ_PUB 1
#define ZMQ_SUB 2
#define ZMQ_SUBSCRIBE 6
#define ZMQ_UNSUBSCRIBE 7
#define ZMQ_POLLIN 1
#define ZMQ_POLLOUT 2
typedef struct zmq_pollitem_t { void *socket; int fd; short events; short revents; } zmq_pollitem_t;
namespace zmq {
typedef zmq_pollitem_t pollitem_t;
enum class send_flags : int { none = 0, dontwait = 1, sndmore = 2 };
enum class recv_flags : int { none = 0, dontwait = 1 };
inline send_flags operator|(send_flags a, send_flags b) { return (send_flags) ((int) a | (int) b); }
class context_t { public: explicit context_t(int = 1) {} };
class const_buffer
{
public:
    const_buffer(const void *d, size_t n) : _d(d), _n(n) {}
    const void *data() const { return _d; }
    size_t size() const { return _n; }
private:
    const void *_d;
    size_t _n;
};
inline const_buffer buffer(const std::string &s) { return const_buffer(s.data(), s.size()); }
inline const_buffer buffer(const void *d, size_t n) { return const_buffer(d, n); }
class message_t
{
public:
    message_t() {}
    explicit message_t(size_t n) : _b(n) {}
    message_t(const void *d, size_t n) : _b((const char *) d, (const char *) d + n) {}
    explicit message_t(const std::string &s) : _b(s.begin(), s.end()) {}
    message_t(message_t &&) = default;
    message_t &operator=(message_t &&) = default;
    void *data() { return _b.data(); }
    const void *data() const { return _b.data(); }
    template<class T> T *data() { return (T *) _b.data(); }
    size_t size() const { return _b.size(); }
    bool empty() const { return _b.empty(); }
    bool more() const { return _more; }
    std::string to_string() const { return std::string(_b.begin(), _b.end()); }
    void rebuild(const void *d, size_t n) { _b.assign((const char *) d, (const char *) d + n); }
private:
    friend class socket_t;
    std::vector<char> _b;
    bool _more = false;
};
// what recv returns: whether there was something, and how much
struct recv_result_t { bool ok; size_t n; bool has_value() const { return ok; } explicit operator bool() const { return ok; } size_t operator*() const { return n; } };
class socket_t
{
public:
    typedef std::vector<std::vector<char>> Message;
    socket_t(context_t &, int type) : _type(type) {}
    socket_t(const socket_t &) = delete;
    ~socket_t()
    {
        std::lock_guard<std::mutex> lock(wires());
        for (socket_t *p : _from) for (size_t i = 0; i < p->_to.size(); i++) if (p->_to[i] == this) { p->_to.erase(p->_to.begin() + i); break; }
        for (socket_t *s : _to) for (size_t i = 0; i < s->_from.size(); i++) if (s->_from[i] == this) { s->_from.erase(s->_from.begin() + i); break; }
    }
    // a subscriber is connected to a publisher (instead of both to an address)
    void kse_connect(socket_t &publisher) { std::lock_guard<std::mutex> lock(wires()); publisher._to.push_back(this); _from.push_back(&publisher); }
    size_t kse_pending() { std::lock_guard<std::mutex> lock(wires()); return _queue.size(); }
    operator void *() { return this; }
    void setsockopt(int option, const void *p, size_t n)
    {
        std::lock_guard<std::mutex> lock(wires());
        if (option == ZMQ_SUBSCRIBE) _topics.push_back(std::string((const char *) p, n));
    }
    recv_result_t send(const_buffer b, send_flags flags = send_flags::none) { return put(b.data(), b.size(), flags); }
    recv_result_t send(message_t &m, send_flags flags) { return put(m.data(), m.size(), flags); }
    recv_result_t send(message_t &&m, send_flags flags) { return put(m.data(), m.size(), flags); }
    bool send(message_t &m, int flags = 0) { return put(m.data(), m.size(), (send_flags) flags).ok; }
    bool send(message_t &&m, int flags = 0) { return put(m.data(), m.size(), (send_flags) flags).ok; }
    recv_result_t recv(message_t &m, recv_flags flags = recv_flags::none)
    {
        Use use(*this);
        for (;;) {
            {
                std::lock_guard<std::mutex> lock(wires());
                if (_reading.empty() && !_queue.empty()) { _reading = std::move(_queue.front()); _queue.pop_front(); _frame = 0; }
                if (!_reading.empty()) {
                    m._b = std::move(_reading[_frame++]);
                    m._more = _frame < _reading.size();
                    if (!m._more) _reading.clear();
                    return {true, m._b.size()};
                }
            }
            if ((int) flags & 1) return {false, 0};
            kse_yield();
        }
    }
    bool kse_ready() { Use use(*this); std::lock_guard<std::mutex> lock(wires()); return !_reading.empty() || !_queue.empty(); }

private:
    struct Use {
        explicit Use(socket_t &s) : s(s) { CHECK(s._users.fetch_add(1) == 0, "a socket is used by one thread at a time"); }
        ~Use() { s._users.fetch_sub(1); }
        socket_t &s;
    };
    static std::mutex &wires() { return kse_wires; }
    static inline std::mutex kse_wires;
    recv_result_t put(const void *d, size_t n, send_flags flags)
    {
        Use use(*this);
        _writing.push_back(std::vector<char>((const char *) d, (const char *) d + n));
        if ((int) flags & 2) return {true, n};
        std::lock_guard<std::mutex> lock(wires());
        for (socket_t *s : _to) {
            bool wanted = false;
            for (auto &t : s->_topics) wanted = wanted || (_writing[0].size() >= t.size() && std::string(_writing[0].begin(), _writing[0].begin() + t.size()) == t);
            if (wanted) s->_queue.push_back(_writing);
        }
        _writing.clear();
        return {true, n};
    }
    int _type;
    std::atomic<int> _users{0};
    std::vector<std::string> _topics;
    std::vector<socket_t *> _to, _from;
    std::deque<Message> _queue;
    Message _writing, _reading;
    size_t _frame = 0;
};
inline int poll(pollitem_t *items, size_t n, long timeout = -1)
{
    for (bool again = false;; again = true) {
        int ready = 0;
        for (size_t i = 0; i < n; i++) {
            items[i].revents = 0;
            if (((socket_t *) items[i].socket)->kse_ready()) { items[i].revents = ZMQ_POLLIN; ready++; }
        }
        if (ready || timeout == 0 || (again && timeout > 0)) return ready;
        if (timeout > 0) std::this_thread::sleep_for(std::chrono::milliseconds(timeout)); else kse_yield();
    }
}
inline int poll(pollitem_t *items, size_t n, std::chrono::milliseconds timeout) { return poll(items, n, (long) timeout.count()); }
} // namespace zmq
