// Models of libstdc++/libc runtime functions that have no IR in the module under test.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <chrono>
#include <condition_variable>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <unordered_map>
#include <exception>
#include <pthread.h>
#include <time.h>
#include "kse_rt.h"

// ---- C strings
extern "C" {
int clock_gettime(clockid_t, struct timespec *ts) { uint64_t c = kse_clock(); ts->tv_sec = c / 1000000000ULL; ts->tv_nsec = c % 1000000000ULL; return 0; }
}
// ---- list and tree nodes
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
    if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base *const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
bool _Prime_rehash_policy_ok = true;
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741};
    for (size_t p : pr) if (p >= n) { _M_next_resize = p; return p; }
    _M_next_resize = n; return n; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t el, size_t ins) const {
    if (el + ins > _M_next_resize || bkt < el + ins) { if (el + ins > bkt) return {true, _M_next_bkt(el + ins > 2 * bkt ? el + ins : 2 * bkt)}; }
    return {false, 0}; }
size_t _Prime_rehash_policy_state = 0;
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *c = (const unsigned char *)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ULL; return h; }
// unbalanced search tree: the observable order is the same, balancing is only a performance matter
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    if (h._M_parent) h._M_parent->_M_color = _S_black;
    if (h._M_parent == x) x->_M_parent = &h;
}
static _Rb_tree_node_base *tmin(_Rb_tree_node_base *x) { while (x->_M_left) x = x->_M_left; return x; }
static _Rb_tree_node_base *tmax(_Rb_tree_node_base *x) { while (x->_M_right) x = x->_M_right; return x; }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
    _Rb_tree_node_base *&root = h._M_parent;
    auto replace = [&](_Rb_tree_node_base *a, _Rb_tree_node_base *b) { if (root == a) root = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        _Rb_tree_node_base *y = tmin(z->_M_right);
        if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; y->_M_color = z->_M_color;
    }
    if (root) { root->_M_color = _S_black; h._M_left = tmin(root); h._M_right = tmax(root); } else { h._M_left = &h; h._M_right = &h; }
    return z;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x; }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; }
    else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x; }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
}
// ---- exception_ptr
extern "C" uint64_t kse_current_exception(void);
extern "C" void kse_exception_addref(uint64_t), kse_exception_release(uint64_t), kse_rethrow_exception(uint64_t);
namespace std {
namespace __exception_ptr {
exception_ptr::exception_ptr(void *e) noexcept : _M_exception_object(e) { kse_exception_addref((uint64_t)e); }
void exception_ptr::_M_addref() noexcept { kse_exception_addref((uint64_t)_M_exception_object); }
void exception_ptr::_M_release() noexcept { kse_exception_release((uint64_t)_M_exception_object); _M_exception_object = nullptr; }
}
exception_ptr current_exception() noexcept { uint64_t e = kse_current_exception(); struct R { void *p; } r{(void *)e}; return *(exception_ptr *)&r; }
void rethrow_exception(exception_ptr p) { kse_rethrow_exception(*(uint64_t *)&p); __builtin_unreachable(); }
}
