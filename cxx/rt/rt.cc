// The parts of the C++ library that live in libstdc++.so, for the symbolic runs.
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>

template class std::basic_string<char>;

namespace std {
static _Rb_tree_node_base* next_(_Rb_tree_node_base* x) {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) {
    x = y;
    y = y->_M_parent;
  }
  return x->_M_right != y ? y : x;
}
static _Rb_tree_node_base* prev_(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) {
    _Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    return y;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return next_(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {
  return next_(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return prev_(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() {
  return prev_(const_cast<_Rb_tree_node_base*>(x));
}
// A search tree without balancing; only the header is red.
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& h) throw() {
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) {
      h._M_parent = x;
      h._M_right = x;
    } else if (p == h._M_left) {
      h._M_left = x;
    }
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
static void replace_(_Rb_tree_node_base* z, _Rb_tree_node_base* y, _Rb_tree_node_base& h) {
  if (h._M_parent == z)
    h._M_parent = y;
  else if (z->_M_parent->_M_left == z)
    z->_M_parent->_M_left = y;
  else
    z->_M_parent->_M_right = y;
  if (y) y->_M_parent = z->_M_parent;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  if (h._M_left == z) h._M_left = (z->_M_right || z->_M_parent != &h) ? next_(z) : &h;
  if (h._M_right == z) {
    if (z->_M_left) {
      _Rb_tree_node_base* y = z->_M_left;
      while (y->_M_right) y = y->_M_right;
      h._M_right = y;
    } else {
      h._M_right = z->_M_parent;
    }
  }
  if (!z->_M_left) {
    replace_(z, z->_M_right, h);
  } else if (!z->_M_right) {
    replace_(z, z->_M_left, h);
  } else {
    _Rb_tree_node_base* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      replace_(y, y->_M_right, h);
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    replace_(z, y, h);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  return z;
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  size_t h = 14695981039346656037ULL ^ seed;
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ULL;
  return h;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
  if (n < sizeof(fast)) {
    if (n == 0) return 1;
    _M_next_resize = fast[n];
    return fast[n];
  }
  size_t p = n | 1;
  for (;; p += 2) {
    bool prime = true;
    for (size_t d = 3; d * d <= p; d += 2)
      if (p % d == 0) {
        prime = false;
        break;
      }
    if (prime) break;
  }
  _M_next_resize = p;
  return p;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize) {
    size_t want = elt + ins + 1;
    if (want < 2 * bkt) want = 2 * bkt;
    if (_M_next_resize == 0 && want < 11) want = 11;
    if (want <= bkt) {
      _M_next_resize = bkt;
      return {false, 0};
    }
    return {true, _M_next_bkt(want)};
  }
  return {false, 0};
}
}  // namespace __detail
}  // namespace std
extern "C" {
extern char __libc_single_threaded;
char __libc_single_threaded = 1;
}
