// Support code for the symbolic run only: the parts of libstdc++ that live in its shared object.
#pragma once
#ifndef NATIVE
#include <map>
#include <unordered_map>
#include <string>
template class std::basic_string<char>;
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;  // header
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// an unbalanced search tree has the same contents and order; nodes are black so that only the header is red
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base *y = z, *x;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
    }
    if (h._M_parent == z) h._M_parent = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
  } else {
    if (x) x->_M_parent = y->_M_parent;
    if (h._M_parent == z) h._M_parent = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (h._M_left == z) {
      if (!z->_M_right) h._M_left = z->_M_parent;
      else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; }
    }
    if (h._M_right == z) {
      if (!z->_M_left) h._M_right = z->_M_parent;
      else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; }
    }
  }
  return z;
}
namespace __detail {
  std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { _M_next_resize = n < 13 ? 13 : n * 2 + 1; return _M_next_resize; }
  std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t n_bkt, std::size_t n_elt, std::size_t n_ins) const {
    if (n_elt + n_ins > _M_next_resize) { std::size_t n = _M_next_bkt(n_elt + n_ins); return std::make_pair(true, n > n_bkt ? n : n_bkt + 2); }
    return std::make_pair(false, std::size_t(0));
  }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) seed = seed * 31 + c[i]; return seed; }
}
#endif
