// Definitions of the non-template parts of libstdc++ that the IR needs (the library itself is only available as machine code).
#include <string>
#include <cstddef>
template class std::basic_string<char>;
extern "C" int vc_rt_keep() { return 0; }
// Red-black tree primitives: any binary search tree with the same in-order sequence satisfies the container's contract.
#include <bits/stl_tree.h>
namespace std {
static _Rb_tree_node_base* vc_incr(_Rb_tree_node_base* x) noexcept
{
  if (x->_M_right != 0) { x = x->_M_right; while (x->_M_left != 0) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
static _Rb_tree_node_base* vc_decr(_Rb_tree_node_base* x) noexcept
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left != 0) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right != 0) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return vc_incr(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return vc_incr(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return vc_decr(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return vc_decr(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept
{
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
}
