// Out-of-line parts of the standard containers, so that code using maps, sets, lists and hash tables can be executed symbolically.
#include <map>
#include <list>
#include <unordered_map>
#include <cstring>
namespace std {
typedef _Rb_tree_node_base* N;
_GLIBCXX_PURE N _Rb_tree_increment(N x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } N y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
_GLIBCXX_PURE const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<N>(x)); }
_GLIBCXX_PURE N _Rb_tree_decrement(N x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { N y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } N y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
_GLIBCXX_PURE const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<N>(x)); }
// the tree is kept in order but not balanced
void _Rb_tree_insert_and_rebalance(const bool left, N x, N p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
N _Rb_tree_rebalance_for_erase(N z, _Rb_tree_node_base& h) throw() {
  N nx = nullptr; auto put = [&](N o, N n) { if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
  if (h._M_left == z) h._M_left = _Rb_tree_increment(z); if (h._M_right == z) h._M_right = h._M_parent == z && !z->_M_left ? &h : _Rb_tree_decrement(z);
  if (!z->_M_left) put(z, z->_M_right); else if (!z->_M_right) put(z, z->_M_left);
  else { N y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { put(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } put(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if (!h._M_parent) h._M_left = h._M_right = &h; (void)nx; return z; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this == l) return; l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { _List_node_base t = x; x = y; y = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y = x; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x = y; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { static const unsigned P[] = {13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043}; for (unsigned p : P) if (p >= n) { _M_next_resize = p; return p; } _M_next_resize = n; return n; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const { if (ne + ni > _M_next_resize) { std::size_t w = ne + ni; if (!_M_next_resize && w < 11) w = 11; if (w >= nb) return {true, _M_next_bkt(w + 1 > nb * 2 ? w + 1 : nb * 2)}; _M_next_resize = nb; } return {false, 0}; }
}
std::size_t _Hash_bytes(const void* p, std::size_t n, std::size_t seed) { const unsigned char* c = (const unsigned char*)p; std::size_t h = seed ^ 14695981039346656037ULL; for (std::size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ULL; return h; }
}
