// Contract stand-in for libstdc++'s red-black tree primitives: same interface and order, without rebalancing
// (balance is not observable through std::map and std::set).  Linked into the verified module only.
#include <map>
namespace std {
static _Rb_tree_node_base* vf_incr(_Rb_tree_node_base* x) {
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
static _Rb_tree_node_base* vf_decr(_Rb_tree_node_base* x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) {
        x = x->_M_left;
        while (x->_M_right) x = x->_M_right;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return vf_incr(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return vf_incr(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return vf_decr(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return vf_decr(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
static void vf_replace(_Rb_tree_node_base* z, _Rb_tree_node_base* x, _Rb_tree_node_base& h) {
    if (h._M_parent == z) h._M_parent = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (x) x->_M_parent = z->_M_parent;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base* next = vf_incr(z);
    _Rb_tree_node_base* prev = h._M_left == z ? 0 : vf_decr(z);
    if (h._M_left == z) h._M_left = next;
    if (h._M_right == z) h._M_right = prev ? prev : &h;
    if (!z->_M_left) vf_replace(z, z->_M_right, h);
    else if (!z->_M_right) vf_replace(z, z->_M_left, h);
    else {
        _Rb_tree_node_base* y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) {
            vf_replace(y, y->_M_right, h);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        vf_replace(z, y, h);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    return z;
}
}
