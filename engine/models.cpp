// Bodies for the few libstdc++ functions that live in its shared library and are needed by container headers.
// They keep the documented effect (the tree is linked without rebalancing: the order is the same).
#include <map>
#include <list>
#include <unordered_map>
namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
{
	x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
	if (left) {
		p->_M_left = x;
		if (p == &h) { h._M_parent = x; h._M_right = x; }
		else if (p == h._M_left) h._M_left = x;
	} else {
		p->_M_right = x;
		if (p == h._M_right) h._M_right = x;
	}
}
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x)
{
	if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
	_Rb_tree_node_base *y = x->_M_parent;
	while (x == y->_M_right) { x = y; y = y->_M_parent; }
	if (x->_M_right != y) x = y;
	return x;
}
// the header is the only node whose parent's parent is itself and that is red
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x)
{
	if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
	if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
	_Rb_tree_node_base *y = x->_M_parent;
	while (x == y->_M_left) { x = y; y = y->_M_parent; }
	return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<_Rb_tree_node_base *>(x)); }

namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) throw() { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() throw() { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
}
}

// C library: strtol as the C standard defines it (LP64), for the calls std::stoi makes
static int vf_errno;
extern "C" int *__errno_location() noexcept { return &vf_errno; }
static int digit_value(unsigned char c)
{
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'z') return c - 'a' + 10;
	if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
	return 99;
}
extern "C" long vf_strtol(const char *s, char **end, int base)
{
	const char *p = s;
	while (*p == ' ' || (*p >= '\t' && *p <= '\r')) p++;
	bool neg = false;
	if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digit_value(p[2]) < 16) { p += 2; base = 16; }
	if (base == 0) base = *p == '0' ? 8 : 10;
	unsigned long v = 0;
	bool any = false, over = false;
	int d;
	while ((d = digit_value(*p)) < base) {
		any = true;
		if (v > (0x7fffffffffffffffUL - d) / base) over = true; else v = v * base + d;
		p++;
	}
	if (end) *end = const_cast<char *>(any ? p : s);
	if (over) { vf_errno = 34; return neg ? -0x7fffffffffffffffL - 1 : 0x7fffffffffffffffL; }
	return neg ? -(long)v : (long)v;
}
extern "C" long vf_strtol_alias(const char *s, char **end, int base) __asm__("strtol");
extern "C" long vf_strtol_alias(const char *s, char **end, int base) { return vf_strtol(s, end, base); }
extern "C" long vf_strtol_alias23(const char *s, char **end, int base) __asm__("__isoc23_strtol");
extern "C" long vf_strtol_alias23(const char *s, char **end, int base) { return vf_strtol(s, end, base); }
