// Definitions, for the engine only, of functions that libstdc++ keeps out of line.
// They implement the documented behaviour; the algorithms of the red-black tree follow libstdc++.
#include <cstddef>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <list>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <memory>
#include <mutex>
#include <system_error>

extern "C" void pisym_throw_bad_alloc() { throw std::bad_alloc(); }

namespace std {
// ---- exceptions
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

static char *dupStr(const char *s) {
    size_t n = strlen(s);
    char *p = (char *)::operator new(n + 1);
    memcpy(p, s, n + 1);
    return p;
}
__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const std::string &s) : _M_p(dupStr(s.c_str())) {}
__cow_string::__cow_string(const char *s, size_t n) {
    char *p = (char *)::operator new(n + 1);
    memcpy(p, s, n);
    p[n] = 0;
    _M_p = p;
}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(o._M_p) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) {}
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }

logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return *(const char *const *)&_M_msg; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return *(const char *const *)&_M_msg; }
#define EXC(N, B)                                   \
    N::N(const string &s) : B(s) {}                 \
    N::N(const char *s) : B(s) {}                   \
    N::~N() noexcept {}
EXC(domain_error, logic_error)
EXC(invalid_argument, logic_error)
EXC(length_error, logic_error)
EXC(out_of_range, logic_error)
EXC(range_error, runtime_error)
EXC(overflow_error, runtime_error)
EXC(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system error"); }

// ---- red-black tree
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
    if (x->_M_right != 0) {
        x = x->_M_right;
        while (x->_M_left != 0) x = x->_M_left;
    } else {
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_right) {
            x = y;
            y = y->_M_parent;
        }
        if (x->_M_right != y) x = y;
    }
    return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left != 0) {
        _Rb_tree_node_base *y = x->_M_left;
        while (y->_M_right != 0) y = y->_M_right;
        x = y;
    } else {
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_left) {
            x = y;
            y = y->_M_parent;
        }
        x = y;
    }
    return x;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
static void rotL(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root) {
    _Rb_tree_node_base *const y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left != 0) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
    else x->_M_parent->_M_right = y;
    y->_M_left = x;
    x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root) {
    _Rb_tree_node_base *const y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right != 0) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
    else x->_M_parent->_M_left = y;
    y->_M_right = x;
    x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) throw() {
    _Rb_tree_node_base *&root = header._M_parent;
    x->_M_parent = p;
    x->_M_left = 0;
    x->_M_right = 0;
    x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &header) {
            header._M_parent = x;
            header._M_right = x;
        } else if (p == header._M_left) header._M_left = x;
    } else {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        _Rb_tree_node_base *const xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) {
            _Rb_tree_node_base *const y = xpp->_M_right;
            if (y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black;
                y->_M_color = _S_black;
                xpp->_M_color = _S_red;
                x = xpp;
            } else {
                if (x == x->_M_parent->_M_right) {
                    x = x->_M_parent;
                    rotL(x, root);
                }
                x->_M_parent->_M_color = _S_black;
                xpp->_M_color = _S_red;
                rotR(xpp, root);
            }
        } else {
            _Rb_tree_node_base *const y = xpp->_M_left;
            if (y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black;
                y->_M_color = _S_black;
                xpp->_M_color = _S_red;
                x = xpp;
            } else {
                if (x == x->_M_parent->_M_left) {
                    x = x->_M_parent;
                    rotR(x, root);
                }
                x->_M_parent->_M_color = _S_black;
                xpp->_M_color = _S_red;
                rotL(xpp, root);
            }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) throw() {
    _Rb_tree_node_base *&root = header._M_parent;
    _Rb_tree_node_base *&leftmost = header._M_left;
    _Rb_tree_node_base *&rightmost = header._M_right;
    _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
    if (y->_M_left == 0) x = y->_M_right;
    else if (y->_M_right == 0) x = y->_M_left;
    else {
        y = y->_M_right;
        while (y->_M_left != 0) y = y->_M_left;
        x = y->_M_right;
    }
    if (y != z) {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            xp = y->_M_parent;
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        } else
            xp = y;
        if (root == z) root = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        std::swap(y->_M_color, z->_M_color);
        y = z;
    } else {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (leftmost == z) {
            if (z->_M_right == 0) leftmost = z->_M_parent;
            else {
                _Rb_tree_node_base *m = x;
                while (m->_M_left != 0) m = m->_M_left;
                leftmost = m;
            }
        }
        if (rightmost == z) {
            if (z->_M_left == 0) rightmost = z->_M_parent;
            else {
                _Rb_tree_node_base *m = x;
                while (m->_M_right != 0) m = m->_M_right;
                rightmost = m;
            }
        }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (x == 0 || x->_M_color == _S_black))
            if (x == xp->_M_left) {
                _Rb_tree_node_base *w = xp->_M_right;
                if (w->_M_color == _S_red) {
                    w->_M_color = _S_black;
                    xp->_M_color = _S_red;
                    rotL(xp, root);
                    w = xp->_M_right;
                }
                if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) {
                    w->_M_color = _S_red;
                    x = xp;
                    xp = xp->_M_parent;
                } else {
                    if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) {
                        w->_M_left->_M_color = _S_black;
                        w->_M_color = _S_red;
                        rotR(w, root);
                        w = xp->_M_right;
                    }
                    w->_M_color = xp->_M_color;
                    xp->_M_color = _S_black;
                    if (w->_M_right) w->_M_right->_M_color = _S_black;
                    rotL(xp, root);
                    break;
                }
            } else {
                _Rb_tree_node_base *w = xp->_M_left;
                if (w->_M_color == _S_red) {
                    w->_M_color = _S_black;
                    xp->_M_color = _S_red;
                    rotR(xp, root);
                    w = xp->_M_left;
                }
                if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) {
                    w->_M_color = _S_red;
                    x = xp;
                    xp = xp->_M_parent;
                } else {
                    if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) {
                        w->_M_right->_M_color = _S_black;
                        w->_M_color = _S_red;
                        rotL(w, root);
                        w = xp->_M_left;
                    }
                    w->_M_color = xp->_M_color;
                    xp->_M_color = _S_black;
                    if (w->_M_left) w->_M_left->_M_color = _S_black;
                    rotR(xp, root);
                    break;
                }
            }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
// ---- hash tables
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727};
    if (n <= 1) {
        _M_next_resize = n == 0 ? 0 : 1;
        return 1;
    }
    for (size_t p : pr)
        if (p >= n) {
            _M_next_resize = p;
            return p;
        }
    return 1000003;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
    if (elt + ins > _M_next_resize) {
        size_t need = elt + ins;
        if (_M_next_resize == 0 && need < 11) need = 11;
        if (need >= bkt) {
            size_t g = bkt * 2;
            return make_pair(true, _M_next_bkt(need + 1 > g ? need + 1 : g));
        }
        _M_next_resize = bkt;
        return make_pair(false, 0);
    }
    return make_pair(false, 0);
}
// ---- lists
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) {
            std::swap(x._M_next, y._M_next);
            std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
        } else {
            y._M_next = x._M_next;
            y._M_prev = x._M_prev;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
        }
    } else if (y._M_next != &y) {
        x._M_next = y._M_next;
        x._M_prev = y._M_prev;
        x._M_next->_M_prev = x._M_prev->_M_next = &x;
        y._M_next = y._M_prev = &y;
    }
}
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
    if (this != last) {
        last->_M_prev->_M_next = this;
        first->_M_prev->_M_next = last;
        this->_M_prev->_M_next = first;
        _List_node_base *const tmp = this->_M_prev;
        this->_M_prev = last->_M_prev;
        last->_M_prev = first->_M_prev;
        first->_M_prev = tmp;
    }
}
void _List_node_base::_M_hook(_List_node_base *const p) noexcept {
    this->_M_next = p;
    this->_M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    _List_node_base *const n = this->_M_next;
    _List_node_base *const p = this->_M_prev;
    p->_M_next = n;
    n->_M_prev = p;
}
} // namespace __detail
bool _Sp_make_shared_tag::_S_eq(const type_info &) noexcept { return false; }
} // namespace std
template class std::basic_string<char>;

// ---------------------------------------------------------------------------------------------
// string streams: the real buffer code of libstdc++, with formatting done by snprintf
#include <iomanip>
#include <sstream>
template class std::basic_streambuf<char>;
template class std::basic_stringbuf<char>;
template class std::basic_ostringstream<char>;
template class std::basic_istringstream<char>;
template class std::basic_stringstream<char>;
namespace std {
locale::locale() noexcept : _M_impl(0) {}
locale::locale(const locale &) noexcept : _M_impl(0) {}
locale::~locale() noexcept {}
const locale &locale::operator=(const locale &) noexcept { return *this; }
ios_base::ios_base() throw()
    : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(0), _M_word_zero(),
      _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
} // namespace std
#include <cstdio>
extern "C" {
void pisym_ios_init(std::ios &s, std::streambuf *b) {
    s._M_precision = 6;
    s._M_width = 0;
    s._M_flags = std::ios_base::skipws | std::ios_base::dec;
    s._M_fill = ' ';
    s._M_fill_init = true;
    s._M_tie = 0;
    s._M_exception = std::ios_base::goodbit;
    s._M_streambuf = b;
    s._M_streambuf_state = b ? std::ios_base::goodbit : std::ios_base::badbit;
    s._M_ctype = 0;
    s._M_num_put = 0;
    s._M_num_get = 0;
}
void pisym_ios_clear(std::ios &s, int st) { s._M_streambuf_state = (std::ios_base::iostate)st; }
std::ostream &pisym_os_n(std::ostream &o, const char *s, long n) {
    long pad = o.width() - n;
    bool left = (o.flags() & std::ios_base::adjustfield) == std::ios_base::left;
    o.width(0);
    if (!left)
        for (; pad > 0; pad--) o.rdbuf()->sputc(o._M_fill);
    o.rdbuf()->sputn(s, n);
    for (; left && pad > 0; pad--) o.rdbuf()->sputc(o._M_fill);
    return o;
}
std::ostream &pisym_os_s(std::ostream &o, const char *s) {
    if (!s) {
        pisym_ios_clear(o, std::ios_base::badbit);
        return o;
    }
    return pisym_os_n(o, s, strlen(s));
}
std::ostream &pisym_os_str(std::ostream &o, const std::string &s) { return pisym_os_n(o, s.data(), s.size()); }
std::ostream &pisym_os_c(std::ostream &o, char c) { return pisym_os_n(o, &c, 1); }
std::ostream &pisym_os_put(std::ostream &o, char c) {
    o.rdbuf()->sputc(c);
    return o;
}
std::ostream &pisym_os_l(std::ostream &o, long v) {
    char b[40];
    return pisym_os_n(o, b, snprintf(b, sizeof b, "%ld", v));
}
std::ostream &pisym_os_i(std::ostream &o, int v) { return pisym_os_l(o, v); }
std::ostream &pisym_os_u(std::ostream &o, unsigned long v) {
    char b[40];
    return pisym_os_n(o, b, snprintf(b, sizeof b, "%lu", v));
}
std::ostream &pisym_os_ui(std::ostream &o, unsigned v) { return pisym_os_u(o, v); }
std::ostream &pisym_os_b(std::ostream &o, bool v) {
    if (o.flags() & std::ios_base::boolalpha) return pisym_os_s(o, v ? "true" : "false");
    return pisym_os_u(o, v);
}
std::ostream &pisym_os_d(std::ostream &o, double v) {
    char b[400];
    auto f = o.flags() & std::ios_base::floatfield;
    int p = (int)o.precision();
    int n = f == std::ios_base::fixed ? snprintf(b, sizeof b, "%.*f", p, v)
        : f == std::ios_base::scientific ? snprintf(b, sizeof b, "%.*e", p, v)
                                         : snprintf(b, sizeof b, "%.*g", p, v);
    return pisym_os_n(o, b, n);
}
std::ostream &pisym_os_f(std::ostream &o, float v) { return pisym_os_d(o, v); }
std::ostream &pisym_os_man(std::ostream &o, std::ostream &(*f)(std::ostream &)) {
    if (f == (std::ostream & (*)(std::ostream &)) std::endl<char, std::char_traits<char>>) return pisym_os_put(o, '\n');
    return o; // flush
}
std::ostream &pisym_os_endl(std::ostream &o) { return pisym_os_put(o, '\n'); }
std::ostream &pisym_os_iosman(std::ostream &o, std::ios_base &(*f)(std::ios_base &)) {
    f(o);
    return o;
}
}
extern "C" std::ostream &pisym_os_buf(std::ostream &o, std::streambuf *b) {
    long n = 0;
    if (b)
        for (int c = b->sgetc(); c != -1; c = b->snextc(), n++) o.rdbuf()->sputc((char)c);
    if (!b) pisym_ios_clear(o, o._M_streambuf_state | std::ios_base::badbit);
    else if (!n) pisym_ios_clear(o, o._M_streambuf_state | std::ios_base::failbit);
    return o;
}
// typeinfo objects of the fundamental types (they live in libstdc++/libsupc++)
#define PISYM_TI(c) \
    extern "C" { extern const char *_ZTI##c[2]; const char *_ZTI##c[2] = {nullptr, #c}; }
PISYM_TI(a) PISYM_TI(s) PISYM_TI(i) PISYM_TI(l) PISYM_TI(x) PISYM_TI(h) PISYM_TI(t) PISYM_TI(j) PISYM_TI(m) PISYM_TI(y) PISYM_TI(f) PISYM_TI(d) PISYM_TI(c) PISYM_TI(b) PISYM_TI(v)
// the words of a vector<bool> start zeroed: its bits are read and written by masking whole words
extern "C" void *pisym_bvec_alloc(void *, unsigned long n) {
    unsigned long w = (n + 63) / 64;
    unsigned long *p = (unsigned long *)::operator new(8 * w);
    for (unsigned long i = 0; i < w; i++) p[i] = 0;
    return p;
}
// fmt::vformat: the text itself does not matter, the format string stands for it
extern "C" void pisym_vformat(std::string *ret, const char *p, size_t n) { new (ret) std::string(p, n); }
extern "C" double cabs(double _Complex z) { return __builtin_hypot(__real__ z, __imag__ z); }
// complex products with NaN parts (C99 Annex G's recovery of infinities is not modelled)
extern "C" double _Complex __muldc3(double a, double b, double c, double d) {
    double _Complex r;
    __real__ r = a * c - b * d;
    __imag__ r = a * d + b * c;
    return r;
}
extern "C" double _Complex clog(double _Complex z) {
    double r = __builtin_log(__builtin_hypot(__real__ z, __imag__ z)), i = __builtin_atan2(__imag__ z, __real__ z);
    double _Complex c;
    __real__ c = r, __imag__ c = i;
    return c;
}
extern "C" double _Complex cexp(double _Complex z) {
    double e = __builtin_exp(__real__ z);
    double _Complex c;
    __real__ c = e * __builtin_cos(__imag__ z), __imag__ c = e * __builtin_sin(__imag__ z);
    return c;
}
