// Bitcode models of the parts of libstdc++ and libc that live in shared libraries.
// Templates (string, streams, num_put, ...) are the real header code, explicitly instantiated here;
// only non-template library functions are written by hand.  Compiled with -fno-access-control.
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <ios>
#include <istream>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <new>
#include <ostream>
#include <set>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <chrono>
#include <optional>
#include <variant>

extern "C" {
void* vp_exc_current();
void vp_exc_addref(void*);
void vp_exc_release(void*);
[[noreturn]] void vp_exc_rethrow(void*);
void vp_capture(const void*, size_t);
int vp_errno;
char __libc_single_threaded = 1;
}

// ------------------------------------------------------------------ exceptions
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

static const char* dupmsg(const char* s, size_t n){
	char* p = static_cast<char*>(malloc(n + 1));
	memcpy(p, s, n);
	p[n] = 0;
	return p;
}
__cow_string::__cow_string() : _M_p(dupmsg("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupmsg(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupmsg(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupmsg(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if(this != &o){ free(const_cast<char*>(_M_p)); _M_p = dupmsg(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string(){ free(const_cast<char*>(_M_p)); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = dupmsg("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

#define VP_EXC(C, B) \
	C::C(const string& s) : B(s) {} \
	C::C(const char* s) : B(s) {} \
	C::~C() noexcept {}
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(static_cast<__cow_string&&>(o._M_msg)) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = static_cast<__cow_string&&>(o._M_msg); return *this; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(static_cast<__cow_string&&>(o._M_msg)) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = static_cast<__cow_string&&>(o._M_msg); return *this; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
VP_EXC(domain_error, logic_error)
VP_EXC(invalid_argument, logic_error)
VP_EXC(length_error, logic_error)
VP_EXC(out_of_range, logic_error)
VP_EXC(range_error, runtime_error)
VP_EXC(overflow_error, runtime_error)
VP_EXC(underflow_error, runtime_error)

nested_exception::~nested_exception() noexcept {}
namespace __exception_ptr {
exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) { if(p) _M_addref(); }
void exception_ptr::_M_addref() noexcept { if(_M_exception_object) vp_exc_addref(_M_exception_object); }
void exception_ptr::_M_release() noexcept { if(_M_exception_object){ void* p = _M_exception_object; _M_exception_object = nullptr; vp_exc_release(p); } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
}
exception_ptr current_exception() noexcept {
	exception_ptr r;
	r._M_exception_object = vp_exc_current();
	return r;
}
void rethrow_exception(exception_ptr p){
	void* o = p._M_exception_object;
	vp_exc_rethrow(o); // takes its own reference; p is destroyed while unwinding
}

void __throw_bad_exception(){ throw bad_exception(); }
void __throw_bad_alloc(){ throw bad_alloc(); }
void __throw_bad_array_new_length(){ throw bad_array_new_length(); }
void __throw_bad_cast(){ throw bad_cast(); }
void __throw_bad_typeid(){ throw bad_typeid(); }
void __throw_logic_error(const char* s){ throw logic_error(s); }
void __throw_domain_error(const char* s){ throw domain_error(s); }
void __throw_invalid_argument(const char* s){ throw invalid_argument(s); }
void __throw_length_error(const char* s){ throw length_error(s); }
void __throw_out_of_range(const char* s){ throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...){ throw out_of_range(s); }
void __throw_runtime_error(const char* s){ throw runtime_error(s); }
void __throw_range_error(const char* s){ throw range_error(s); }
void __throw_overflow_error(const char* s){ throw overflow_error(s); }
void __throw_underflow_error(const char* s){ throw underflow_error(s); }
void __throw_bad_function_call(){ throw bad_function_call(); }
void __throw_ios_failure(const char* s){ throw runtime_error(s); }
void __throw_ios_failure(const char* s, int){ throw runtime_error(s); }
void __throw_system_error(int){ throw runtime_error("system_error"); }
}
extern "C" void vp_throw_bad_alloc(){ throw std::bad_alloc(); }
extern "C" void __cxa_throw_bad_array_new_length(){ throw std::bad_array_new_length(); }
extern "C" void __cxa_bad_cast(){ throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid(){ throw std::bad_typeid(); }

// ------------------------------------------------------------------ red-black tree (ordering only, no balancing)
namespace std {
typedef _Rb_tree_node_base NB;
static NB* rbMin(NB* x){ while(x->_M_left) x = x->_M_left; return x; }
static NB* rbMax(NB* x){ while(x->_M_right) x = x->_M_right; return x; }
NB* _Rb_tree_increment(NB* x) throw() {
	if(x->_M_right) return rbMin(x->_M_right);
	NB* y = x->_M_parent;
	while(x == y->_M_right){ x = y; y = y->_M_parent; }
	if(x->_M_right != y) x = y;
	return x;
}
const NB* _Rb_tree_increment(const NB* x) throw() { return _Rb_tree_increment(const_cast<NB*>(x)); }
NB* _Rb_tree_decrement(NB* x) throw() {
	if(x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // header
	if(x->_M_left) return rbMax(x->_M_left);
	NB* y = x->_M_parent;
	while(x == y->_M_left){ x = y; y = y->_M_parent; }
	return y;
}
const NB* _Rb_tree_decrement(const NB* x) throw() { return _Rb_tree_decrement(const_cast<NB*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, NB* x, NB* p, NB& h) throw() {
	x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black; // the header stays the only red node
	if(left){
		p->_M_left = x;
		if(p == &h){ h._M_parent = x; h._M_right = x; }
		else if(p == h._M_left) h._M_left = x;
	} else {
		p->_M_right = x;
		if(p == h._M_right) h._M_right = x;
	}
}
NB* _Rb_tree_rebalance_for_erase(NB* const z, NB& h) throw() {
	NB* repl;
	if(!z->_M_left) repl = z->_M_right;
	else if(!z->_M_right) repl = z->_M_left;
	else {
		NB* y = rbMin(z->_M_right);
		if(y->_M_parent != z){
			y->_M_parent->_M_left = y->_M_right;
			if(y->_M_right) y->_M_right->_M_parent = y->_M_parent;
			y->_M_right = z->_M_right;
			y->_M_right->_M_parent = y;
		}
		y->_M_left = z->_M_left;
		y->_M_left->_M_parent = y;
		repl = y;
	}
	if(repl) repl->_M_parent = z->_M_parent;
	if(h._M_parent == z) h._M_parent = repl;
	else if(z->_M_parent->_M_left == z) z->_M_parent->_M_left = repl;
	else z->_M_parent->_M_right = repl;
	NB* root = h._M_parent;
	if(root){ h._M_left = rbMin(root); h._M_right = rbMax(root); }
	else { h._M_left = &h; h._M_right = &h; }
	return z;
}
unsigned int _Rb_tree_black_count(const NB*, const NB*) throw() { return 0; }

// ------------------------------------------------------------------ list
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
	if(this != last){
		last->_M_prev->_M_next = this;
		first->_M_prev->_M_next = last;
		this->_M_prev->_M_next = first;
		_List_node_base* const tmp = this->_M_prev;
		this->_M_prev = last->_M_prev;
		last->_M_prev = first->_M_prev;
		first->_M_prev = tmp;
	}
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while(t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
	if(x._M_next != &x){
		if(y._M_next != &y){ _List_node_base* t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
		else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
	} else if(y._M_next != &y){ x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
// ------------------------------------------------------------------ hash table policy
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { std::size_t b = n < 13 ? 13 : n < 61 ? 61 : n < 257 ? 257 : 1031; _M_next_resize = b; return b; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t bkt, std::size_t elt, std::size_t ins) const {
	if(elt + ins > bkt || bkt == 1) return {true, _M_next_bkt(elt + ins + 1)};
	return {false, 0};
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed){
	const unsigned char* c = static_cast<const unsigned char*>(p);
	size_t h = seed;
	for(size_t i = 0; i < n; ++i) h = h * 31 + c[i];
	return h;
}
}

// ------------------------------------------------------------------ locale
namespace std {
alignas(16) static char implMem[sizeof(locale::_Impl)];
static const locale::facet* facetTab[64];
static const locale::facet* cacheTab[64];
static size_t nextId = 1;
locale::facet::~facet() {}
size_t locale::id::_M_id() const throw() { if(!_M_index) _M_index = nextId++; return _M_index - 1; }
locale::locale() throw() : _M_impl(reinterpret_cast<_Impl*>(implMem)) {}
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
const locale& locale::classic(){ static locale l; return l; }
bool locale::operator==(const locale& o) const throw() { return _M_impl == o._M_impl; }
locale locale::global(const locale&){ return locale(); }
__c_locale locale::facet::_S_get_c_locale(){ return nullptr; }

static const ctype_base::mask* vpCtypeTable(){
	static ctype_base::mask t[256];
	for(int c = 0; c < 128; ++c){
		unsigned m = 0;
		if(c == ' ' || (c >= 9 && c <= 13)) m |= ctype_base::space;
		if(c >= 'A' && c <= 'Z') m |= ctype_base::upper | ctype_base::alpha;
		if(c >= 'a' && c <= 'z') m |= ctype_base::lower | ctype_base::alpha;
		if(c >= '0' && c <= '9') m |= ctype_base::digit;
		if((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= ctype_base::xdigit;
		if(c < 32 || c == 127) m |= ctype_base::cntrl;
		if(c >= 32 && c < 127) m |= ctype_base::print;
		if(c == ' ' || c == 9) m |= ctype_base::blank;
		if(c > 32 && c < 127 && !(m & (ctype_base::alpha | ctype_base::digit))) m |= ctype_base::punct;
		t[c] = ctype_base::mask(m);
	}
	return t;
}
locale::id ctype<char>::id;
ctype<char>::ctype(const mask*, bool, size_t r) : facet(r), _M_table(vpCtypeTable()) { _M_widen_ok = 0; _M_narrow_ok = 0; memset(_M_widen, 0, sizeof _M_widen); memset(_M_narrow, 0, sizeof _M_narrow); }
ctype<char>::~ctype(){}
char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; }
const char* ctype<char>::do_toupper(char* l, const char* h) const { for(; l < h; ++l) *l = do_toupper(*l); return h; }
char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
const char* ctype<char>::do_tolower(char* l, const char* h) const { for(; l < h; ++l) *l = do_tolower(*l); return h; }
void ctype<char>::_M_widen_init() const { for(int i = 0; i < 256; ++i) _M_widen[i] = char(i); _M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { for(int i = 0; i < 256; ++i) _M_narrow[i] = char(i); _M_narrow_ok = 1; }

template class numpunct<char>;
template class num_put<char, ostreambuf_iterator<char>>;
template struct __numpunct_cache<char>;
template <> void numpunct<char>::_M_initialize_numpunct(__c_locale){}
template <> numpunct<char>::~numpunct(){}

ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word) {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
locale ios_base::imbue(const locale& l) throw() { return l; }
void __ostream_dummy(){}
ios_base::Init::Init(){}
ios_base::Init::~Init(){}
}
namespace std { void ios_base_library_init(){} }

// ------------------------------------------------------------------ explicit instantiations of real templates
namespace std {
template class basic_string<char>;
template class basic_string<wchar_t>;
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_stringstream<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template ostream& endl(ostream&);
template ostream& ends(ostream&);
template ostream& flush(ostream&);
template ostream& operator<<(ostream&, char);
template ostream& operator<<(ostream&, unsigned char);
template ostream& operator<<(ostream&, signed char);
template ostream& operator<<(ostream&, const char*);
template ostream& operator<<(ostream&, const string&);
template ostream& __ostream_insert(ostream&, const char*, streamsize);
#define INS(T) template ostream& ostream::_M_insert(T);
INS(long) INS(unsigned long) INS(bool) INS(long long) INS(unsigned long long) INS(double) INS(long double) INS(const void*)
#undef INS
template const ctype<char>& use_facet<ctype<char>>(const locale&);
template const num_put<char>& use_facet<num_put<char>>(const locale&);
template bool has_facet<ctype<char>>(const locale&);
template bool has_facet<num_put<char>>(const locale&);
template bool has_facet<num_get<char>>(const locale&);
}
namespace std {
// convert_from_v is used for floating point output
}

// ------------------------------------------------------------------ terminals
#undef stdin
#undef stdout
#undef stderr
namespace { char vp_files[3]; bool vp_terminals[3]; }
extern "C" {
FILE* stdin = reinterpret_cast<FILE*>(&vp_files[0]);
FILE* stdout = reinterpret_cast<FILE*>(&vp_files[1]);
FILE* stderr = reinterpret_cast<FILE*>(&vp_files[2]);
int fileno(FILE* f) noexcept { return f == stdin ? 0 : f == stdout ? 1 : f == stderr ? 2 : -1; }
int isatty(int fd) noexcept { return fd >= 0 && fd < 3 ? vp_terminals[fd] : 0; }
void vp_set_terminal(int fd, bool on){ vp_terminals[fd] = on; }
}
// ------------------------------------------------------------------ standard streams: everything written is captured
namespace {
struct capture_buf : std::streambuf {
	int_type overflow(int_type c) override { if(c != traits_type::eof()){ char x = char(c); vp_capture(&x, 1); } return traits_type::not_eof(c); }
	std::streamsize xsputn(const char* s, std::streamsize n) override { vp_capture(s, size_t(n)); return n; }
};
struct null_buf : std::streambuf {
	int_type overflow(int_type c) override { return traits_type::not_eof(c); }
	std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
alignas(16) char bufMem[sizeof(capture_buf)];
alignas(16) char nullMem[sizeof(null_buf)];
alignas(16) char ctypeMem[sizeof(std::ctype<char>)];
alignas(16) char numputMem[sizeof(std::num_put<char>)];
alignas(16) char cacheMem[sizeof(std::__numpunct_cache<char>)];
}
alignas(16) char vp_cerr_mem[sizeof(std::ostream)] asm("_ZSt4cerr");
alignas(16) char vp_clog_mem[sizeof(std::ostream)] asm("_ZSt4clog");
alignas(16) char vp_cout_mem[sizeof(std::ostream)] asm("_ZSt4cout");

__attribute__((constructor(101))) static void vp_init_streams(){
	using namespace std;
	auto* impl = reinterpret_cast<locale::_Impl*>(implMem);
	impl->_M_facets = facetTab;
	impl->_M_facets_size = 64;
	impl->_M_caches = cacheTab;
	auto* ct = new(ctypeMem) ctype<char>(nullptr, false, 1);
	ct->_M_widen_init();
	auto* np = new(numputMem) num_put<char>(1);
	facetTab[ctype<char>::id._M_id()] = ct;
	facetTab[num_put<char>::id._M_id()] = np;
	auto* nc = new(cacheMem) __numpunct_cache<char>(1);
	nc->_M_grouping = ""; nc->_M_grouping_size = 0; nc->_M_use_grouping = false;
	nc->_M_truename = "true"; nc->_M_truename_size = 4; nc->_M_falsename = "false"; nc->_M_falsename_size = 5;
	nc->_M_decimal_point = '.'; nc->_M_thousands_sep = ',';
	const char* ao = "-+xX0123456789abcdef0123456789ABCDEF";
	memcpy(nc->_M_atoms_out, ao, __num_base::_S_oend);
	nc->_M_allocated = false;
	cacheTab[numpunct<char>::id._M_id()] = nc;
	auto* cb = new(bufMem) capture_buf;
	auto* nb = new(nullMem) null_buf;
	new(vp_cerr_mem) ostream(cb);
	new(vp_clog_mem) ostream(nb);
	new(vp_cout_mem) ostream(nb);
}
namespace std { const char* __num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF"; const char* __num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
void __num_base::_S_format_float(const ios_base& io, char* fptr, char mod) throw() {
	ios_base::fmtflags flags = io.flags();
	*fptr++ = '%';
	if(flags & ios_base::showpos) *fptr++ = '+';
	if(flags & ios_base::showpoint) *fptr++ = '#';
	ios_base::fmtflags fltfield = flags & ios_base::floatfield;
	if(fltfield != (ios_base::fixed | ios_base::scientific)){ *fptr++ = '.'; *fptr++ = '*'; }
	if(mod) *fptr++ = mod;
	if(fltfield == ios_base::fixed) *fptr++ = 'f';
	else if(fltfield == ios_base::scientific) *fptr++ = (flags & ios_base::uppercase) ? 'E' : 'e';
	else if(fltfield == (ios_base::fixed | ios_base::scientific)) *fptr++ = (flags & ios_base::uppercase) ? 'A' : 'a';
	else *fptr++ = (flags & ios_base::uppercase) ? 'G' : 'g';
	*fptr = '\0';
}
}

// ------------------------------------------------------------------ clock
extern "C" __attribute__((weak)) int64_t vp_clock_now_ns(){ return 0; }
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vp_clock_now_ns())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vp_clock_now_ns())); }
} } }

// ------------------------------------------------------------------ stdio formatting
extern "C" __attribute__((weak)) int vp_vsnprintf_result(int r){ return r; } // fault injection point
extern "C" int vp_native_double_to_text(char* b, size_t n, const char* fmt, int prec, uint64_t bits);
namespace {
struct sink { char* b; size_t cap; size_t n; void put(char c){ if(n + 1 < cap) b[n] = c; ++n; } };
void putNum(sink& s, unsigned long long v, bool neg, unsigned base, bool upper, bool left, bool zero, bool plus, bool space, bool alt, int width, int prec){
	char tmp[72]; int k = 0;
	while(v){ unsigned d = unsigned(v % base); v /= base; tmp[k++] = char(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); }
	if(k == 0 && prec != 0) tmp[k++] = '0';
	int digits = k < prec ? prec : k;
	char sg = neg ? '-' : plus ? '+' : space ? ' ' : 0;
	int pre = (sg ? 1 : 0) + (alt && base == 16 && k && !(k == 1 && tmp[0] == '0') ? 2 : 0);
	if(alt && base == 8 && digits <= k && !(k && tmp[k - 1] == '0')) ++digits;
	int pad = width - pre - digits;
	if(!left && !(zero && prec < 0)) for(; pad > 0; --pad) s.put(' ');
	if(sg) s.put(sg);
	if(pre > (sg ? 1 : 0)){ s.put('0'); s.put(upper ? 'X' : 'x'); }
	if(!left) for(; pad > 0; --pad) s.put('0');
	for(int i = digits; i > k; --i) s.put('0');
	while(k) s.put(tmp[--k]);
	for(; pad > 0; --pad) s.put(' ');
}
}
extern "C" int vsnprintf(char* buf, size_t cap, const char* f, va_list ap) noexcept {
	sink s{buf, cap, 0};
	for(; *f; ++f){
		if(*f != '%'){ s.put(*f); continue; }
		++f;
		bool left = false, zero = false, plus = false, space = false, alt = false;
		for(;; ++f){
			if(*f == '-') left = true; else if(*f == '0') zero = true; else if(*f == '+') plus = true; else if(*f == ' ') space = true; else if(*f == '#') alt = true; else break;
		}
		int width = 0, prec = -1;
		if(*f == '*'){ width = va_arg(ap, int); if(width < 0){ left = true; width = -width; } ++f; }
		else while(*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
		if(*f == '.'){
			++f; prec = 0;
			if(*f == '*'){ prec = va_arg(ap, int); ++f; }
			else while(*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0');
		}
		int l = 0; // 0 int, 1 long, 2 long long, -1 short, -2 char
		bool ld = false;
		for(;; ++f){
			if(*f == 'l') ++l; else if(*f == 'z' || *f == 'j' || *f == 't') l = 2; else if(*f == 'h') --l; else if(*f == 'L') ld = true; else break;
		}
		switch(*f){
		case '%': s.put('%'); break;
		case 'c': { char c = char(va_arg(ap, int)); if(!left) for(int i = 1; i < width; ++i) s.put(' '); s.put(c); if(left) for(int i = 1; i < width; ++i) s.put(' '); break; }
		case 's': {
			if(l == 1){ // wide text in the "C" locale
				const wchar_t* w = va_arg(ap, const wchar_t*);
				for(int i = 0; w[i] && (prec < 0 || i < prec); ++i){ if(static_cast<unsigned>(w[i]) > 0x7f) return vp_vsnprintf_result(-1); s.put(char(w[i])); }
				break;
			}
			const char* p = va_arg(ap, const char*);
			if(!p) p = "(null)";
			int n = 0;
			while((prec < 0 || n < prec) && p[n]) ++n;
			if(!left) for(int i = n; i < width; ++i) s.put(' ');
			for(int i = 0; i < n; ++i) s.put(p[i]);
			if(left) for(int i = n; i < width; ++i) s.put(' ');
			break;
		}
		case 'd': case 'i': {
			long long v = l >= 1 ? va_arg(ap, long long) : va_arg(ap, int);
			if(l == -1) v = short(v); else if(l <= -2) v = static_cast<signed char>(v);
			bool neg = v < 0;
			putNum(s, neg ? 0ull - static_cast<unsigned long long>(v) : static_cast<unsigned long long>(v), neg, 10, false, left, zero, plus, space, false, width, prec);
			break;
		}
		case 'u': case 'x': case 'X': case 'o': {
			unsigned long long v = l >= 1 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned);
			if(l == -1) v = static_cast<unsigned short>(v); else if(l <= -2) v = static_cast<unsigned char>(v);
			putNum(s, v, false, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X', left, zero, false, false, alt, width, prec);
			break;
		}
		case 'p': { unsigned long long v = va_arg(ap, unsigned long long); if(!v){ for(const char* q = "(nil)"; *q; ++q) s.put(*q); } else putNum(s, v, false, 16, false, left, false, false, false, true, width, -1); break; }
		case 'f': case 'e': case 'g': case 'E': case 'G': case 'a': case 'A': case 'F': {
			double d = ld ? double(va_arg(ap, long double)) : va_arg(ap, double);
			uint64_t bits; memcpy(&bits, &d, 8);
			char t[400];
			char fmt[12]; int q = 0;
			fmt[q++] = '%'; if(left) fmt[q++] = '-'; if(plus) fmt[q++] = '+'; if(space) fmt[q++] = ' '; if(alt) fmt[q++] = '#'; if(zero) fmt[q++] = '0';
			fmt[q++] = '.'; fmt[q++] = '*'; fmt[q++] = *f; fmt[q] = 0;
			int n = vp_native_double_to_text(t, sizeof t, fmt, prec < 0 ? 6 : prec, bits);
			if(!left) for(int i = n; i < width; ++i) s.put(zero ? '0' : ' ');
			for(int i = 0; i < n; ++i) s.put(t[i]);
			if(left) for(int i = n; i < width; ++i) s.put(' ');
			break;
		}
		default: return vp_vsnprintf_result(-1);
		}
	}
	if(cap) buf[s.n < cap ? s.n : cap - 1] = 0;
	return vp_vsnprintf_result(int(s.n));
}
extern "C" int snprintf(char* buf, size_t cap, const char* f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(buf, cap, f, ap); va_end(ap); return r; }
extern "C" int sprintf(char* buf, const char* f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(buf, size_t(1) << 20, f, ap); va_end(ap); return r; }
extern "C" int vsprintf(char* buf, const char* f, va_list ap) noexcept { return vsnprintf(buf, size_t(1) << 20, f, ap); }
extern "C" char* uselocale_stub(){ return nullptr; }
extern "C" locale_t uselocale(locale_t) noexcept { return nullptr; }
