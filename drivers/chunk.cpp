// One entry per operation of ChunkContainer.  SCALAR: element type, CH: elements per chunk
#include <XAD/ChunkContainer.hpp>
#include <list>
#include <new>
#include <utility>
extern "C" void hook_make(void* p);
extern "C" void hook_del(void* p);
struct Elem
{
    double v;
    Elem(double x = 0.0) : v(x) { hook_make(this); }
    Elem(const Elem& o) : v(o.v) { hook_make(this); }
    Elem& operator=(const Elem& o) { v = o.v; return *this; }
    ~Elem() { hook_del(this); }
};
typedef SCALAR E;
typedef xad::ChunkContainer<E, CH> C;
typedef C::size_type Z;

extern "C" {
Z e_size() { return sizeof(C); }
Z e_esize() { return sizeof(E); }
void e_ctor(C* c) { new (c) C(); }
void e_dtor(C* c) { c->~C(); }
void e_mctor(C* c, C* o) { new (c) C(std::move(*o)); }
void e_massign(C* c, C* o) { *c = std::move(*o); }
void e_push(C* c, const double* v) { E e(*v); c->push_back(e); }
void e_emplace(C* c, const double* v) { c->emplace_back(*v); }
void e_append(C* c, const E* b, const E* e) { c->append(b, e); }
void e_appendlist(C* c, const E* b, const E* e) { std::list<E> l(b, e); c->append(l.begin(), l.end()); }
void e_resize(C* c, Z n, const double* v) { E e(*v); c->resize(n, e); }
void e_resize0(C* c, Z n) { c->resize(n); }
void e_assign(C* c, Z n, const double* v) { E e(*v); c->assign(n, e); }
void e_assign0(C* c, Z n) { c->assign(n); }
void e_clear(C* c) { c->clear(); }
void e_reserve(C* c, Z n) { c->reserve(n); }
void e_extend(C* c, Z n) { c->uninitialized_extend(n); }
Z e_count(const C* c) { return c->size(); }
bool e_empty(const C* c) { return c->empty(); }
Z e_capacity(const C* c) { return c->capacity(); }
E* e_at(C* c, Z i) { return &(*c)[i]; }
const E* e_cat(const C* c, Z i) { return &(*c)[i]; }
Z e_chunks(C* c) { return Z(c->chunk_end() - c->chunk_begin()); }
E* e_chunk(C* c, Z i) { return c->chunk_begin()[i]; }
E* e_rchunk(C* c, Z i) { return c->chunk_rbegin()[long(i)]; }
Z e_iterate(C* c, Z from, Z to, E** out)
{
    Z n = 0;
    C::iterator e = c->iterator_at(to);
    for (C::iterator it = c->iterator_at(from); it != e && n < 64; ++it) out[n++] = &*it;
    return n;
}
Z e_iteratepost(C* c, Z from, Z n, E** out)
{
    C::iterator it = c->iterator_at(from);
    for (Z i = 0; i < n; ++i) out[i] = (it++).operator->();
    return it == c->iterator_at(from + n);
}
Z e_numchunks(Z i) { return C::getNumChunks(i); }
Z e_high(Z i) { return C::getHighPart(i); }
Z e_low(Z i) { return C::getLowPart(i); }
Z e_num(Z i) { return C::getNumElements(i); }
void e_make(E* p, const double* v) { ::new (p) E(*v); }
void e_destroy(E* p) { p->~E(); }
}
