// One entry per operation of the public tape interface.  SC: scalar, CH: chunk size (0: the default).
#include <XAD/TapeContainer.hpp>
namespace xad
{
template <class> struct FReal;
template <class> struct AReal;
}
#if CH > 0
namespace xad
{
template <> struct TapeContainerTraits<SCALAR> { typedef ChunkContainer<SCALAR, CH> type; };
template <> struct TapeContainerTraits<unsigned int> { typedef ChunkContainer<unsigned int, CH> type; };
template <> struct TapeContainerTraits<std::pair<unsigned int, unsigned int> > { typedef ChunkContainer<std::pair<unsigned int, unsigned int>, CH> type; };
}
#endif
#include <XAD/XAD.hpp>
#include "Tape.cpp"
#include <new>
typedef xad::Tape<SCALAR> Tp;
typedef Tp::slot_type slot;
typedef SCALAR S;

extern "C" void hook_cb(int id, Tp* t);
extern "C" void hook_cbdel(int id);
struct Cb : xad::CheckpointCallback<Tp>
{
    int id;
    explicit Cb(int i) : id(i) {}
    void computeAdjoint(Tp* t) override { hook_cb(id, t); }
    ~Cb() override { hook_cbdel(id); }
};

extern "C" {
unsigned long e_size() { return sizeof(Tp); }
unsigned long e_ssize() { return sizeof(S); }
void e_ctor(Tp* t, bool a) { new (t) Tp(a); }
void e_dtor(Tp* t) { t->~Tp(); }
void e_mctor(Tp* t, Tp* o) { new (t) Tp(std::move(*o)); }
void e_massign(Tp* t, Tp* o) { *t = std::move(*o); }
void e_activate(Tp* t) { t->activate(); }
void e_deactivate(Tp* t) { t->deactivate(); }
bool e_isactive(Tp* t) { return t->isActive(); }
Tp* e_getactive() { return Tp::getActive(); }
void e_setactive(Tp* t) { Tp::setActive(t); }
void e_deactivateall() { Tp::deactivateAll(); }
slot e_reg(Tp* t) { return t->registerVariable(); }
void e_unreg(Tp* t, slot s) { t->unregisterVariable(s); }
void e_rhs(Tp* t, const S* m, slot s) { t->pushRhs(*m, s); }
void e_rhsmove(Tp* t, S* m, slot s) { t->pushRhs(std::move(*m), s); }
void e_lhs(Tp* t, slot s) { t->pushLhs(s); }
void e_pushall(Tp* t, slot l, S* m, slot* s, unsigned n) { t->pushAll(l, m, s, n); }
void e_newrec(Tp* t) { t->newRecording(); }
void e_compute(Tp* t) { t->computeAdjoints(); }
void e_computeto(Tp* t, slot p) { t->computeAdjointsTo(p); }
void e_clearall(Tp* t) { t->clearAll(); }
void e_clearder(Tp* t) { t->clearDerivatives(); }
void e_clearafter(Tp* t, slot p) { t->clearDerivativesAfter(p); }
void e_resetto(Tp* t, slot p) { t->resetTo(p); }
slot e_getpos(Tp* t) { return t->getPosition(); }
void e_der(Tp* t, slot s, S* out) { *out = t->derivative(s); }
void e_cder(const Tp* t, slot s, S* out) { *out = t->derivative(s); }
void e_getder(const Tp* t, slot s, S* out) { *out = t->getDerivative(s); }
void e_setder(Tp* t, slot s, const S* v) { t->setDerivative(s, *v); }
void e_setdermove(Tp* t, slot s, S* v) { t->setDerivative(s, std::move(*v)); }
void e_derset(Tp* t, slot s, const S* v) { t->derivative(s) = *v; }
void e_incr(Tp* t, slot s, const S* v) { t->incrementAdjoint(s, *v); }
void e_getreset(Tp* t, slot s, S* out) { *out = t->getAndResetOutputAdjoint(s); }
unsigned e_nvars(const Tp* t) { return t->getNumVariables(); }
unsigned e_nops(const Tp* t) { return t->getNumOperations(); }
unsigned e_nstmts(const Tp* t) { return t->getNumStatements(); }
unsigned long e_memory(const Tp* t) { return t->getMemory(); }
unsigned e_nreuse(const Tp* t) { return t->getNumReusableSlots(); }
unsigned e_nsect(const Tp* t) { return t->getNumReusableSlotSections(); }
void* e_cbnew(int id) { return static_cast<Tp::callback_type>(new Cb(id)); }
void e_cbdelete(Tp::callback_type c) { delete c; }
void e_insertcb(Tp* t, Tp::callback_type c) { t->insertCallback(c); }
void e_pushcb(Tp* t, Tp::callback_type c) { t->pushCallback(c); }
void* e_lastcb(Tp* t) { return t->getLastCallback(); }
unsigned e_ncb(Tp* t) { return t->getNumCallbacks(); }
bool e_havecb(Tp* t) { return t->haveCallbacks(); }
void e_popcb(Tp* t) { t->popCallback(); }
void e_newnested(Tp* t) { t->newNestedRecording(); }
void e_endnested(Tp* t) { t->endNestedRecording(); }
void e_scopednew(void* p, Tp* t) { new (p) xad::ScopedNestedRecording<Tp>(t); }
void e_scopeddel(xad::ScopedNestedRecording<Tp>* p) { p->~ScopedNestedRecording(); }
void e_scopedcompute(xad::ScopedNestedRecording<Tp>* p) { p->computeAdjoints(); }
void e_scopedincr(xad::ScopedNestedRecording<Tp>* p, slot s, const S* v) { p->incrementAdjoint(s, *v); }
Tp* e_scopedtape(xad::ScopedNestedRecording<Tp>* p) { return p->getTape(); }

// active variables
typedef xad::AReal<SCALAR> A;
unsigned long e_asize() { return sizeof(A); }
typedef xad::ExprTraits<A>::nested_type N;
void e_actor(A* p, const S* v) { new (p) A(); xad::value(*p) = *v; }
void e_actorn(A* p, const N* v) { new (p) A(*v); }
void e_adtor(A* p) { p->~A(); }
void e_acopy(A* p, const A* o) { new (p) A(*o); }
void e_amove(A* p, A* o) { new (p) A(std::move(*o)); }
void e_aassign(A* p, const A* o) { *p = *o; }
void e_amassign(A* p, A* o) { *p = std::move(*o); }
void e_asetval(A* p, const N* v) { *p = *v; }
void e_amul(A* p, const A* x, const A* y) { *p = *x * *y; }
void e_amulnew(A* p, const A* x, const A* y) { new (p) A(*x * *y); }
void e_aaddscale(A* p, const A* x, const N* c) { *p += *x * *c; }
void e_amadd(A* p, const A* x, const A* y, const A* z) { *p = *x * *y + *z * *x; }
void e_aswap(A* x, A* y) { using std::swap; swap(*x, *y); }
bool e_arec(const A* p) { return p->shouldRecord(); }
slot e_aslot(const A* p) { return p->getSlot(); }
void e_aval(const A* p, S* out) { *out = p->getValue(); }
void e_ader(const A* p, S* out) { *out = p->getDerivative(); }
void e_asetder(A* p, const S* v) { p->setDerivative(*v); }
void e_areg(Tp* t, A* p) { t->registerInput(*p); }
void e_aregout(Tp* t, A* p) { t->registerOutput(*p); }
void e_aregins(Tp* t, A* b, A* e) { t->registerInputs(b, e); }
void e_aregouts(Tp* t, A* b, A* e) { t->registerOutputs(b, e); }
}
