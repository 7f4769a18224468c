// Jacobians and Hessians.  SC: scalar
#include <XAD/TapeContainer.hpp>
namespace xad
{
template <class> struct FReal;
template <class> struct AReal;
}
#if CH > 0
namespace xad
{
template <> struct TapeContainerTraits<SCALAR> { typedef ChunkContainer<SCALAR, CH> type; };
template <> struct TapeContainerTraits<FReal<SCALAR> > { typedef ChunkContainer<FReal<SCALAR>, CH> type; };
template <> struct TapeContainerTraits<unsigned int> { typedef ChunkContainer<unsigned int, CH> type; };
template <> struct TapeContainerTraits<std::pair<unsigned int, unsigned int> > { typedef ChunkContainer<std::pair<unsigned int, unsigned int>, CH> type; };
}
#endif
#include <XAD/XAD.hpp>
#include <XAD/Hessian.hpp>
#include <XAD/Jacobian.hpp>
#include "Tape.cpp"
#include <new>
typedef SCALAR S;
typedef xad::AReal<S> A;
typedef xad::FReal<S> F;
typedef xad::AReal<F> AF;
typedef xad::FReal<F> FF;

template <class T> T term(std::vector<T>& v, unsigned sel)
{
    unsigned n = unsigned(v.size());
    T c = S(3);
    if (n == 0)
        return c;
    switch (sel % 7)
    {
        case 0: { T r = v[0]; for (unsigned i = 1; i < n; ++i) r *= v[i]; return r; }   // product of all
        case 1: return v[(sel / 7) % n];                                                // an input itself
        case 2: return c;                                                               // a constant
        case 3: { T u = v[0] * v[n - 1]; return u * v[0] + u; }
        case 4: { T u = v[n - 1]; u += v[n - 1]; return u; }
        case 5: { T u = v[0] * v[0] * v[0]; T w = u; u = w * v[n / 2]; return u - w; }
        default: { T u = S(0); for (unsigned i = 0; i < n; ++i) u += v[i] * v[i] * S(i + 1); return u; }
    }
}

template <class T> struct Vec
{
    unsigned m, sel;
    std::vector<T> operator()(std::vector<T>& v) const
    {
        std::vector<T> y;
        for (unsigned j = 0; j < m; ++j) y.push_back(term(v, sel + j * (sel % 3 ? 1 : 2)));
        return y;
    }
};
template <class T> struct Sca
{
    unsigned sel;
    T operator()(std::vector<T>& v) const { return term(v, sel); }
};

typedef std::vector<std::vector<S> > Mat;
long put(const Mat& a, S* out)
{
    unsigned k = 0;
    for (auto& r : a)
        for (auto& x : r) out[k++] = x;
    return long(a.size()) * 100 + (a.empty() ? 0 : long(a[0].size()));
}

template <class T> std::vector<T> inputs(unsigned n, const S* x)
{
    std::vector<T> v;
    for (unsigned i = 0; i < n; ++i) v.push_back(T(x[i]));
    return v;
}

// how: 0 returns the matrix, 1 writes to a matrix of rows x cols
template <class T> long jac(std::vector<T>& v, unsigned m, unsigned sel, S* out, int how, unsigned rows, unsigned cols)
{
    std::function<std::vector<T>(std::vector<T>&)> f = Vec<T>{m, sel};
    if (how == 0)
        return put(xad::computeJacobian(v, f), out);
    Mat a(rows, std::vector<S>(cols, S(-7)));
    xad::computeJacobian(v, f, a.begin(), a.end());
    return put(a, out);
}
template <class T> long hes(std::vector<T>& v, unsigned sel, S* out, int how, unsigned rows, unsigned cols)
{
    std::function<T(std::vector<T>&)> f = Sca<T>{sel};
    if (how == 0)
        return put(xad::computeHessian(v, f), out);
    Mat a(rows, std::vector<S>(cols, S(-7)));
    xad::computeHessian(v, f, a.begin(), a.end());
    return put(a, out);
}

// tape: 0 none, 1 an active one, 2 an active one the inputs are registered on and computed with before,
// checked to be usable afterwards
template <class Tp, class T, class Fn> long with(std::vector<T>& v, int tape, S* more, Fn f)
{
    if (tape == 0)
    {
        long r = f(v);
        return Tp::getActive() ? -2 : r;
    }
    Tp t;
    if (tape == 2)
    {
        t.registerInputs(v);
        t.newRecording();
        for (unsigned i = 0; i + 1 < v.size(); ++i) v[i] = v[i] * S(1);
    }
    unsigned n = t.getNumVariables();
    long r = f(v);
    if (t.getNumVariables() != n || !t.isActive())
        return -3;
    T a = S(2);
    t.registerInput(a);
    t.newRecording();
    T y = a * a * a;
    t.registerOutput(y);
    xad::derivative(y) = 1.0;
    t.computeAdjoints();
    *more = xad::value(xad::derivative(a));
    return r;
}

extern "C" {
long e_jaca(unsigned n, unsigned m, unsigned sel, const S* x, S* out, int how, unsigned rows, unsigned cols, int tape, S* more)
{
    std::vector<A> v = inputs<A>(n, x);
    return with<xad::Tape<S> >(v, tape, more, [&](std::vector<A>& v) { return jac(v, m, sel, out, how, rows, cols); });
}
long e_jacf(unsigned n, unsigned m, unsigned sel, const S* x, S* out, int how, unsigned rows, unsigned cols, int, S*)
{
    std::vector<F> v = inputs<F>(n, x);
    return jac(v, m, sel, out, how, rows, cols);
}
long e_hesa(unsigned n, unsigned, unsigned sel, const S* x, S* out, int how, unsigned rows, unsigned cols, int tape, S* more)
{
    std::vector<AF> v = inputs<AF>(n, x);
    return with<xad::Tape<F> >(v, tape, more, [&](std::vector<AF>& v) { return hes(v, sel, out, how, rows, cols); });
}
long e_hesf(unsigned n, unsigned, unsigned sel, const S* x, S* out, int how, unsigned rows, unsigned cols, int, S*)
{
    std::vector<FF> v = inputs<FF>(n, x);
    return hes(v, sel, out, how, rows, cols);
}
// the caller catches what is thrown, so that destructors run
int e_try(int which, unsigned n, unsigned m, unsigned sel, const S* x, S* out, unsigned rows, unsigned cols, int tape, S* more)
{
    try
    {
        (which == 0 ? e_jaca : which == 1 ? e_jacf : which == 2 ? e_hesa : e_hesf)(n, m, sel, x, out, 1, rows, cols, tape, more);
    }
    catch (xad::OutOfRange&)
    {
        return 1;
    }
    return 0;
}
}
