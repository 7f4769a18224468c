"""Type-level witnesses: translation units of static assertions and calls that the compiler has to accept, and
programs that it has to reject, built against the headers of the current tree. Nothing is run."""
import itertools, os, re, subprocess
import common

COMPILERS = {"clang++": common.CXX, "g++": "/usr/bin/g++"}
FIRST = ["AReal<double>", "FReal<double>", "AReal<float>", "FReal<float>"]
NESTED = ["AReal<FReal<double>>", "FReal<FReal<double>>", "FReal<AReal<double>>", "AReal<AReal<double>>"]
NESTEDF = [t.replace("double", "float") for t in NESTED]
HEAD = "#include <XAD/XAD.hpp>\n#include <XAD/Complex.hpp>\n#include <XAD/StdCompatibility.hpp>\n#include <XAD/Jacobian.hpp>\n#include <XAD/Hessian.hpp>\n" \
       "#include <cmath>\n#include <limits>\n#include <sstream>\n#include <type_traits>\n#include <utility>\n#include <vector>\n"

UN = ("abs fabs floor ceil trunc round cos sin tan asin acos atan sinh cosh tanh asinh acosh atanh log log10 log2 exp expm1 exp2 log1p "
      "sqrt cbrt erf erfc degrees radians smooth_abs").split()
CLS = {"lround": "long", "llround": "long long", "ilogb": "int", "isinf": "bool", "isnan": "bool", "isfinite": "bool", "signbit": "bool",
       "isnormal": "bool", "fpclassify": "int"}
BI = "max min fmax fmin fmod remainder nextafter copysign atan2 hypot pow smooth_abs".split()
TRI = "smooth_max smooth_min".split()
OPS = "+ - * /".split()
CMP = "== != < <= > >=".split()
NOSTD = {"degrees", "radians", "smooth_abs", "smooth_max", "smooth_min"}
PASSIVE = ["N", "double", "float", "int", "unsigned", "long"]


class TU:
    """lines of C++ where each obligation sits on one line of its own"""

    def __init__(self, name, head=HEAD, flags=()):
        self.name, self.lines, self.keys, self.flags = name, head.split("\n"), {}, list(flags)

    def raw(self, s):
        self.lines += s.split("\n")

    def ob(self, key, text):
        self.lines.append(text)
        self.keys[len(self.lines)] = key

    def sa(self, key, cond):
        self.ob(key, 'static_assert((%s), "violated");' % cond)

    def text(self):
        return "\n".join(self.lines) + "\n"


def prelude(tu, a):
    tu.raw("using namespace xad;\ntypedef %s A; typedef ExprTraits<A>::nested_type N; typedef A::value_type S;" % a)
    tu.raw("template<class T, class U> struct same : std::is_same<T, U> {};\ntemplate<class T> T& lv();")
    tu.raw("typedef decltype(lv<A>() * lv<A>()) Mul; typedef decltype(xad::sin(lv<A>())) Sin;")
    tu.raw("template<class R> struct yields : std::integral_constant<bool, ExprTraits<typename std::decay<R>::type>::isExpr && "
           "std::is_same<typename ExprTraits<typename std::decay<R>::type>::value_type, A>::value> {};")


def calls(a):
    """the overload matrix: every documented function and operator for every kind of operand"""
    tu = TU("calls " + a)
    prelude(tu, a)
    tu.raw("void calls(A& A1, A& A2, const A& CA, N& N1, double& double1, float& float1, int& int1, unsigned& unsigned1, long& long1)\n{\nauto Mul1 = A1 * A2; auto Sin1 = xad::sin(A1);"
           "\nint i = 0; N ip = 0; A ap; (void)i; (void)ip; (void)ap; (void)CA; (void)N1; (void)double1; (void)float1; (void)int1; (void)unsigned1; (void)long1;")
    act = ["A1", "CA", "Mul1", "Sin1"]
    k = itertools.count()

    def expr(key, e, want):
        n = next(k)
        if want == "A":
            tu.ob(key, "{ static_assert(yields<decltype(%s)>::value, \"violated\"); A r%d = %s; (void)r%d; }" % (e, n, e, n))
        elif want == "passive":
            tu.ob(key, "{ static_assert(std::is_floating_point<std::decay<decltype(%s)>::type>::value && !ExprTraits<std::decay<decltype(%s)>::type>::isExpr, "
                       "\"violated\"); (void)(%s); }" % (e, e, e))
        else:
            tu.ob(key, "{ static_assert(std::is_same<std::decay<decltype(%s)>::type, %s>::value, \"violated\"); (void)(%s); }" % (e, want, e))

    def quals(f):
        return ["", "xad::"] + ([] if f in NOSTD else ["std::"])
    for f in UN:
        for q in quals(f):
            for x in act:
                expr("%s%s(%s)" % (q, f, x), "%s%s(%s)" % (q, f, x), "A")
    for f, r in CLS.items():
        for q in quals(f):
            for x in act:
                expr("%s%s(%s)" % (q, f, x), "%s%s(%s)" % (q, f, x), r)
    pas = [p + "1" for p in PASSIVE]
    pairs = list(itertools.product(act, act)) + [(x, p) for x in act for p in pas] + [(p, x) for x in act for p in pas]
    for f in BI:
        for q in quals(f):
            for x, y in pairs:
                e = "%s%s(%s, %s)" % (q, f, x, y)
                expr(e, e, "passive" if f == "copysign" and x in pas else "A")
    for f in TRI:
        for q in quals(f):
            for x, y in pairs:
                expr("%s%s(%s, %s)" % (q, f, x, y), "%s%s(%s, %s)" % (q, f, x, y), "A")
    for o in OPS + CMP:
        for x, y in pairs:
            e = "%s %s %s" % (x, o, y)
            expr(e, e, "A" if o in OPS else "bool")
    for o in "+", "-":
        for x in act:
            expr("%s%s" % (o, x), "%s%s" % (o, x), "A")
    for x in act:
        expr("!" + x, "!" + x, "bool")
        expr("condition " + x, "static_cast<bool>(%s)" % x, "bool")
        for q in "", "xad::", "std::":
            for e in ("ldexp(%s, int1)", "scalbn(%s, int1)", "frexp(%s, &i)", "modf(%s, &ip)", "modf(%s, &ap)"):
                expr(q + e % x, q + e % x, "A")
            for y in act + ["N1"]:
                expr("%sremquo(%s, %s, &i)" % (q, x, y), "%sremquo(%s, %s, &i)" % (q, x, y), "A")
            expr("%sremquo(N1, %s, &i)" % (q, x), "%sremquo(N1, %s, &i)" % (q, x), "A")
    for o in OPS:
        for y in act + pas:
            e = "(A1 %s= %s)" % (o, y)
            tu.ob(e, "{ static_assert(std::is_same<decltype(%s), A&>::value, \"violated\"); %s; }" % (e, e))
    for y in act + pas:
        tu.ob("A x = %s" % y, "{ A x = %s; x = %s; static_assert(std::is_same<decltype(x = %s), A&>::value, \"violated\"); }" % (y, y, y))
        tu.ob("A x(%s)" % y, "{ A x(%s); (void)x; }" % y)
    for e, r in (("++A1", "A&"), ("--A1", "A&"), ("A1++", "A"), ("A1--", "A")):
        tu.ob(e, "{ static_assert(std::is_same<decltype(%s), %s>::value, \"violated\"); %s; }" % (e, r, e))
    tu.ob("true ? x : 1.0", "{ A x = true ? A1 : A(1.0); (void)x; }")
    for x in act:
        tu.ob("stream << " + x, "{ std::ostringstream os; os << %s << ' ' << %s; }" % (x, x))
    tu.ob("stream >> x", "{ std::istringstream is; is >> A1 >> A2; }")
    tu.raw("}")
    return tu


def traits(a, T, outer, inner):
    """nested_type, scalar type, direction, standard traits, limits, conversions and value categories of one active type"""
    tu = TU("traits " + a)
    prelude(tu, a)
    rev = outer == "AReal"
    sa = tu.sa

    def b(v):
        return "true" if v else "false"
    for n, t, nv, lit in (("A", "A", 1, True), ("const A", "const A", 1, True), ("volatile A", "volatile A", 1, True), ("x * y", "Mul", 2, False), ("sin(x)", "Sin", 1, False),
                          ("sin(x) * y + x", "decltype(sin(lv<A>()) * lv<A>() + lv<A>())", 3, False), ("x * 2", "decltype(lv<A>() * 2)", 1, False),
                          ("pow(2, x * y)", "decltype(pow(2, lv<A>() * lv<A>()))", 2, False), ("-max(x, y)", "decltype(-max(lv<A>(), lv<A>()))", 2, False),
                          ("x + y * x / y", "decltype(lv<A>() + lv<A>() * lv<A>() / lv<A>())", 4, False)):
        X = "ExprTraits<%s>" % t
        sa("ExprTraits<%s>::isExpr" % n, X + "::isExpr")
        sa("ExprTraits<%s>::numVariables" % n, X + "::numVariables == %d" % nv)
        sa("ExprTraits<%s>::isLiteral" % n, X + "::isLiteral == " + b(lit))
        sa("ExprTraits<%s>::isForward" % n, X + "::isForward == " + b(not rev))
        sa("ExprTraits<%s>::isReverse" % n, X + "::isReverse == " + b(rev))
        sa("ExprTraits<%s>::direction" % n, X + "::direction == " + ("DIR_REVERSE" if rev else "DIR_FORWARD"))
        sa("ExprTraits<%s>::nested_type" % n, "same<%s::nested_type, %s>::value" % (X, T))
        sa("ExprTraits<%s>::value_type" % n, "same<%s::value_type, A>::value" % X)
    sa("ExprTraits<A>::scalar_type", "same<ExprTraits<A>::scalar_type, %s>::value" % inner)
    sa("A::value_type", "same<A::value_type, %s>::value" % inner)
    for p in ("double", "float", "int", "std::vector<double>"):
        X = "ExprTraits<%s>" % p
        sa(X, "!%s::isExpr && %s::numVariables == 0 && !%s::isForward && !%s::isReverse && !%s::isLiteral && %s::direction == DIR_NONE && same<%s::nested_type, %s>::value && "
              "same<%s::value_type, %s>::value" % (X, X, X, X, X, X, X, p, X, p))
    for t, v in (("is_floating_point", 1), ("is_arithmetic", 1), ("is_signed", 1), ("is_fundamental", 0), ("is_scalar", 0), ("is_compound", 1)):
        sa("std::%s<A>" % t, "std::%s<A>::value == %s" % (t, b(v)))
    sa("std::is_pod<A>", "!std::is_pod<A>::value")
    L, D = "std::numeric_limits<A>", "std::numeric_limits<%s>" % T
    for m in ("is_specialized is_signed is_integer is_exact radix digits digits10 max_digits10 min_exponent min_exponent10 max_exponent max_exponent10 has_infinity has_quiet_NaN "
              "has_signaling_NaN is_iec559 is_bounded is_modulo traps tinyness_before round_style has_denorm has_denorm_loss").split():
        sa("numeric_limits::" + m, "%s::%s == %s::%s" % (L, m, D, m))
    for m in "min max lowest epsilon round_error infinity denorm_min".split():
        sa("numeric_limits::" + m, "%s::%s() == %s::%s()" % (L, m, D, m))
        sa("numeric_limits::%s converts" % m, "std::is_convertible<decltype(%s::%s()), A>::value" % (L, m))
    for m in "quiet_NaN signaling_NaN".split():
        sa("numeric_limits::" + m, "%s::%s() != %s::%s()" % (L, m, L, m))
    # conversions
    for p in ("float", "double", "int", "unsigned", "long", "short", "char", "bool", "long long"):
        sa("%s -> A" % p, "std::is_convertible<%s, A>::value && std::is_assignable<A&, %s>::value" % (p, p))
    for x, n in (("A", "A"), ("const A&", "const A&"), ("Mul", "x * y"), ("Sin", "sin(x)")):
        for p in ("float", "double", "long double", "int", "unsigned", "long", "char", "bool", "long long", "short"):
            sa("no implicit %s -> %s" % (n, p), "!std::is_convertible<%s, %s>::value" % (x, p))
        for p in ("float", "double", "long double"):
            sa("no explicit %s -> %s" % (n, p), "!std::is_constructible<%s, %s>::value" % (p, x))
        sa("explicit %s -> bool" % n, "std::is_constructible<bool, %s>::value" % x)
        for p in ("char", "unsigned char", "signed char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long"):
            sa("explicit %s -> %s as configured" % (n, p), "std::is_constructible<%s, %s>::value == INTCONV" % (p, x))
    for p in ("float", "double"):
        sa("no assignment to %s" % p, "!std::is_assignable<%s&, A>::value && !std::is_assignable<%s&, Mul>::value" % (p, p))
    # copies
    sa("default constructible", "std::is_default_constructible<A>::value")
    sa("copyable", "std::is_copy_constructible<A>::value && std::is_copy_assignable<A>::value")
    sa("nothrow movable", "std::is_nothrow_move_constructible<A>::value && std::is_nothrow_move_assignable<A>::value && std::is_nothrow_destructible<A>::value")
    sa("expressions can be stored", "std::is_copy_constructible<Mul>::value && std::is_copy_constructible<Sin>::value && !std::is_reference<Mul>::value && !std::is_reference<Sin>::value")
    # value and derivative access
    for f, r in (("value", "S"), ("derivative", "S")):
        sa("%s(A&)" % f, "same<decltype(xad::%s(lv<A>())), %s&>::value" % (f, r))
        sa("%s(const A&)" % f, "same<decltype(xad::%s(lv<const A>())), const %s&>::value" % (f, r))
        sa("%s(x * y)" % f, "same<std::decay<decltype(xad::%s(lv<Mul>()))>::type, S>::value && !std::is_lvalue_reference<decltype(xad::%s(std::declval<Mul>()))>::value" % (f, f))
        sa("x.%s()" % f, "same<decltype(lv<A>().%s()), S&>::value && same<decltype(lv<const A>().%s()), const S&>::value" % (f, f))
    for m in ("getValue", "getDerivative"):
        sa("x.%s()" % m, "same<decltype(lv<const A>().%s()), S>::value" % m)
    if rev:
        sa("x.getAdjoint()", "same<decltype(lv<const A>().getAdjoint()), S>::value")
    for p in ("double", "float"):
        sa("value(%s&)" % p, "same<decltype(xad::value(lv<%s>())), %s&>::value && same<decltype(xad::value(lv<const %s>())), const %s&>::value" % (p, p, p, p))
        sa("derivative(%s&)" % p, "same<decltype(xad::derivative(lv<%s>())), %s>::value && same<decltype(xad::derivative(lv<const %s>())), %s>::value" % (p, p, p, p))
    if rev:
        sa("A::tape_type", "same<A::tape_type, Tape<S>>::value && same<Tape<S>::active_type, A>::value && same<Tape<S>::value_type, S>::value")
        sa("x.getTape()", "same<decltype(lv<const A>().getTape()), Tape<S>*>::value")
        sa("tapes are not copied", "!std::is_copy_constructible<Tape<S>>::value && !std::is_copy_assignable<Tape<S>>::value")
        sa("tapes move without throwing", "std::is_nothrow_move_constructible<Tape<S>>::value && std::is_nothrow_move_assignable<Tape<S>>::value && std::is_nothrow_destructible<Tape<S>>::value")
        sa("Tape(bool) is explicit", "std::is_constructible<Tape<S>, bool>::value && !std::is_convertible<bool, Tape<S>>::value && std::is_default_constructible<Tape<S>>::value")
        sa("CheckpointCallback", "std::is_abstract<CheckpointCallback<Tape<S>>>::value && std::has_virtual_destructor<CheckpointCallback<Tape<S>>>::value")
        sa("Tape<>::position_type", "std::is_unsigned<Tape<S>::position_type>::value && std::is_unsigned<Tape<S>::slot_type>::value && "
                                    "same<decltype(lv<const Tape<S>>().getPosition()), Tape<S>::position_type>::value")
        sa("Tape<>::getActive", "same<decltype(Tape<S>::getActive()), Tape<S>*>::value")
        sa("Tape<>::INVALID_SLOT", "Tape<S>::INVALID_SLOT == Tape<S>::slot_type(-1) && A::INVALID_SLOT == Tape<S>::INVALID_SLOT")
        sa("Tape<>::derivative", "same<decltype(lv<Tape<S>>().derivative(0)), S&>::value && same<decltype(lv<const Tape<S>>().derivative(0)), const S&>::value")
    # complex numbers
    C = "std::complex<A>"
    sa("complex::value_type", "same<%s::value_type, A>::value" % C)
    sa("complex parts", "same<std::decay<decltype(lv<const %s>().real())>::type, A>::value && same<std::decay<decltype(lv<const %s>().imag())>::type, A>::value" % (C, C))
    sa("complex from numbers", "std::is_constructible<%s, double, double>::value && std::is_constructible<%s, A, A>::value && std::is_convertible<A, %s>::value && std::is_convertible<double, %s>::value"
       % (C, C, C, C))
    sa("complex is copied and moved", "std::is_copy_constructible<%s>::value && std::is_copy_assignable<%s>::value && std::is_nothrow_move_constructible<A>::value" % (C, C))
    for f in ("abs", "arg", "norm", "real", "imag"):
        sa("%s(complex)" % f, "same<ExprTraits<std::decay<decltype(std::%s(lv<const %s>()))>::type>::value_type, A>::value" % (f, C))
    for f in "conj proj exp log sqrt sin cos tan sinh cosh tanh asin acos atan asinh acosh atanh".split():
        sa("%s(complex)" % f, "same<std::decay<decltype(std::%s(lv<const %s>()))>::type, %s>::value" % (f, C, C))
    return tu


def interface():
    """the mode structures, aliases, drivers and exceptions"""
    tu = TU("interface")
    tu.raw("using namespace xad;\ntemplate<class T, class U> struct same : std::is_same<T, U> {};\ntemplate<class T> T& lv();")
    for t in ("double", "float"):
        for m, d in (("adj", {"active_type": "AReal<T>", "tape_type": "Tape<T>"}), ("fwd", {"active_type": "FReal<T>", "tape_type": "void"}),
                     ("fwd_adj", {"active_type": "AReal<FReal<T>>", "tape_type": "Tape<FReal<T>>", "inner_type": "FReal<T>"}),
                     ("fwd_fwd", {"active_type": "FReal<FReal<T>>", "tape_type": "void", "inner_type": "FReal<T>"}),
                     ("adj_fwd", {"active_type": "FReal<AReal<T>>", "tape_type": "Tape<T>", "inner_type": "AReal<T>"}),
                     ("adj_adj", {"active_type": "AReal<AReal<T>>", "inner_tape_type": "Tape<T>", "outer_tape_type": "Tape<AReal<T>>", "inner_type": "AReal<T>"})):
            d = dict(d, passive_type="T", value_type="T")
            for k, v in d.items():
                tu.sa("%s<%s>::%s" % (m, t, k), "same<%s<%s>::%s, %s>::value" % (m, t, k, re.sub(r"\bT\b", t, v)))
    for k, v in (("AD", "AReal<double>"), ("AF", "AReal<float>"), ("FAD", "FReal<double>"), ("FAF", "FReal<float>")):
        tu.sa(k, "same<xad::%s, %s>::value" % (k, v))
    for e in ("TapeAlreadyActive", "OutOfRange", "DerivativesNotInitialized", "NoTapeException"):
        tu.sa("%s is an Exception" % e, "std::is_base_of<xad::Exception, xad::%s>::value && std::is_convertible<xad::%s*, xad::Exception*>::value && std::is_copy_constructible<xad::%s>::value" % (e, e, e))
    tu.sa("Exception is a runtime_error", "std::is_convertible<xad::Exception*, std::runtime_error*>::value")
    for A, S in (("AReal<double>", "double"), ("FReal<double>", "double"), ("AReal<FReal<double>>", "FReal<double>"), ("AReal<float>", "float"), ("FReal<float>", "float")):
        tu.sa("computeJacobian %s" % A, "same<decltype(computeJacobian(lv<std::vector<%s>>(), lv<std::function<std::vector<%s>(std::vector<%s>&)>>())), std::vector<std::vector<%s>>>::value" % (A, A, A, S))
    for A, S in (("AReal<FReal<double>>", "double"), ("FReal<FReal<double>>", "double"), ("AReal<FReal<float>>", "float"), ("FReal<FReal<float>>", "float")):
        tu.sa("computeHessian %s" % A, "same<decltype(computeHessian(lv<std::vector<%s>>(), lv<std::function<%s(std::vector<%s>&)>>())), std::vector<std::vector<%s>>>::value" % (A, A, A, S))
    return tu


REJECT_PRE = HEAD + "using namespace xad;\ntypedef AReal<double> AD_; typedef FReal<double> FD_; typedef AReal<float> AF_; typedef FReal<float> FF_; typedef AReal<FReal<double>> RF_; " \
    "typedef FReal<FReal<double>> FF2_; typedef FReal<AReal<double>> FA_; typedef AReal<AReal<double>> AA_;\n" \
    "struct NotAContainer { }; std::vector<AD_> jfun(std::vector<AD_>&);\n" \
    "void witness(AD_& a, AD_& a2, FD_& f, AF_& af, FF_& ff, RF_& rf, FF2_& f2, FA_& fa, AA_& aa, double& d, float& fl, int& i, bool& b, Tape<double>& t, Tape<double>& t2,\n" \
    " std::vector<AD_>& va, std::vector<double>& vd, std::vector<NotAContainer>& rows)\n{\n (void)a; (void)a2; (void)f; (void)af; (void)ff; (void)rf; (void)f2; (void)fa; (void)aa; (void)d; (void)fl; (void)i; (void)b; (void)t; (void)t2; (void)va; (void)vd; (void)rows;\n"

# (what is refused, an accepted statement of the same shape, the statement to be refused)
REJECT = [
    ("a derivative is dropped by assigning an adjoint number to a plain one", "a = d;", "d = a;"),
    ("a derivative is dropped by initialising a plain number with an adjoint one", "AD_ z = d; (void)z;", "double z = a; (void)z;"),
    ("a derivative is dropped by initialising a plain number with a forward one", "FD_ z = d; (void)z;", "double z = f; (void)z;"),
    ("a derivative is dropped by assigning an expression to a plain number", "a = a * a2;", "d = a * a2;"),
    ("a derivative is dropped by a compound assignment to a plain number", "a += d;", "d += a;"),
    ("an active number becomes an integer implicitly", "a = i;", "i = a;"),
    ("an active number becomes a bool implicitly", "b = a < a2;", "b = a;"),
    ("an active number is used as an array index", "vd[i] = 1;", "vd[a] = 1;"),
    ("a plain container is filled from an active one", "std::vector<AD_> z(vd.begin(), vd.end());", "std::vector<double> z(va.begin(), va.end());"),
    ("adjoint and forward numbers of the same base are added", "AD_ z = a + a2;", "AD_ z = a + f;"),
    ("adjoint and forward numbers of the same base are subtracted", "FD_ z = f - f;", "FD_ z = f - a;"),
    ("adjoint and forward numbers of the same base are multiplied", "AD_ z = a * a2;", "AD_ z = f * a;"),
    ("adjoint and forward numbers of the same base are divided", "AD_ z = a / a2;", "AD_ z = a / f;"),
    ("adjoint and forward numbers meet in a function", "AD_ z = pow(a, a2);", "AD_ z = pow(a, f);"),
    ("adjoint and forward numbers meet in max", "AD_ z = max(a, a2);", "AD_ z = max(a, f);"),
    ("adjoint and forward numbers meet in atan2", "AD_ z = atan2(a, a2);", "AD_ z = atan2(f, a);"),
    ("adjoint and forward expressions are added", "AD_ z = sin(a) + a2 * 2;", "AD_ z = sin(a) + f * 2;"),
    ("a mixed sum is stored as an expression", "auto z = a + a2; (void)z;", "auto z = a + f; (void)z;"),
    ("a forward number initialises an adjoint one", "AD_ z = a; (void)z;", "AD_ z = f; (void)z;"),
    ("a forward expression initialises an adjoint number", "AD_ z = a * 2; (void)z;", "AD_ z = f * 2; (void)z;"),
    ("a forward function value initialises an adjoint number", "AD_ z = sin(a); (void)z;", "AD_ z = sin(f); (void)z;"),
    ("a forward number is assigned to an adjoint one", "a = a2;", "a = f;"),
    ("a forward expression is assigned to an adjoint number", "a = a2 * 2;", "a = f * 2;"),
    ("an adjoint number initialises a forward one", "FD_ z = f; (void)z;", "FD_ z = a; (void)z;"),
    ("an adjoint expression initialises a forward number", "FD_ z = f * 2; (void)z;", "FD_ z = a * 2; (void)z;"),
    ("an adjoint number is assigned to a forward one", "f = d;", "f = a;"),
    ("an adjoint expression is assigned to a forward number", "f = f * 2;", "f = a * 2;"),
    ("a forward number is added to an adjoint one in place", "a += a2;", "a += f;"),
    ("an adjoint number scales a forward one in place", "f *= f;", "f *= a;"),
    ("single and double precision numbers are added", "AD_ z = a + a2;", "AD_ z = a + af;"),
    ("single precision number initialises a double precision one", "AF_ z = af; (void)z;", "AD_ z = af; (void)z;"),
    ("double precision number initialises a single precision one", "AD_ z = a; (void)z;", "AF_ z = a; (void)z;"),
    ("double precision forward number is assigned to a single precision one", "ff = ff * 2;", "ff = f;"),
    ("first and second order adjoint numbers are added", "AA_ z = aa + aa;", "AA_ z = aa + a;"),
    ("first and second order numbers are multiplied", "RF_ z = rf * rf;", "RF_ z = rf * f;"),
    ("second order number initialises a first order one", "FD_ z = f; (void)z;", "FD_ z = f2; (void)z;"),
    ("second order modes are mixed", "RF_ z = rf;", "RF_ z = f2;"),
    ("second order modes meet in an expression", "RF_ z = rf + rf;", "RF_ z = rf + f2;"),
    ("adjoint over forward and forward over adjoint numbers are mixed", "FA_ z = fa;", "FA_ z = rf;"),
    ("adjoint over adjoint and forward over adjoint numbers are mixed", "FA_ z = fa * fa;", "FA_ z = fa * aa;"),
    ("a forward number is registered on a tape", "t.registerInput(a);", "t.registerInput(f);"),
    ("a number of another precision is registered on a tape", "t.registerInput(a);", "t.registerInput(af);"),
    ("an expression is registered on a tape", "t.registerOutput(a);", "t.registerOutput(a * 2);"),
    ("a plain number is registered on a tape", "t.registerOutput(a);", "t.registerOutput(d);"),
    ("a constant is registered on a tape", "AD_ z = a; t.registerInput(z);", "const AD_ z = a; t.registerInput(z);"),
    ("a second order number is registered on a first order tape", "t.registerInput(a);", "t.registerInput(aa);"),
    ("a tape is copied", "Tape<double> z(std::move(t)); (void)z;", "Tape<double> z(t); (void)z;"),
    ("a tape is copy-assigned", "t = std::move(t2);", "t = t2;"),
    ("a tape of another type is moved in", "t = Tape<double>(false);", "t = Tape<float>(false);"),
    ("a callback of another tape type is inserted", "t.insertCallback((CheckpointCallback<Tape<double>>*)nullptr);", "t.insertCallback((CheckpointCallback<Tape<float>>*)nullptr);"),
    ("an abstract callback is created", "CheckpointCallback<Tape<double>>* z = nullptr; (void)z;", "CheckpointCallback<Tape<double>> z; (void)z;"),
    ("the value of an expression is assigned to", "value(a) = 1;", "value(a * a2) = 1;"),
    ("the derivative of an expression is assigned to", "derivative(f) = 1;", "derivative(f * f) = 1;"),
    ("the value of a constant is assigned to", "AD_ z = a; value(z) = 1;", "const AD_ z = a; value(z) = 1;"),
    ("the derivative of a constant is assigned to", "FD_ z = f; derivative(z) = 1;", "const FD_ z = f; derivative(z) = 1;"),
    ("an active number of integers", "AReal<double> z; (void)z;", "AReal<int> z; (void)z;"),
    ("a forward number of integers", "FReal<float> z; (void)z;", "FReal<long> z; (void)z;"),
    ("a Jacobian is written to rows that are no containers", "std::vector<std::vector<double>> m; computeJacobian<decltype(m.begin()), double>(va, jfun, m.begin(), m.end());",
     "computeJacobian<decltype(rows.begin()), double>(va, jfun, rows.begin(), rows.end());"),
    ("a Jacobian is written to plain numbers", "std::vector<std::vector<double>> m; computeJacobian<decltype(m.begin()), double>(va, jfun, m.begin(), m.end());",
     "computeJacobian<decltype(vd.begin()), double>(va, jfun, vd.begin(), vd.end());"),
    ("complex numbers of different modes are added", "std::complex<AD_> z(a, a2); z = z + z;", "std::complex<AD_> z(a, a2); std::complex<FD_> w(f, f); z = z + w;"),
    ("a complex number of another mode is assigned", "std::complex<AD_> z(a, a2); z = z;", "std::complex<AD_> z(a, a2); std::complex<FD_> w(f, f); z = w;"),
    ("a complex active number becomes a plain one", "std::complex<AD_> z(a, a2); std::complex<AD_> w = z; (void)w;", "std::complex<AD_> z(a, a2); std::complex<double> w = z; (void)w;"),
]

PUBLIC = ["XAD/XAD.hpp", "XAD/Complex.hpp", "XAD/StdCompatibility.hpp", "XAD/Hessian.hpp", "XAD/Jacobian.hpp"]
ALONE = PUBLIC + ["XAD/%s.hpp" % h for h in ("Tape", "Literals", "Expression", "Traits", "Interface", "Exceptions", "CheckpointCallback", "MathFunctions", "BinaryOperators", "UnaryOperators",
                                             "ChunkContainer", "ReusableRange", "TypeTraits", "Macros")]


def syntax(src, cc, std, cfg, flags=()):
    cmd = [COMPILERS[cc], "-std=c++%d" % std, "-fsyntax-only", "-w"] + (["-ferror-limit=0", "-fno-caret-diagnostics"] if cc == "clang++" else ["-fno-diagnostics-show-caret"]) + \
        common.include_flags(cfg) + [f for f in common.CONFIGS[cfg][1]] + list(flags) + [src]
    return common.run(cmd, timeout=600)


def failing_lines(err, src):
    """{line of the witness: first message}. A diagnostic raised in a header belongs to the witness line in its instantiation trace."""
    out, base, last, trace = {}, os.path.basename(src), None, []
    for l in err.split("\n"):
        m = re.match(r"(?:In file included from )?(.*?):(\d+)(?::\d+)?:?\s*(.*)", l)
        if not m:
            continue
        f, n, t = os.path.basename(m.group(1)), int(m.group(2)), m.group(3)
        if re.search(r"\berror:", t):
            last = (re.sub(r"^.*?error: ", "", t)[:200], m.group(1))
            if f == base:
                out.setdefault(n, last[0])
                last = (last[0], None)
            elif trace:                       # g++ prints the trace first
                out.setdefault(trace[-1], last[0])
            trace = []
        elif f == base and ("required from" in t or "requested here" in t):
            if "requested here" in t and last and last[1]:
                out.setdefault(n, last[0])
            trace.append(n)
        elif "In instantiation" in t or "In substitution" in t:
            trace = []
    return out


def write(tu, d, name):
    p = os.path.join(d, name)
    open(p, "w").write(tu.text())
    return p


def strong_symbols(headers, d, cfg):
    """symbols a translation unit defines strongly by including the headers alone (they would clash when two units are linked)"""
    src = os.path.join(d, "odr-%s.cpp" % cfg)
    open(src, "w").write("".join("#include <%s>\n" % h for h in headers))
    r = common.run([common.CXX, "-std=c++17", "-O0", "-w", "-S", "-emit-llvm", "-o", "-"] + common.include_flags(cfg) + common.CONFIGS[cfg][1] + [src])
    if r.returncode:
        return None, r.stderr
    bad = []
    for l in r.stdout.split("\n"):
        if l.startswith("define "):
            if not re.search(r"\b(internal|private|linkonce|linkonce_odr|weak|weak_odr|available_externally)\b", l.split("@")[0]):
                bad.append(re.search(r"@\"?([\w.$]+)", l).group(1))
        m = re.match(r"@\"?([\w.$]+)\"? = (.*?)\b(global|constant)\b", l)
        if m and not re.search(r"\b(internal|private|linkonce|linkonce_odr|weak|weak_odr|available_externally|external|extern_weak|appending)\b", m.group(2)):
            bad.append(m.group(1))
    return bad, ""
