// Compile-time types of the library under test: -DVT_C=<column index> -DVT_R=<row index> -DVT_F=<real> [-DVT_WRAP=1]
// With VT_WRAP the three types are arithmetic wrappers: explicit construction, implicit conversion to the native type
// only, arithmetic only among themselves (and narrowing back to the native type, unlike built-in promotion).
#ifndef VERIF_VTYPES_HPP
#define VERIF_VTYPES_HPP
#include <cstddef>
#include <cstdint>
#include <utility>
#ifndef VT_C
#define VT_C int32_t
#endif
#ifndef VT_R
#define VT_R int16_t
#endif
#ifndef VT_F
#define VT_F float
#endif
namespace vt {
using c_native = VT_C;
using r_native = VT_R;
using f_native = VT_F;
#ifdef VT_WRAP
template <typename T, typename G>
struct W {
    T value;
    constexpr W() = default;
    constexpr explicit W(T x) : value(x) {}
    constexpr operator T() const { return value; }
};
#define VT_BIN(op)                                                                                       \
    template <typename T, typename G> constexpr W<T, G> operator op(W<T, G> a, W<T, G> b) { return W<T, G>(T(a.value op b.value)); } \
    template <typename T, typename G> W<T, G>& operator op##=(W<T, G>& a, W<T, G> b) { a.value = T(a.value op b.value); return a; }  \
    template <typename T, typename G, typename U> W<T, G> operator op(W<T, G>, U) = delete;              \
    template <typename T, typename G, typename U> W<T, G> operator op(U, W<T, G>) = delete;              \
    template <typename T, typename G, typename U> W<T, G>& operator op##=(W<T, G>&, U) = delete;
VT_BIN(+) VT_BIN(-) VT_BIN(*) VT_BIN(/)
#define VT_CMP(op)                                                                                       \
    template <typename T, typename G> constexpr bool operator op(W<T, G> a, W<T, G> b) { return a.value op b.value; } \
    template <typename T, typename G, typename U> bool operator op(W<T, G>, U) = delete;                 \
    template <typename T, typename G, typename U> bool operator op(U, W<T, G>) = delete;
VT_CMP(<) VT_CMP(>) VT_CMP(<=) VT_CMP(>=) VT_CMP(==) VT_CMP(!=)
template <typename T, typename G> constexpr W<T, G> operator+(W<T, G> a) { return a; }
template <typename T, typename G> constexpr W<T, G> operator-(W<T, G> a) { return W<T, G>(T(-a.value)); }
template <typename T, typename G> W<T, G>& operator++(W<T, G>& a) { ++a.value; return a; }
template <typename T, typename G> W<T, G>& operator--(W<T, G>& a) { --a.value; return a; }
template <typename T, typename G> W<T, G> operator++(W<T, G>& a, int) { W<T, G> o = a; ++a.value; return o; }
template <typename T, typename G> W<T, G> operator--(W<T, G>& a, int) { W<T, G> o = a; --a.value; return o; }
struct Col; struct Row; struct Real;
#endif
}  // namespace vt
#ifdef VT_WRAP
#define CFT_CIDX_TYPE vt::W<vt::c_native, vt::Col>
#define CFT_RIDX_TYPE vt::W<vt::r_native, vt::Row>
#define CFT_REAL_TYPE vt::W<vt::f_native, vt::Real>
#include "utils/custom_types.hpp"
namespace cft {
template <typename T, typename G>
struct native<vt::W<T, G>> { using type = T; };
}  // namespace cft
#else
#define CFT_CIDX_TYPE vt::c_native
#define CFT_RIDX_TYPE vt::r_native
#define CFT_REAL_TYPE vt::f_native
#endif
#endif
