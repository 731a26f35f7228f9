// The compile-time half of C25: the compiler evaluates every call below while translating this file
#include <cstring>
#include <cstdint>
#include "colorsystem.hpp"
#define CT constexpr
#include "c25_ops.hpp"
namespace
{
template <int K> struct Row { O c[cases(K)]; constexpr Row() : c{} { for (int i = 0; i < cases(K); i++) c[i] = callop<K>(arg(K, i)); } };
template <int K> struct Tab { static constexpr Row<K> row{}; };
template <int K> const O *at(int op, int i) { return op == K ? &Tab<K>::row.c[i] : at<K + 1>(op, i); }
template <> const O *at<OPS>(int, int) { return nullptr; }
} // namespace
int ct_count(int op) { return cases(op); }
uint32_t ct_arg(int op, int i) { return arg(op, i).s; }
const float *ct_result(int op, int i, int *n) { const O *o = at<0>(op, i); *n = o->n; return o->v; }
